"""Does the symbolic numpy agree with numpy?  Each expression is computed on symbols, the terms are evaluated
for concrete values of the symbols and compared with real numpy on the same values.

   python tools/npconf.py [-v]        lists differences and unsupported expressions
"""
import math
import os
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, npshim, sym as S          # noqa: E402

EXPR = """
np.sum(a), np.sum(a, axis=0), np.sum(a, axis=1), np.sum(a, axis=-1, keepdims=True), a.sum(), a.sum(axis=1), sum(v), np.sum([x for x in v])
np.mean(a), np.mean(a, axis=0), a.mean(axis=1), v.mean(), np.std(v), np.std(a, axis=0), np.var(v), a.std(), np.average(v), np.average(v, weights=w), np.average(a, axis=0)
np.median(v), np.median(a, axis=0), np.prod(v), np.prod(a, axis=1), v.prod(), np.cumsum(v), np.cumprod(v), v.cumsum(), np.cumsum(a, axis=0), np.cumsum(a, axis=1)
np.max(v), np.min(v), np.amax(a, axis=0), np.amin(a, axis=1), v.max(), v.min(), a.max(axis=0), a.min(axis=1), max(v), min(v), np.ptp(v), np.nanmax(v), np.nanmin(v), np.fmax(v, w), np.fmin(v, w)
np.argmax(v), np.argmin(v), np.argmin(a, axis=0), np.argmax(a, axis=1), v.argmin(), v.argmax(), np.nanargmin(v), np.argmin(a), np.nanargmax(v)
np.argsort(v), v.argsort(), np.argsort(a, axis=0), np.argsort(-v), np.argsort(v)[::-1], np.sort(v), np.sort(a, axis=0), np.sort(v)[::-1], np.argsort(v, kind='stable'), np.argsort(a, axis=1), np.lexsort((w, v))
np.argpartition(v, 1)[:1], np.partition(v, 1)[1], sorted(v), sorted(range(3), key=lambda k: v[k]), min(range(3), key=lambda k: v[k]), max(range(3), key=v.__getitem__), sorted(zip(v, w))[0][1], min(v, key=lambda t: -t)
np.where(v > w, v, w), np.where(v > w)[0], np.nonzero(v > w)[0], np.flatnonzero(v > w), np.argwhere(v > w), np.where(v > 0, 1, -1), np.select([v > w, v < 0], [v, w], 0.0), np.piecewise(v, [v < 0, v >= 0], [lambda t: -t, lambda t: t])
np.choose((v > w).astype(int), [v, w]), np.extract(v > w, v), np.compress(v > w, v), np.place, np.putmask, np.count_nonzero(v > w), np.any(v > w), np.all(v > w), (v > w).any(), (v > w).all(), any(v > w), all(v > w), (v > w).sum(), sum(v > w)
v + w, v - w, v * w, v / w, v ** 2, v ** 3, -v, abs(v), v // 1, v % 1, 2 ** 3 * v, 1 / v, v @ w, np.dot(v, w), np.inner(v, w), np.outer(v, w), np.vdot(v, w), a @ v, a.dot(v), np.matmul(a, v), np.einsum('i,i->', v, w), np.einsum('ij->i', a), np.einsum('ij,j->i', a, v), np.tensordot(v, w, 1), np.kron(v, w)
np.add(v, w), np.subtract(v, w), np.multiply(v, w), np.divide(v, w), np.true_divide(v, w), np.power(v, 2), np.square(v), np.negative(v), np.abs(v), np.absolute(v), np.fabs(v), np.sign(v), np.reciprocal(v), np.positive(v), np.float_power(abs(v), 2)
np.maximum(v, w), np.minimum(v, w), np.clip(v, -1, 1), v.clip(-1, 1), np.clip(v, np.minimum(v, w), np.maximum(v, w)), np.clip(v, None, 1), np.clip(v, a_min=-1, a_max=1), np.mod(v, 1), np.remainder(v, 2), np.fmod(v, 2), np.floor_divide(v, 2), np.divmod(v, 2)[0]
np.floor(v), np.ceil(v), np.rint(v), np.round(v), np.trunc(v), np.around(v), np.fix(v), np.modf(v)[0], v.astype(int), v.round(), round(v[0]), int(v[0]), math.floor(v[0]), math.ceil(v[0]), math.trunc(v[0])
np.sqrt(np.abs(v)), np.exp(v), np.log(np.abs(v)), np.log10(np.abs(v)), np.log2(np.abs(v)), np.log1p(np.abs(v)), np.expm1(v), np.sin(v), np.cos(v), np.tan(v), np.arctan(v), np.arctan2(v, w), np.tanh(v), np.sinh(v), np.cosh(v), np.cbrt(v), np.hypot(v, w), np.exp2(v), np.arcsin(np.tanh(v)), np.arccos(np.tanh(v)), np.deg2rad(v), np.radians(v)
math.sqrt(abs(v[0])), math.exp(v[0]), math.sin(v[0]), math.cos(v[0]), math.log(abs(v[0])), math.fabs(v[0]), math.pow(v[0], 2), math.fsum(v), math.prod(v), math.hypot(v[0], v[1]), math.dist(v, w), math.copysign(1.0, v[0]), math.isfinite(v[0]), math.isclose(v[0], v[1]), math.tanh(v[0]), math.atan2(v[0], w[0]), math.sumprod(list(v), list(w)), pow(v[0], 2), divmod(v[0], 2)[1]
np.linalg.norm(v), np.linalg.norm(v - w), np.linalg.norm(a, axis=1), np.linalg.norm(v, 1), np.linalg.norm(v, np.inf), np.linalg.norm(v, ord=2), np.sqrt(np.sum((v - w) ** 2)), np.sqrt(((a - v) ** 2).sum(axis=1))
np.concatenate((v, w)), np.concatenate([a, a], axis=0), np.vstack((v, w)), np.hstack((v, w)), np.stack([v, w]), np.stack([v, w], axis=1), np.column_stack((v, w)), np.append(v, 1.0), np.append(v, w), np.append(a, [v], axis=0), np.r_[v, w], np.c_[v, w], np.row_stack((v, w)), np.dstack((v, w))
np.tile(v, 2), np.tile(v, (2, 1)), np.repeat(v, 2), np.repeat(a, 2, axis=0), np.roll(v, 1), np.roll(a, 1, axis=0), np.flip(v), np.flipud(a), np.fliplr(a), v[::-1], a.T, np.transpose(a), a.reshape(3, 2), np.reshape(a, -1), a.ravel(), a.flatten(), np.ravel(a), np.expand_dims(v, 0), v[None, :], v[:, None], v[np.newaxis], np.squeeze(v[None]), np.atleast_2d(v), np.atleast_1d(v[0]), np.swapaxes(a, 0, 1), np.rot90(a), np.diag(v), np.diagonal(a), np.trace(a), np.triu(a), np.tril(a), np.broadcast_to(v, (2, 3)), np.split(v, 3)[1], np.array_split(v, 2)[0], np.moveaxis(a, 0, 1), np.resize(v, 5), np.pad(v, 1)
np.delete(v, 1), np.delete(a, 0, axis=0), np.delete(a, [0], 0), np.insert(v, 1, 5.0), np.insert(a, 0, v, axis=0), np.take(v, [0, 2]), np.take(a, 1, axis=0), np.take_along_axis(a, np.argsort(a, axis=1), 1), np.setdiff1d([0, 1, 2], [1]), np.union1d([0, 1], [2]), np.intersect1d([0, 1], [1]), v.take([0, 1]), np.unique([1, 1, 2]), np.in1d([1, 2], [2]), np.isin([1, 2], [2])
v[v > w], a[:, 0], a[0], a[1, 2], a[[0, 1]], a[:, [0, 2]], a[np.array([True, False])], v[[2, 0, 1]], v[-1], v[1:], v[:-1], v[::2], a[:, ::-1], v[np.argsort(v)], a[np.argsort(a[:, 0])], a[np.argmin(a[:, 0])], v[i], a[0][i], v[np.array([0, 1])], a[..., 0]
np.array(v), np.array([v, w]), np.asarray(v), np.copy(v), v.copy(), np.zeros(3) + v, np.ones((2, 3)) * v, np.zeros_like(v), np.full(3, v[0]), np.full_like(v, 2.0), np.empty_like(v).shape, np.eye(3) @ v, np.arange(3) * v, np.linspace(0, 1, 3) * v, np.array([x ** 2 for x in v]), np.fromiter((x for x in v), float), np.asarray([f for f in v], dtype=float), np.array(list(map(lambda t: t * 2, v))), np.identity(3) @ v, np.logspace(0, 2, 3) * v, np.array([v[0], 1, 2.5]), np.float64(v[0]), float(v[0]), np.meshgrid(v, w)[0], np.indices((2, 2))
np.isnan(v), np.isfinite(v), np.isinf(v), np.isnan(v).any(), np.array_equal(v, w), np.array_equal(v, v), np.allclose(v, v), np.isclose(v, v), np.all(v == v), np.equal(v, w), np.not_equal(v, w), np.less(v, w), np.less_equal(v, w), np.greater(v, w), np.greater_equal(v, w), np.logical_and(v > 0, w > 0), np.logical_or(v > 0, w > 0), np.logical_not(v > 0), np.logical_xor(v > 0, w > 0), (v > 0) & (w > 0), (v > 0) | (w > 0), ~(v > 0), (v > 0) ^ (w > 0), np.invert(v > 0), np.logical_and.reduce([v > 0, w > 0]), np.isscalar(v[0]), np.array_equiv(v, v)
np.diff(v), np.diff(a, axis=0), np.ediff1d(v), np.gradient(v), np.trapz, np.convolve(v, [1.0, 1.0]), np.interp(v[0], [0, 1], [0, 1]), np.nan_to_num(v), np.add.reduce(v), np.multiply.reduce(v), np.maximum.reduce(v), np.minimum.reduce(v), np.add.accumulate(v), np.maximum.accumulate(v), np.minimum.accumulate(v), np.add.outer(v, w), np.subtract.outer(v, w), np.multiply.outer(v, w), np.cross(v, w), np.polyval([1, 2, 3], v[0]), np.cov(v), np.corrcoef(v, w), np.percentile(v, 50), np.quantile(v, 0.5), np.histogram, np.digitize, np.searchsorted(np.sort(v), w), np.bincount([0, 1, 1])
np.apply_along_axis(lambda r: r.sum(), 1, a), np.apply_along_axis(np.sum, 0, a), np.vectorize(lambda t: t + 1)(v), np.frompyfunc(lambda t: t + 1, 1, 1)(v), np.array([r.sum() for r in a]), list(map(sum, a)), np.array(list(zip(v, w))), functools.reduce(lambda p, q: p + q, v), functools.reduce(max, v), list(itertools.accumulate(v)), heapq.nsmallest(2, v), bisect.bisect_left(sorted(v), w[0]), statistics.mean(list(v)), collections.Counter([1, 1])[1], operator.itemgetter(0)(v), copy.deepcopy(v), copy.copy(v), v.tolist(), list(v), tuple(v), len(v), v.shape, v.size, v.ndim, a.shape[0], v.dtype.kind, [x for x in enumerate(v)][0][1], v.item(0), next(x for x in v if x == v[1]), v[0].item(), 1.0 if v[0] > w[0] else 2.0, not v[0] > w[0], isinstance(v[0], float), isinstance(v, np.ndarray), v.flat[1], list(v.flat), v.tolist()[0], v.nonzero()[0], np.ndim(v), np.shape(a), np.size(v), v.any(), v.all(), str(type(v).__name__)[:0], np.result_type(float, int).kind, bool(v[0] > 0)
(lambda u: (u.__setitem__(v > w, 0.0), u)[1])(v.copy()), (lambda u: (u.__setitem__(slice(0, 2), w[:2]), u)[1])(v.copy()), (lambda u: (u.fill(2.0), u)[1])(v.copy()), (lambda u: (u.sort(), u)[1])(v.copy()), (lambda u: (np.copyto(u, w), u)[1])(v.copy()), (lambda u: (np.copyto(u, w, where=v > w), u)[1])(v.copy()), (lambda u: (np.putmask(u, v > w, w), u)[1])(v.copy()), (lambda u: (np.place(u, v > 100, [0.0]), u)[1])(v.copy()), (lambda u: (np.clip(u, -1, 1, out=u), u)[1])(v.copy()), (lambda u: (np.add(u, w, out=u), u)[1])(v.copy()), (lambda u: (np.maximum(u, w, u), u)[1])(v.copy()), (lambda u: (np.put(u, [0], [1.0]), u)[1])(v.copy()), (lambda u: (np.fill_diagonal(u, 0.0), u)[1])(a.copy()), (lambda u: (np.add.at(u, [0, 0], 1.0), u)[1])(v.copy()), (lambda u: (u.partition(1), u[1])[1])(v.copy()), np.add(v, w, where=v > w, out=np.zeros(3)), np.divide(v, w, out=np.zeros(3), where=w != 0), np.sum(v, where=v > w), np.sum(v, initial=1.0), np.max(v, initial=0.0)
""".strip()
import ast      # noqa: E402
import bisect, collections, copy, functools, heapq, itertools, operator, statistics     # noqa: E402,F401,E401


def exprs():
    for line in EXPR.splitlines():
        for e in ast.parse('(' + line + ',)', mode='eval').body.elts:
            yield ast.unparse(e)


def flat(r):
    if isinstance(r, np.ndarray):
        return [r.shape] + [x for v in np.ndarray.view(r, np.ndarray).ravel() for x in flat(v)]
    if isinstance(r, (list, tuple)):
        return [len(r)] + [x for v in r for x in flat(v)]
    return [r]


def same(p, q):
    if len(p) != len(q):
        return False
    for x, y in zip(p, q):
        if isinstance(x, (int, float, bool, np.number, np.bool_)) and isinstance(y, (int, float, bool, np.number, np.bool_)):
            x, y = float(x), float(y)
            if not (x == y or (x != x and y != y) or abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))):
                return False
        elif x != y and not callable(x):
            return False
    return True


def main():
    verbose = '-v' in sys.argv
    mods = dict(functools=functools, itertools=itertools, heapq=heapq, bisect=bisect, statistics=statistics, collections=collections, operator=operator, copy=copy)
    n = bad = unsup = 0
    for e in exprs():
        try:
            compile(e, 'x', 'eval')
        except SyntaxError:
            continue
        n += 1
        out = {}

        def fn(env):
            sh = npshim.NPShim(env)
            g = env.ctx.guide
            v, w = env.vec('v', 3, -3, 3), env.vec('w', 3, -3, 3)
            a = env.array([env.vec('a%d' % k, 3, -3, 3) for k in range(2)])
            i = env.int('i', 0, 2)
            ns = dict(np=sh, math=npshim.MathShim(), v=v, w=w, a=a, i=i, float=npshim.SFloat, int=npshim.SInt, round=npshim.sround, min=npshim.smin, max=npshim.smax, **mods)
            vals = dict(v=np.array([g.ev(x) for x in v]), w=np.array([g.ev(x) for x in w]), a=np.array([[g.ev(x) for x in r] for r in a]), i=int(g.ev(i)))
            with np.errstate(all='ignore'):
                out['real'] = flat(eval(e, dict(np=np, math=math, **mods), vals))
                try:
                    r = eval(e, ns)
                except core.EngineStop as ex:
                    out['unsup'] = str(ex)
                    return
                except Exception as ex:
                    out['unsup'] = 'raises %r' % ex
                    return
            if env.ctx.guide is None:
                out['unsup'] = 'guide lost'
                return
            out['sym'] = [g.ev(x) for x in flat(r)]
        for seed in (1, 2):
            ex = core.Explorer(seed=seed, time_limit=20, max_paths=1)
            ex.max_traces = 1
            ex.run(fn)
            if ex.errors:
                if 'real' not in out:
                    break       # not valid numpy here
                print('ERROR      ', e, ex.errors[0][-200:])
                break
            if 'unsup' in out:
                unsup += 1
                print('unsupported', e, '|', out['unsup'][:100])
                break
            if 'sym' in out and not same(out['real'], out['sym']):
                bad += 1
                print('DIFFERS    ', e, '|', out['real'][:8], out['sym'][:8])
                break
    print(n, 'expressions', bad, 'differ', unsup, 'unsupported')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
