"""A stand-in for numpy.random.Generator.

Every scalar draw asks the environment for the k-th value of its stream,
constrained only by the documented contract of the method.  In symbolic mode
that is a fresh symbol; in concrete mode (replay) it is the value the solver
chose, or a pseudo-random one when the witness does not say.
"""
import math
import numpy as np

from . import sym as S
from .sym import Sym


class Rng:
    def __init__(self, env, tag):
        self.env = env
        self.tag = tag
        self.k = 0
        self.bit_generator = self

    def __deepcopy__(self, memo):
        return self

    # -- helpers ------------------------------------------------------------
    def _name(self, kind):
        self.k += 1
        self.env.on_draw()
        return '%s!%s!%d' % (self.tag, kind, self.k)

    def _arr(self, vals, shape, kind='f'):
        return self.env.mkarray(vals, shape, kind)

    def _shape(self, size, *params):
        if size is None:
            arrs = [np.shape(p) for p in params]
            return np.broadcast_shapes(*arrs) if arrs else ()
        if isinstance(size, Sym):
            size = size.__index__()
        if isinstance(size, (int, np.integer)):
            return (int(size),)
        if isinstance(size, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return tuple(s.__index__() if not isinstance(s, int) else s for s in size)

    def _each(self, fn, size, *params, kind='f'):
        shape = self._shape(size, *params)
        n = int(np.prod(shape)) if shape else 1
        bs = [np.broadcast_to(np.asarray(p, dtype=object), shape).ravel() if np.ndim(p) else [p] * n for p in params]
        vals = [fn(*[b[i] for b in bs]) for i in range(n)]
        if shape == ():
            return self.env.scalar(vals[0], kind)
        return self._arr(vals, shape, kind)

    # -- continuous -------------------------------------------------------------
    def _u(self):
        # exactly zero has probability 2**-53 per draw: left out (stated in the evidence)
        v = self.env.draw_real(self._name('u01'), 0.0 if not self.env.symbolic else 1e-9, 1.0)
        return v if isinstance(v, Sym) or v > 0 else 1e-9

    def random(self, size=None, dtype=None, out=None):
        return self._each(lambda: self._u(), size)

    random_sample = ranf = sample = random

    def rand(self, *s):
        return self.random(s or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        def f(lo, hi):
            if not isinstance(lo, Sym) and not isinstance(hi, Sym):
                if math.isnan(lo) or math.isnan(hi) or math.isinf(lo) or math.isinf(hi):
                    raise OverflowError('Range exceeds valid bounds')
                if lo == hi:
                    return float(lo)
                if lo == 0 and hi == 1:
                    return self._u()
            elif bool(S.eq_(lo, hi)):
                return lo
            if bool(S.lt_(hi, lo)):
                raise ValueError('high - low < 0')
            v = self.env.draw_real(self._name('uni'), lo, hi)
            if self.env.uniforms is not None:
                self.env.uniforms.append((v, lo, hi))
            if not isinstance(lo, Sym) and not isinstance(hi, Sym) and lo == -1 and hi == 1:
                if isinstance(v, Sym):
                    self.env.nonzero(v)
                elif abs(v) < 1e-9:
                    v = 1e-9
            return v
        return self._each(f, size, low, high)

    LIM = {'nrm': 10.0, 'stt': 1e3, 'cau': 1e9, 'lap': 1e3, 'exp': 1e3, 'gam': 1e6, 'ray': 1e3, 'wei': 1e3, 'par': 1e6, 'lgn': 1e6}

    def _free(self, kind, lo=None):
        """unbounded support: cut at a magnitude no generator reaches in practice, and
        away from exactly zero"""
        b = self.LIM[kind]
        v = self.env.draw_real(self._name(kind), -b if lo is None else 0.0, b, closed=True)
        if isinstance(v, Sym):
            self.env.nonzero(v)
        elif abs(v) < 1e-9:
            v = 1e-9
        return v

    def normal(self, loc=0.0, scale=1.0, size=None):
        def f(m, s):
            if bool(S.lt_(s, 0)):
                raise ValueError('scale < 0')
            if not isinstance(s, Sym) and s == 0:
                return m
            if not isinstance(s, Sym) and not isinstance(m, Sym) and s == 1 and m == 0:
                return self._free('nrm')
            if not isinstance(s, Sym):
                return m + s * self._free('nrm')
            if bool(S.eq_(s, 0)):
                return m
            return self._free('nrm')
        return self._each(f, size, loc, scale)

    def standard_normal(self, size=None, **k):
        return self._each(lambda: self._free('nrm'), size)

    def randn(self, *s):
        return self.standard_normal(s or None)

    def standard_cauchy(self, size=None):
        return self._each(lambda: self._free('cau'), size)

    def standard_t(self, df, size=None):
        return self._each(lambda d: self._free('stt'), size, df)

    def laplace(self, loc=0.0, scale=1.0, size=None):
        return self._each(lambda a, b: self._free('lap'), size, loc, scale)

    gumbel = logistic = laplace

    def exponential(self, scale=1.0, size=None):
        return self._each(lambda s: self._free('exp', 0.0), size, scale)

    def gamma(self, shape, scale=1.0, size=None):
        return self._each(lambda a, s: self._free('gam', 0.0), size, shape, scale)

    def rayleigh(self, scale=1.0, size=None):
        return self._each(lambda s: self._free('ray', 0.0), size, scale)

    def weibull(self, a, size=None):
        return self._each(lambda s: self._free('wei', 0.0), size, a)

    def pareto(self, a, size=None):
        return self._each(lambda s: self._free('par', 0.0), size, a)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return self._each(lambda a, s: self._free('lgn', 0.0), size, mean, sigma)

    def beta(self, a, b, size=None):
        return self._each(lambda x, y: self._u(), size, a, b)

    def triangular(self, left, mode, right, size=None):
        return self._each(lambda a, m, b: self.env.draw_real(self._name('tri'), a, b), size, left, mode, right)

    # -- discrete ----------------------------------------------------------------
    def _int(self, lo, hi):
        """lo <= v < hi"""
        if isinstance(lo, (float, np.floating)):
            lo = int(lo)
        if isinstance(hi, (float, np.floating)):
            hi = int(hi)
        if isinstance(lo, Sym) and lo.sort != 'I':
            lo = S.trunc_(lo)
        if isinstance(hi, Sym) and hi.sort != 'I':
            hi = S.trunc_(hi)
        if bool(S.le_(hi, lo)):
            raise ValueError('low >= high')
        if not isinstance(lo, Sym) and not isinstance(hi, Sym) and hi - lo == 1:
            return int(lo)
        return self.env.draw_int(self._name('int'), lo, hi)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low

        def f(a, b):
            return self._int(a, S.add_(b, 1) if endpoint else b)
        return self._each(f, size, low, high, kind='i')

    randint = integers

    def binomial(self, n, p, size=None):
        return self._each(lambda a, b: self._int(0, a + 1), size, n, p, kind='i')

    def poisson(self, lam=1.0, size=None):
        return self._each(lambda a: self._int(0, 4), size, lam, kind='i')

    def _perm(self, n, m=None):
        """m distinct indices below n"""
        m = n if m is None else m
        out = []
        for i in range(m):
            if n == 1:
                out.append(0)
                continue
            if m == n and i == n - 1 and not self.env.symbolic:
                pass
            v = self.env.draw_int(self._name('perm'), 0, n, distinct=out)
            out.append(v)
        return out

    def permutation(self, x, axis=0):
        if isinstance(x, Sym):
            x = x.__index__()
        if isinstance(x, (int, np.integer)):
            return self._arr(self._perm(int(x)), (int(x),), 'i')
        a = self.env.asarr(x)
        p = [v.__index__() for v in self._perm(a.shape[axis])]
        return np.take(a, p, axis) if axis else a[p]

    def shuffle(self, x, axis=0):
        n = len(x)
        p = [v.__index__() for v in self._perm(n)]
        if isinstance(x, list):
            x[:] = [x[i] for i in p]
        else:
            x[...] = x[p].copy()

    def permuted(self, x, axis=None, out=None):
        if axis not in (None, 0) or np.ndim(x) > 1:
            raise S.Unsupported('permuted')
        return self.permutation(x)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if isinstance(a, Sym):
            a = a.__index__()
        pop = None
        if isinstance(a, (int, np.integer)):
            n = int(a)
            if n <= 0 and (size is None or size != 0):
                raise ValueError('a must be a positive integer unless no samples are taken')
        else:
            pop = a if isinstance(a, np.ndarray) else self.env.asarr(a)
            n = pop.shape[axis]
            if n == 0:
                raise ValueError('a cannot be empty unless no samples are taken')
        shape = self._shape(size)
        m = int(np.prod(shape)) if shape else 1
        pl = None
        if p is not None:
            pl = list(np.asarray(p, dtype=object).ravel())
            if len(pl) != n:
                raise ValueError('a and p must have same size')
            for q in pl:
                if S.isnan(q) or S.isinf(q):
                    raise ValueError('probabilities contain NaN')
                if bool(S.lt_(q, 0)):
                    raise ValueError('probabilities are not non-negative')
            tot = 0.0
            for q in pl:
                tot = S.add_(tot, q)
            if not normalised(pl) and bool(S.lt_(1e-6, S.abs_(S.sub_(tot, 1.0)))):
                raise ValueError('probabilities do not sum to 1')
            if not replace and m <= n:
                pos = 0
                for q in pl:
                    pos = S.add_(pos, S.ite(S.lt_(0, q), 1, 0))
                if bool(S.lt_(pos, m)):
                    raise ValueError('Fewer non-zero entries in p than size')
        if not replace and m > n:
            raise ValueError('Cannot take a larger sample than population when replace is False')
        ids = []
        zero = [i for i, q in enumerate(pl) if not isinstance(q, Sym) and not q > 0] if pl is not None else []
        for _ in range(m):
            if n == 1:
                v = 0
            else:
                v = self.env.draw_int(self._name('cho'), 0, n, distinct=(zero if replace else zero + ids) or None)
                if pl is not None and any(isinstance(q, Sym) for q in pl):
                    g = getattr(getattr(self.env, 'ctx', None), 'guide', None)
                    if g is not None and isinstance(v, Sym) and v.args[0] in g.vals and not g.ev(pl[int(g.vals[v.args[0]])]) > 0:
                        ok = [i for i, q in enumerate(pl) if g.ev(q) > 0 and (replace or i not in [int(g.ev(d)) for d in ids])]
                        if ok:
                            g.vals[v.args[0]] = ok[0]
                            g.memo.pop(v.id, None)
                    self.env.assume(S.disj([S.and_(S.eq_(v, i), S.lt_(0, q)) for i, q in enumerate(pl)]))
            ids.append(v)
        if pop is None:
            return self.env.scalar(ids[0], 'i') if shape == () else self._arr(ids, shape, 'i')
        if axis != 0:
            raise S.Unsupported('choice axis')
        if shape == ():
            return pop[ids[0]]
        return pop[self._arr(ids, shape, 'i')]

    # legacy global-state helpers
    def seed(self, *a, **k):
        return None

    def get_state(self, *a, **k):
        return None

    def set_state(self, *a, **k):
        return None

    def spawn(self, n):
        return [self.env.new_rng('%s.s%d_%d' % (self.tag, self.k, i)) for i in range(n)]

    def bytes(self, n):
        raise S.Unsupported('rng.bytes')


def normalised(pl):
    """p_i = x_i / (x_1 + ... + x_n), recognised by shape (numpy sums in order)"""
    if not all(isinstance(q, Sym) and q.op == 'div' for q in pl) or len({q.args[1].id for q in pl}) != 1:
        return False
    t = 0.0
    for q in pl:
        t = S.add_(t, q.args[0])
    d = S.sub_(t, pl[0].args[1])
    return (not isinstance(d, Sym) and d == 0) or (isinstance(t, Sym) and t.id == pl[0].args[1].id)


class TapeGenerator(Rng, np.random.Generator):
    """Rng that real numpy accepts as a Generator (replay only)."""
    def __new__(cls, env, tag):
        return np.random.Generator.__new__(cls, np.random.PCG64(0))

    def __init__(self, env, tag):
        np.random.Generator.__init__(self, np.random.PCG64(0))
        self.env, self.tag, self.k = env, tag, 0
