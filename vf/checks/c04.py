"""C04 repair functions"""
import numpy as np

from ..sym import Sym

FUNCTIONS = ['niapy.util.repair.limit', 'niapy.util.repair.limit_inverse', 'niapy.util.repair.wang', 'niapy.util.repair.rand', 'niapy.util.repair.reflect',
             'niapy.task.Task.repair', 'niapy.task.Task.is_feasible']
BOUNDS = 'over the reals: dimension 1..3; symbolic coordinates within +-1000; symbolic bounds within +-100 and a set of concrete ones; coordinates whose bounds coincide included; through the function and through Task.repair. In IEEE-754 double precision (z3 floating point, rounding to nearest): one coordinate, bounds and point in the ranges of FP, |x| up to twice the width for the remainder'
OUTSIDE = 'rounding in more than one coordinate and outside the double precision ranges; infinite or NaN coordinates'

FN = ['limit', 'limit_inverse', 'wang', 'rand', 'reflect']
BB = [([-3.0, 1.0, -10.0], [2.0, 4.0, -5.0]), ([0.0, -1.0, 3.0], [1.0, 1.0, 10.0]), ([-7.5, 2.0, 0.0], [-0.5, 2.25, 0.125])]


def scenarios(tier):
    out = []
    for f in FN:
        for d in (1, 2, 3):
            for b in ('sym', 0, 1, 2):
                out.append(dict(name='%s-%s-D%d' % (f, 'symbounds' if b == 'sym' else 'b%d' % b, d), fn=f, D=d, b=b, tl=15 if tier == 'quick' else 120, via=(d + (b if b != 'sym' else 0)) % 2))
        for d in (1, 2, 3):
            out.append(dict(name='%s-equal-D%d' % (f, d), fn=f, D=d, b='sym', equal=d // 2, tl=15 if tier == 'quick' else 120, via=d % 2))
            if tier != 'quick':
                out.append(dict(name='%s-huge-D%d' % (f, d), fn=f, D=d, b='sym', big=1e6, tl=120, via=d % 2))
    for f in FN:
        for r in ((('tiny', 'zero') if f == 'reflect' else ('unit', 'near', 'tiny', 'zero')) if tier == 'quick' else ('unit', 'near', 'tiny', 'zero', 'wide', 'all')):
            out.append(dict(name='%s-double-%s' % (f, r), fn=f, D=1, b='sym', range=r, tl=120 if tier == 'quick' else 600, via=0))
    out.append(dict(name='feasible-D1', fn='feasible', D=1, b='sym', tl=15, via=1))
    out.append(dict(name='feasible-equal', fn='feasible', D=2, b='sym', equal=1, tl=15, via=1))
    out.append(dict(name='feasible-D2', fn='feasible', D=2, b='sym', tl=15, via=1))
    out.append(dict(name='feasible-D3', fn='feasible', D=3, b='sym', tl=15, via=1))
    return out


FP = {'unit': ((0.25, 8.0), (-8.0, 8.0)), 'near': ((1.0, 2.0), (-2.0, 3.0)), 'tiny': ((0.25, 8.0), (-1e-19, 0.0)), 'zero': ((-8.0, -1.0), (0.0, 1e-19)),
      'wide': ((-1e6, 1e6), (-1e9, 1e9)), 'all': ((-1.7e308, 1.7e308), (-1.7e308, 1.7e308))}


def h_fp(env, sc):
    """in IEEE-754 double arithmetic: the same guarantees to the last bit"""
    (bl, bu), (xl, xu) = FP[sc['range']]
    P = 'C04: in double precision: '
    if env.symbolic:
        import time
        import z3
        from .. import fp, load
        src = load.SRC + '/niapy/util/repair.py'
        ns = {'__name__': 'niapy.util.repair_fp', '__package__': 'niapy.util'}
        exec(compile(open(src).read(), src, 'exec'), ns)
        if 'default_rng' in ns:
            ns['default_rng'] = lambda seed=None: seed

        def go(run):
            lo, up, x = run.var('in!lo.0', bl, bu), run.var('in!up.0', bl, bu), run.var('in!x.0', xl, xu)
            run.pc.append(z3.fpLEQ(lo.e, up.e))
            col = lambda v: np.array([v, None], dtype=object)[:1]
            r = ns[sc['fn']](col(x), col(lo), col(up), rng=fp.Rng())
            r = fp.val(r[0])
            run.check(z3.fpLEQ(lo.e, r), P + 'not below the lower bound')
            run.check(z3.fpLEQ(r, up.e), P + 'not above the upper bound')
            run.check(z3.Or(z3.fpLT(x.e, lo.e), z3.fpGT(x.e, up.e), z3.fpEQ(r, x.e)), P + 'a coordinate inside its bounds is untouched')
        ex = env.ctx.ex
        run = fp.Run(time.time() + sc['tl'] - 5, sc['tl'] * 0.7, ex.stat)
        try:
            run.explore(go)
        except (TypeError, AttributeError, ValueError, NotImplementedError) as e:
            from ..sym import Unsupported
            raise Unsupported('double precision: %s' % e)
        for label in run.inconclusive:
            ex.inconc[label] += 1
            ex.stat['inconclusive'] += 1
        if run.open:
            ex.stat['truncated'] += 1
        ex.stat['checks'] += run.stat_checks
        ex.stat['solver_s'] += run.ms / 1000
        env.reach(P + 'not below the lower bound')
        for label, vals in run.bad:
            ex.candidate({'label': label, 'vars': vals, 'F': []})
        return
    import niapy.util.repair as rp
    lo, up, x0 = env.vec('lo', 1, bl, bu), env.vec('up', 1, bl, bu), env.vec('x', 1, xl, xu)
    env.assume(lo[0] <= up[0])
    r = getattr(rp, sc['fn'])(x0.copy(), lo.copy(), up.copy(), rng=env.new_rng('rng'))
    env.check(lo[0] <= r[0], P + 'not below the lower bound')
    env.check(r[0] <= up[0], P + 'not above the upper bound')
    if lo[0] <= x0[0] <= up[0]:
        env.check(r[0] == x0[0], P + 'a coordinate inside its bounds is untouched')


def harness(env, sc):
    if 'range' in sc:
        return h_fp(env, sc)
    import niapy.util.repair as rp
    from niapy.problems import Problem
    from niapy.task import Task
    D = sc['D']
    P = 'C04: '
    if sc['b'] == 'sym':
        B = sc.get('big', 100)
        lo, up = env.vec('lo', D, -B, B), env.vec('up', D, -B, B)
        if 'equal' in sc:
            up[sc['equal']] = lo[sc['equal']]
        for i in range(D):
            if i != sc.get('equal'):
                env.assume(lo[i] + 1e-3 <= up[i])
    else:
        lo, up = env.array(BB[sc['b']][0][:D]), env.array(BB[sc['b']][1][:D])
    x0 = env.vec('x', D, -10 * max(100, sc.get('big', 100)), 10 * max(100, sc.get('big', 100)))
    x = x0.copy()
    rng = env.new_rng('rng')
    env.uniforms = []
    task = None
    if sc['via']:
        class Pr(Problem):
            def _evaluate(self, x):
                return 0.0
        fn = getattr(rp, sc['fn'], None) or rp.limit
        task = Task(problem=Pr(D, lo.copy(), up.copy()), repair_function=fn)
    if sc['fn'] == 'feasible':
        got = task.is_feasible(x)
        ins = True
        for i in range(D):
            ins = ins & (lo[i] <= x0[i]) & (x0[i] <= up[i])
        env.check((got == ins) if env.symbolic else bool(got) == bool(ins), P + 'a point is feasible exactly when it is inside the bounds')
        return
    lo0, up0 = lo.copy(), up.copy()
    r = task.repair(x, rng=rng) if task is not None else getattr(rp, sc['fn'])(x, lo, up, rng=rng)
    env.check(isinstance(r, np.ndarray) and r.shape == (D,), P + 'the repaired point keeps its shape')
    if not (isinstance(r, np.ndarray) and r.shape == (D,)):
        return
    env.check(env.isfinite(r), P + 'the repaired point is finite')
    env.le(lo0, r, P + 'not below the lower bound')
    env.le(r, up0, P + 'not above the upper bound')
    for i in range(D):
        inside = (lo0[i] <= x0[i]) & (x0[i] <= up0[i])
        if inside:
            env.eq(r[i], x0[i], P + 'a coordinate inside its bounds is untouched')
        else:
            rule(env, sc['fn'], P, r[i], x0[i], lo0[i], up0[i], i == sc.get('equal'))
    env.eq(lo, lo0, P + 'the bounds are untouched')
    env.eq(up, up0, P + 'the bounds are untouched')
    env.trace(r)


def rule(env, fn, P, r, x, lo, up, equal):
    """what the function does with a coordinate outside its bounds"""
    below = bool(x < lo)
    if equal:
        env.eq(r, lo, P + 'the only point between equal bounds')
    elif fn == 'limit':
        env.eq(r, lo if below else up, P + 'limit clips to the bound that was crossed')
    elif fn == 'limit_inverse':
        env.eq(r, up if below else lo, P + 'limit_inverse goes to the opposite bound')
    elif fn == 'wang':
        m = 2 * lo - x if below else 2 * up - x
        far = bool(m > up) if below else bool(m < lo)
        env.eq(r, (up if below else lo) if far else m, P + 'wang mirrors at the bound, up to the opposite bound')
    elif fn == 'reflect':
        # the coordinate modulo the range, counted from the lower bound (with symbolic bounds a quotient of unknowns: left to the concrete ones)
        if isinstance(lo, Sym) or isinstance(up, Sym):
            return
        env.eq(r, lo + x % (up - lo), P + 'reflect counts the violation modulo the range')
    else:
        for v, a, b in env.uniforms:
            env.assume(a < v)
        env.check((lo < r) & (r < up), P + 'rand takes a random point between the bounds')
