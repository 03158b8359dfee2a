"""C14 problems: evaluation is pure and total, the dimension is checked, bounds are expanded, problems are built by name"""
import numpy as np

from .. import sym as S
from ..alg import Missing
from .c13 import SPEC

FUNCTIONS = ['niapy.problems.Problem.__init__, evaluate, __call__, name', 'niapy.problems.*: constructor and evaluation of every benchmark problem',
             'niapy.util.factory.get_problem', 'niapy.util.array.full_array', 'niapy.task.Task.__init__']
BOUNDS = 'dimension 1..4 (Powell 4 and 8, Schaffer 2); every point within the default bounds; every wrong dimension from 0 to 6; symbolic scalar, list, tuple and array bounds (zero included), one bound only by name'
OUTSIDE = 'larger dimensions; points outside the default bounds; overflow of floating point numbers'

NAMES = dict(ackley='Ackley', alpine1='Alpine1', alpine2='Alpine2', bent_cigar='BentCigar', chung_reynolds='ChungReynolds', cosine_mixture='CosineMixture', csendes='Csendes',
             discus='Discus', dixon_price='DixonPrice', elliptic='Elliptic', conditioned_elliptic='Elliptic', expanded_griewank_plus_rosenbrock='ExpandedGriewankPlusRosenbrock',
             expanded_schaffer='ExpandedSchaffer', griewank='Griewank', happy_cat='HappyCat', hgbat='HGBat', katsuura='Katsuura', levy='Levy', michalewicz='Michalewicz',
             modified_schwefel='ModifiedSchwefel', perm='Perm', pinter='Pinter', powell='Powell', qing='Qing', quintic='Quintic', rastrigin='Rastrigin', ridge='Ridge',
             rosenbrock='Rosenbrock', salomon='Salomon', schaffer2='SchafferN2', schaffer4='SchafferN4', schumer_steiglitz='SchumerSteiglitz', schwefel='Schwefel',
             schwefel221='Schwefel221', schwefel222='Schwefel222', sphere='Sphere', sphere2='Sphere2', sphere3='Sphere3', step='Step', step2='Step2', step3='Step3',
             stepint='Stepint', styblinski_tang='StyblinskiTang', sum_squares='SumSquares', trid='Trid', weierstrass='Weierstrass', whitley='Whitley', zakharov='Zakharov')
# constructor parameters besides dimension and bounds
FIXED = dict(Trid=lambda D: D * D, Perm=lambda D: D)   # take no bounds: their domain follows from the dimension
PARAMS = dict(Ackley=('a', 'b', 'c'), HappyCat=('alpha',), Michalewicz=('m',), Perm=('beta',), Weierstrass=('a', 'b', 'k_max'))


def scenarios(tier):
    out = []
    tl = 8 if tier == 'quick' else 60
    for n, s in SPEC.items():
        dims = s[1] if n in ('Powell',) or n.startswith('SchafferN') else (s[1][:3] if tier == 'quick' else s[1])
        for D in dims:
            out.append(dict(name='pure-%s-D%d' % (n, D), part='pure', p=n, D=D))
        out.append(dict(name='dim-%s' % n, part='dim', p=n, D=dims[-1]))
        for k in ('scalar', 'list', 'array', 'short', 'mixed') if n not in FIXED else ('fixed',):
            out.append(dict(name='bounds-%s-%s' % (n, k), part='bounds', p=n, D=dims[-1], kind=k))
    for n in NAMES:
        out.append(dict(name='factory-%s' % n, part='factory', p=n))
    for d in (1, 2, 3):
        out.append(dict(name='user-D%d' % d, part='user', D=d))
    for sc in out:
        sc.setdefault('tl', tl)
    return out


def build(n, D, **kw):
    import niapy.problems as pb
    if not hasattr(pb, n):
        raise Missing(n)
    if not n.startswith('SchafferN'):
        kw['dimension'] = D
    return getattr(pb, n)(**kw)


def snap(p):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(p).items()}


def unchanged(env, p, s, P):
    """what a user can read off the problem (a private cache may come and go)"""
    for k, v in s.items():
        if k.startswith('_'):
            continue
        w = vars(p).get(k)
        if isinstance(v, np.ndarray):
            env.check(isinstance(w, np.ndarray) and w.shape == v.shape, P + 'evaluation leaves the problem as it was')
            env.eq(w, v, P + 'evaluation leaves the problem as it was')
        else:
            env.check(w is v or bool(w == v), P + 'evaluation leaves the problem as it was')


def h_pure(env, sc):
    P = 'C14: '
    D = sc['D']
    p = build(sc['p'], D)
    lo, up = [float(v) for v in p.lower], [float(v) for v in p.upper]
    if sc['p'] == 'Katsuura':
        def pt(t):
            x = [env.int('%s%d' % (t, i), int(lo[i]) * 8, int(up[i]) * 8) * 0.125 for i in range(D)]
            return env.mkarray(x, (D,), 'f') if env.symbolic else np.array(x)
    else:
        def pt(t): return env.vec(t, D, lo, up)
    x = pt('x')
    x0 = x.copy()
    s = snap(p)
    v = p.evaluate(x)
    env.check(np.ndim(v) == 0 and not isinstance(v, (list, tuple)) and v is not None, P + 'the value is a scalar')
    env.check(env.isfinite(v), P + 'the value is finite inside the domain')
    env.eq(x, x0, P + 'the point is not changed')
    y = pt('y') if sc['p'] not in ('Katsuura', 'Csendes', 'ModifiedSchwefel', 'Schwefel221', 'Alpine2') else p.upper.copy()
    w = p.evaluate(y)
    unchanged(env, p, s, P)
    env.eq(p(x0.copy()), v, P + 'the same point has the same value')
    q = build(sc['p'], D)
    env.eq(q.evaluate(x0.copy()), v, P + 'the same point has the same value in another instance')
    q.evaluate(x)
    x[:] = y   # the caller moves the point it holds
    env.eq(q.evaluate(x), w, P + 'the value belongs to the contents of the point')
    env.trace(x)


def h_dim(env, sc):
    P = 'C14: '
    D = sc['D']
    p = build(sc['p'], D)
    d = p.dimension
    n = env.int('n', 0, 9)
    if n == d:
        env.reach(P + 'right dimension')
        return
    x = env.array([1.0] * int(n))
    for f in (p.evaluate, p):
        try:
            f(x)
        except ValueError:
            env.reach(P + 'a point of the wrong dimension is rejected')
        except Exception:
            env.check(False, P + 'a point of the wrong dimension is rejected')
        else:
            env.check(False, P + 'a point of the wrong dimension is rejected')


def bound(env, tag, kind, D, side):
    """(argument, expected bounds)"""
    if kind == 'scalar':
        v = env.real(tag, *side)
        return v, [v] * D
    n = {'list': D, 'array': D, 'short': max(1, D - 1), 'mixed': D + 1}[kind]
    v = env.vec(tag, n, *side)
    arg = list(v) if kind == 'list' else tuple(v) if kind == 'short' else v
    return arg, [v[i % n] for i in range(D)]


def h_bounds(env, sc):
    P = 'C14: '
    D = sc['D']
    kw, b = {}, {}
    if sc['p'] in FIXED:
        eup = [float(FIXED[sc['p']](D))] * D
        elo = [-v for v in eup]
    else:
        lo, elo = bound(env, 'lo', sc['kind'], D, (-100, 0))
        up, eup = bound(env, 'up', sc['kind'], D, (0, 100))
        b = dict(lower=lo, upper=up)
    for i, k in enumerate(PARAMS.get(sc['p'], ())):
        kw[k] = env.int(k, 1, 3) if k in ('m', 'k_max') else env.real(k, 0.5, 3)
    try:
        p = build(sc['p'], D, **b, **kw)
    except (TypeError, ValueError, KeyError, IndexError, AttributeError):
        env.check(False, P + 'a problem can be built with bounds and parameters')
        return
    env.check(p.dimension == D, P + 'the problem has the dimension asked for')
    for got, want in ((p.lower, elo), (p.upper, eup)):
        env.check(isinstance(got, np.ndarray) and got.shape == (D,), P + 'bounds are arrays of the dimension')
        if isinstance(got, np.ndarray) and got.shape == (D,):
            for i in range(D):
                env.eq(got[i], want[i], P + 'the bounds are those asked for')
    for k, v in kw.items():
        env.eq(vars(p).get(k, np.nan), v, P + 'the parameters are those asked for')
    env.check(p.name() == sc['p'], P + 'the name of a problem is the name of its class')


def h_factory(env, sc):
    P = 'C14: '
    from niapy.util.factory import get_problem
    from niapy.task import Task
    n = sc['p']
    cls = NAMES[n]
    D = 2 if cls.startswith('SchafferN') else int(env.pick('D', [4, 8] if cls == 'Powell' else [2, 3, 5]))
    if cls in FIXED:
        up = float(FIXED[cls](D))
        lo, kw = -up, {}
    else:
        lo, up = env.real('lo', -100, 0), env.real('up', 0, 100)
        kw = dict(lower=lo, upper=up)
        which = env.pick('which', ['both', 'lower', 'upper'])
        if which != 'both':
            # the bound not asked for is the default one
            import niapy.problems as pb
            dflt = vars(getattr(pb, cls)(**({} if cls.startswith('SchafferN') else dict(dimension=D))))
            if which == 'lower':
                up = float(dflt['upper'][0])
                del kw['upper']
            else:
                lo = float(dflt['lower'][0])
                del kw['lower']
    tk = dict(kw)
    if not cls.startswith('SchafferN'):
        kw['dimension'] = tk['dimension'] = D
    for k in PARAMS.get(cls, ()):
        kw[k] = env.int(k, 1, 3) if k in ('m', 'k_max') else env.real(k, 0.5, 3)
    nm = [n, n.upper(), n.title()][int(env.pick('case', [0, 1, 2]))]
    try:
        p = get_problem(nm, **kw)
        q = Task(problem=nm, **tk)
    except (TypeError, ValueError, KeyError, IndexError, AttributeError):
        env.check(False, P + 'a problem can be built by its name')
        return
    for o, pp in ((p, p), (q, q.problem)):
        env.check(type(pp).__name__ == cls, P + 'a problem built by name has the class of that name')
        env.check(o.dimension == D, P + 'a problem built by name has the dimension asked for')
        for got, want in ((o.lower, lo), (o.upper, up)):
            env.check(isinstance(got, np.ndarray) and got.shape == (D,), P + 'a problem built by name has the bounds asked for')
            if isinstance(got, np.ndarray) and got.shape == (D,):
                for i in range(D):
                    env.eq(got[i], want, P + 'a problem built by name has the bounds asked for')
    for i in range(D):
        env.eq(q.range[i], up - lo, P + 'the range of a task is the difference of the bounds')
    for k, v in kw.items():
        if k not in ('lower', 'upper', 'dimension'):
            env.eq(vars(p).get(k, np.nan), v, P + 'a problem built by name has the parameters asked for')
    try:
        get_problem(n + '_')
    except KeyError:
        env.reach(P + 'an unknown name is an error')
    else:
        env.check(False, P + 'an unknown name is an error')


def h_user(env, sc):
    """a problem class of the user"""
    P = 'C14: '
    from niapy.problems import Problem
    from niapy.task import Task
    D = sc['D']
    seen = []

    class Mine(Problem):
        def _evaluate(self, x):
            seen.append(x)
            return env.F(x)
    lo, up = env.vec('lo', D, -100, -1), env.vec('up', D, 1, 100)
    p = Mine(D, lo.copy(), up.copy())
    env.eq(p.lower, lo, P + 'the bounds are those asked for')
    env.eq(p.upper, up, P + 'the bounds are those asked for')
    env.check(p.name() == 'Mine', P + 'the name of a problem is the name of its class')
    x = env.vec('x', D, -100, 100)
    for f in (p.evaluate, p):
        env.eq(f(x), env.F(x), P + 'the value is that of the evaluation the class defines')
    env.check(len(seen) == 2, P + 'one evaluation per call')
    t = Task(problem=p, max_evals=5)
    env.check(t.problem is p and t.dimension == D, P + 'a task uses the problem it is given')
    env.eq(t.lower, lo, P + 'a task has the bounds of its problem')
    env.eq(t.upper, up, P + 'a task has the bounds of its problem')
    try:
        Task(problem=env.F)
    except TypeError:
        env.reach(P + 'something that is no problem is an error')
    else:
        env.check(False, P + 'something that is no problem is an error')
    n = int(env.int('n', 1, 5))
    if n != D:
        del seen[:]
        try:
            p.evaluate(env.vec('w', n, -1, 1))
        except ValueError:
            env.reach(P + 'a point of the wrong dimension is rejected')
        else:
            env.check(False, P + 'a point of the wrong dimension is rejected')
        env.check(len(seen) == 0, P + 'a point of the wrong dimension is not evaluated')


PARTS = dict(pure=h_pure, dim=h_dim, bounds=h_bounds, factory=h_factory, user=h_user)


def harness(env, sc):
    PARTS[sc['part']](env, sc)
