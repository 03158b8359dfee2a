"""C15 shared helpers: Algorithm.get_best, Individual, Algorithm.integers, full_array, objects_to_array, euclidean, levy_flight"""
import numpy as np

from .. import sym as S
from ..sym import Sym

FUNCTIONS = ['niapy.algorithms.algorithm.Algorithm.get_best', 'niapy.algorithms.algorithm.Algorithm.integers, random, uniform, normal, standard_normal',
             'niapy.algorithms.algorithm.Individual (and every subclass): __init__, copy, __eq__, __getitem__, __setitem__, __len__, evaluate, generate_solution',
             'niapy.algorithms.algorithm.default_numpy_init, default_individual_init',
             'niapy.util.array.full_array, objects_to_array', 'niapy.util.distances.euclidean', 'niapy.util.random.levy_flight']
BOUNDS = 'populations of 1..4 members of dimension 1..3, arrays of length 1..4 expanded to dimension 1..6, integers in ranges of up to 5 with up to 3 exclusions and up to 4 rejected draws; all numeric values symbolic within +-100'
OUTSIDE = 'larger sizes; NaN values; the distribution of the random numbers'


def scenarios(tier):
    out = []
    tl = 20 if tier == 'quick' else 120
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for kind in ('array', 'ind'):
            for cur in (0, 1):
                out.append(dict(name='best-%s-n%d-%s' % (kind, n, 'cur' if cur else 'none'), part='best', n=n, kind=kind, cur=cur, D=2 if n < 3 else 1, lst=n == 2))
    for kind in ('array', 'ind'):
        for cur in (0, 1):
            out.append(dict(name='best-one-%s-%s' % (kind, 'cur' if cur else 'none'), part='bestone', kind=kind, cur=cur, D=2))
    for d in (1, 2, 3):
        out.append(dict(name='copy-D%d' % d, part='copy', D=d))
        out.append(dict(name='eq-D%d' % d, part='eq', D=d))
        out.append(dict(name='item-D%d' % d, part='item', D=d))
        for k in range(12):
            out.append(dict(name='new%d-D%d' % (k, d), part='new', D=d, k=k))
    for lo, hi, sk in ((0, 3, [0]), (0, 4, [1, 2]), (2, 5, [2, 4]), (3, None, [0, 2]), (4, None, None), (1, 3, None), (0, 5, [0, 3, 4])):
        out.append(dict(name='int-%s-%s-%s' % (lo, hi, '_'.join(map(str, sk)) if sk else 'none'), part='int', lo=lo, hi=hi, skip=sk))
    out.append(dict(name='int-sym', part='int', lo=0, hi=4, skip='sym'))
    out.append(dict(name='int-array', part='int', lo=0, hi=4, skip='array'))
    for d in (1, 2, 3, 4, 5, 6):
        for n in (0, 1, 2, 3, 4):
            for k in (['scalar', 'int'] if n == 0 else ['list', 'tuple', 'array']):
                out.append(dict(name='full-%s%d-D%d' % (k, n, d), part='full', n=n, kind=k, D=d))
    for n in (0, 1, 3):
        out.append(dict(name='objects-%d' % n, part='objects', n=n))
    for d in (1, 2, 3, 4):
        out.append(dict(name='euclid-D%d' % d, part='euclid', D=d, n=0))
    out.append(dict(name='euclid-matrix', part='euclid', D=2, n=2))
    out.append(dict(name='euclid-matrix3', part='euclid', D=3, n=2))
    for sz in (None, 2, (2, 2)):
        out.append(dict(name='levy-%s' % (sz if not isinstance(sz, tuple) else 'x'.join(map(str, sz))), part='levy', size=sz))
    for k in ('numpy', 'individual'):
        for n in (1, 3):
            out.append(dict(name='init-%s-%d' % (k, n), part='init', kind=k, n=n, D=2))
    for sc in out:
        sc.setdefault('tl', tl)
    return out


def pop_of(env, kind, n, D, tag='p'):
    from niapy.algorithms.algorithm import Individual
    xs = [env.vec('%s%d' % (tag, i), D, -100, 100) for i in range(n)]
    fs = [env.real('%sf%d' % (tag, i), -100, 100) for i in range(n)]
    if kind == 'array':
        p = np.empty((n, D), dtype=object)
        p = env.array([[x[j] for j in range(D)] for x in xs])
        return p, xs, fs
    from niapy.util.array import objects_to_array
    inds = []
    for x, f in zip(xs, fs):
        i = Individual(x=x.copy(), e=False)
        i.f = f
        inds.append(i)
    return objects_to_array(inds), xs, fs


def allof(cs):
    r = True
    for c in cs:
        r = S.and_(r, c) if isinstance(r, Sym) or isinstance(c, Sym) else (r and bool(c))
    return r


def anyof(cs):
    r = False
    for c in cs:
        r = S.or_(r, c) if isinstance(r, Sym) or isinstance(c, Sym) else (r or bool(c))
    return r


def veq(a, b):
    return allof([a[i] == b[i] for i in range(len(b))])


def h_best(env, sc):
    from niapy.algorithms.algorithm import Algorithm
    P = 'C15: get_best: '
    D = sc['D']
    one = sc['part'] == 'bestone'
    n = 1 if one else sc['n']
    pop, xs, fs = pop_of(env, sc['kind'], n, D)
    cands = [(f, x) for f, x in zip(fs, xs)]
    kw = {}
    if sc['cur']:
        bx, bf = env.vec('b', D, -100, 100), env.real('bf', -100, 100)
        kw = dict(best_x=bx, best_fitness=bf)
        cands.append((bf, bx.copy()))
    fit = env.array(fs)
    if sc.get('lst'):
        fit = list(fs)
    if one:
        pop = pop[0]
        fit = fs[0]
    r = Algorithm.get_best(pop, fit, **kw)
    env.check(isinstance(r, tuple) and len(r) == 2, P + 'a pair is returned')
    x, f = r
    env.check(isinstance(x, np.ndarray) and x.shape == (D,), P + 'the best solution is a vector')
    if not (isinstance(x, np.ndarray) and x.shape == (D,)):
        return
    env.trace(x)
    lo = cands[0][0]
    for c, _ in cands[1:]:
        lo = S.min_(lo, c) if env.symbolic else min(lo, c)
    env.eq(f, lo, P + 'the smallest fitness is returned')
    env.check(anyof([allof([c == f, veq(x, v)]) for c, v in cands]), P + 'the returned solution has the returned fitness')
    for j in range(D):
        x[j] = x[j] + 1000.0
    p2 = [pop] if one else pop
    for i in range(n):
        env.eq(p2[i].x if sc['kind'] == 'ind' else p2[i], xs[i], P + 'the best solution is a copy')
    if sc['cur']:
        env.eq(bx, cands[-1][1], P + 'the current best is not changed')


def subclasses():
    from niapy.algorithms.algorithm import Individual
    out, st = [], [Individual]
    while st:
        c = st.pop()
        if c not in out and c.__module__.startswith('niapy'):
            out.append(c)
            st += c.__subclasses__()
    return out


def make(cls, x, f):
    kw = {'weight': 1.0} if cls.__name__ == 'Fish' else {}
    i = cls(x=x, e=False, **kw)
    i.f = f
    return i


def h_copy(env, sc):
    P = 'C15: Individual.copy: '
    for k, cls in enumerate(subclasses()):
        x, f = env.vec('x%d' % k, sc['D'], -100, 100), env.real('f%d' % k, -100, 100)
        x0 = x.copy()
        a = make(cls, x, f)
        b = a.copy()
        env.trace(b.x)
        env.eq(b.x, x0, P + 'the copy has the same solution')
        env.eq(b.f, f, P + 'the copy has the same fitness')
        b.x[0] = b.x[0] + 1.0
        b.f = f + 1.0
        env.eq(a.x, x0, P + 'changing the copy leaves the original')
        env.eq(a.f, f, P + 'changing the copy leaves the original')
        c = a.copy()
        a.x[sc['D'] - 1] = a.x[sc['D'] - 1] + 1.0
        env.eq(c.x, x0, P + 'changing the original leaves the copy')
        env.check(len(a) == sc['D'], 'C15: Individual: the length is the dimension')


def h_eq(env, sc):
    P = 'C15: Individual.__eq__: '
    from niapy.algorithms.algorithm import Individual
    from niapy.util.array import objects_to_array
    D = sc['D']
    x, y, f, g = env.vec('x', D, -100, 100), env.vec('y', D, -100, 100), env.real('f', -100, 100), env.real('g', -100, 100)
    a, b = make(Individual, x, f), make(Individual, y, g)
    want = allof([veq(x, y), f == g])
    got = bool(a == b)
    env.check(want if got else S.not_(S.truth(want)) if isinstance(want, Sym) else not want, P + 'individuals are equal exactly when solution and fitness are')
    got = bool(a != b)
    env.check(want if not got else S.not_(S.truth(want)) if isinstance(want, Sym) else not want, P + 'individuals differ exactly when solution or fitness do')
    z = env.vec('z', D, -100, 100)
    h = env.real('h', -100, 100)
    arr = objects_to_array([b, make(Individual, z, h)])
    w2 = anyof([want, allof([veq(x, z), f == h])])
    got = bool(a == arr)
    env.check(w2 if got else S.not_(S.truth(w2)) if isinstance(w2, Sym) else not w2, P + 'an individual equals an array exactly when one of its members is equal')


def h_item(env, sc):
    P = 'C15: Individual: '
    from niapy.algorithms.algorithm import Individual
    D = sc['D']
    x, v = env.vec('x', D, -100, 100), env.real('v', -100, 100)
    for i in range(D):
        a = make(Individual, x.copy(), 0.0)
        env.eq(a[i], x[i], P + 'a component is read by its index')
        a[i] = v
        for j in range(D):
            env.eq(a.x[j], v if i == j else x[j], P + 'a component is written by its index')
    b = Individual(x=[x[j] for j in range(D)], e=False)
    env.check(isinstance(b.x, np.ndarray), P + 'a sequence becomes an array')
    env.eq(b.x, x, P + 'a sequence becomes an array')
    env.check(S.isinf(b.f) and b.f > 0, P + 'an individual that was not evaluated has infinite fitness')


def mktask(env, D, log, maximize=False):
    from niapy.problems import Problem
    from niapy.task import OptimizationType, Task

    class Pr(Problem):
        def _evaluate(self, x):
            log.append(x.copy())
            return env.F(x)
    return Task(problem=Pr(D, env.array([-3.0, 1.0, -10.0][:D]), env.array([2.0, 4.0, -5.0][:D])), max_iters=10, optimization_type=OptimizationType.MAXIMIZATION if maximize else OptimizationType.MINIMIZATION)


def h_new(env, sc):
    """construction with a task: evaluate repairs first, generate_solution stays inside"""
    P = 'C15: Individual: '
    D = sc['D']
    env.reach(P + 'a kind of individual')
    for k, cls in enumerate(sorted(subclasses(), key=lambda c: c.__name__)[sc['k']::12]):
        kw = {'weight': 1.0} if cls.__name__ == 'Fish' else {}
        log = []
        task = mktask(env, D, log)
        rng = env.new_rng('r%d' % k)
        a = cls(task=task, rng=rng, e=True, **kw)
        env.check(len(log) == 1, P + 'a new individual is evaluated once')
        env.le(task.lower, a.x, P + 'a new individual is inside the bounds')
        env.le(a.x, task.upper, P + 'a new individual is inside the bounds')
        env.eq(a.f, env.F(a.x), P + 'the fitness of a new individual is its objective value')
        log = []
        task = mktask(env, D, log)
        x = env.vec('x%d' % k, D, -20, 20)
        b = cls(x=x.copy(), task=task, rng=rng, e=True, **kw)
        env.trace(b.x)
        env.le(task.lower, b.x, P + 'evaluation repairs the solution')
        env.le(b.x, task.upper, P + 'evaluation repairs the solution')
        env.eq(b.f, env.F(b.x), P + 'the fitness of a new individual is its objective value')
        for j in range(D):
            if (task.lower[j] <= x[j]) & (x[j] <= task.upper[j]):
                env.eq(b.x[j], x[j], P + 'a given solution is used')
        log = []
        c = cls(x=x.copy(), task=mktask(env, D, log), rng=rng, e=False, **kw)
        env.check(len(log) == 0, P + 'no evaluation when none is asked for')
        env.eq(c.x, x, P + 'a given solution is used')
        log = []
        task = mktask(env, D, log, True)
        for y in (x.copy(), None):
            u = cls(x=y, task=task, rng=rng, e=False, **kw)
            env.check(S.isinf(u.f) and u.f > 0, P + 'an individual that was not evaluated has infinite fitness')
        u = cls(x=x.copy(), task=task, rng=rng, e=True, **kw)
        env.eq(u.f, 0.0 - env.F(u.x), P + 'under maximization the fitness is the negated objective value')
        env.check(len(log) == 1, P + 'a new individual is evaluated once')


def h_int(env, sc):
    from niapy.algorithms.algorithm import Algorithm
    P = 'C15: integers: '
    a = Algorithm(seed=1)
    lo, hi, skip = sc['lo'], sc['hi'], sc['skip']
    if skip == 'sym':
        skip = [env.int('s0', 0, 3), env.int('s1', 0, 3)]
    elif skip == 'array':
        skip = np.array([0, 2])
    kw = {} if skip is None else dict(skip=skip)
    old, n = a.rng, [0]

    class Limited:
        """at most five draws: longer rejection sequences are outside the bound"""
        def __getattr__(self, k):
            return getattr(old, k)

        def integers(self, *x, **k):
            n[0] += 1
            if n[0] > 5:
                env.assume(False)
            return old.integers(*x, **k)
    a.rng = Limited()
    r = a.integers(lo, hi, **kw)
    l, h = (lo, hi) if hi is not None else (0, lo)
    env.check((r >= l) & (r < h), P + 'inside the range')
    for s in (skip if skip is not None else ()):
        env.check(r != s, P + 'an excluded integer is not returned')


def h_full(env, sc):
    from niapy.util.array import full_array
    P = 'C15: full_array: '
    n, D = sc['n'], sc['D']
    if n == 0:
        v = env.real('v', -100, 100) if sc['kind'] == 'scalar' else env.int('v', -5, 5)
        r, want = full_array(v, D), [v] * D
        v0 = None
    else:
        v0 = env.vec('v', n, -100, 100)
        v = v0.copy() if sc['kind'] == 'array' else list(v0) if sc['kind'] == 'list' else tuple(v0)
        r, want = full_array(v, D), [v0[i % n] for i in range(D)]
    env.check(isinstance(r, np.ndarray) and r.shape == (D,), P + 'an array of the dimension is returned')
    if not (isinstance(r, np.ndarray) and r.shape == (D,)):
        return
    env.trace(r)
    for i in range(D):
        env.eq(r[i], want[i], P + 'values are repeated in order or cut off')
    if v0 is not None:
        for i in range(n):
            env.eq(v[i], v0[i], P + 'the given values are not changed')


def h_objects(env, sc):
    from niapy.util.array import objects_to_array
    from niapy.algorithms.algorithm import Individual
    P = 'C15: objects_to_array: '
    objs = [make(Individual, env.vec('x%d' % i, 2, -1, 1), 0.0) for i in range(sc['n'])]
    for src in (objs, tuple(objs)):
        r = objects_to_array(src)
        env.check(isinstance(r, np.ndarray) and r.shape == (sc['n'],) and r.dtype == object, P + 'a one-dimensional array of objects')
        for i in range(sc['n']):
            env.check(r[i] is objs[i], P + 'the same objects in the same order')


def h_euclid(env, sc):
    from niapy.util.distances import euclidean
    P = 'C15: euclidean: '
    D, n = sc['D'], sc['n']
    v = env.vec('v', D, -100, 100)
    us = [env.vec('u%d' % i, D, -100, 100) for i in range(max(n, 1))]
    if n:
        r = euclidean(env.array([[u[j] for j in range(D)] for u in us]), v)
        env.check(np.shape(r) == (n,), P + 'one distance per row')
        rs = [r[i] for i in range(n)]
    else:
        rs = [euclidean(us[0], v)]
        env.check(np.ndim(rs[0]) == 0, P + 'a scalar is returned')
        z = euclidean(us[0], us[0])
        env.eq(z, 0.0, P + 'the distance to itself is zero')
    for u, d in zip(us, rs):
        t = 0.0
        for j in range(D):
            t = t + (u[j] - v[j]) * (u[j] - v[j])
        env.le(0.0, d, P + 'a distance is not negative')
        if env.symbolic:
            env.eq(d * d, t, P + 'the square is the sum of the squared differences')
        else:
            env.eq(d, np.sqrt(t), P + 'the square is the sum of the squared differences')


def h_levy(env, sc):
    from niapy.util.random import levy_flight
    P = 'C15: levy_flight: '
    sz = sc['size']
    a = env.pick('alpha', [0.01, 0.5, 2.0])
    env.rngs = {}
    r1 = levy_flight(rng=env.new_rng('a'), alpha=1.0, size=sz)
    r2 = levy_flight(rng=env.new_rng('a'), alpha=a, size=sz)
    shape = () if sz is None else (sz,) if isinstance(sz, int) else tuple(sz)
    for r in (r1, r2):
        env.check(np.shape(r) == shape, P + 'the step has the size asked for')
    if np.shape(r1) == shape == np.shape(r2):
        for x, y in zip(np.ravel(r1) if shape else [r1], np.ravel(r2) if shape else [r2]):
            env.eq(x * a, y, P + 'the step is proportional to alpha')


def h_init(env, sc):
    from niapy.algorithms.algorithm import default_numpy_init, default_individual_init, Individual
    P = 'C15: initialisation: '
    D, n = sc['D'], sc['n']
    log = []
    task = mktask(env, D, log)
    rng = env.new_rng('rng')
    if sc['kind'] == 'numpy':
        pop, fit = default_numpy_init(task=task, population_size=n, rng=rng)
        xs = [pop[i] for i in range(len(pop))]
    else:
        pop, fit = default_individual_init(task=task, population_size=n, rng=rng, individual_type=Individual)
        xs = [p.x for p in pop]
        for p, f in zip(pop, fit):
            env.eq(p.f, f, P + 'the fitness array agrees with the individuals')
    env.check(len(xs) == n and len(fit) == n and len(log) == n, P + 'as many members as asked for, each evaluated once')
    for x, f in zip(xs, fit):
        env.trace(x)
        env.le(task.lower, x, P + 'a member is inside the bounds')
        env.le(x, task.upper, P + 'a member is inside the bounds')
        env.eq(f, env.F(x), P + 'the fitness is the objective value of the member')


PARTS = dict(best=h_best, bestone=h_best, copy=h_copy, eq=h_eq, item=h_item, new=h_new, int=h_int, full=h_full, objects=h_objects, euclid=h_euclid, levy=h_levy, init=h_init)


def harness(env, sc):
    PARTS[sc['part']](env, sc)
