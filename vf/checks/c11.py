"""C11 parameters: what is given is what is reported and what is used"""
import inspect

import numpy as np

from ..alg import Run, compare, make_alg, Missing
from ..algs import BASE
from ..sym import Sym
from .c16 import cls_of

FUNCTIONS = ['niapy.algorithms.*: __init__, set_parameters and get_parameters of every exported algorithm', 'transfer scenarios: also init_population and run_iteration of every algorithm']
BOUNDS = 'every parameter at once with a symbolic value (numbers from zero to one and a half times the default, whole numbers from zero to three above it), functions replaced by another function; ' \
         'transfer: one iteration in the configurations of algs.py, any objective function and random draws'
OUTSIDE = 'values outside these ranges; parameters of sequence type'
BASEP = ('initialization_function', 'individual_type', 'callbacks', 'seed')


def names():
    import niapy.algorithms.basic as b
    import niapy.algorithms.modified as m
    import niapy.algorithms.other as o
    from niapy.algorithms.algorithm import Algorithm
    out = []
    for mod in (b, m, o):
        for n in dir(mod):
            c = getattr(mod, n)
            if isinstance(c, type) and issubclass(c, Algorithm) and c is not Algorithm and n == c.__name__ and n not in out:
                out.append(n)
    return out


# parameters of a base class that a class fixes
FIXED = {'MultipleTrajectorySearchV1': ('num_searches_best', 'local_searches'), 'ParameterFreeBatAlgorithm': ('population_size',),
         'OppositionVelocityClampingParticleSwarmOptimization': ('w',)}
NAMES = sorted({b['alg'] for b in BASE})


def scenarios(tier):
    out = [dict(name='report-' + n, part='report', alg=n) for n in NAMES]
    seen = set()
    for b in BASE:
        if b['alg'] in seen and 'local_searches' not in b.get('attrs', b['params']):
            continue
        n = 'transfer-' + b['alg']
        if n in [s['name'] for s in out]:
            if tier == 'quick':
                continue
            n += '-%d' % len(out)
        seen.add(b['alg'])
        m = b.get('modes', [dict(iters=1)])[0]
        sc = {k: v for k, v in b.items() if k not in ('modes', 'skip')}
        sc.update({k: v for k, v in m.items() if k != 'tag'})
        sc.update(name=n, part='transfer', opt='min')
        out.append(sc)
    for sc in out:
        sc.setdefault('tl', 6 if tier == 'quick' else 60)
    return out


def accepted(cls, meth):
    out = {}
    for k in reversed(cls.__mro__):
        if meth in vars(k):
            for p in inspect.signature(vars(k)[meth]).parameters.values():
                if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY) and p.name != 'self':
                    out[p.name] = p.default
    return out


def value(env, tag, d):
    """a value for a parameter whose default is d, or None"""
    if isinstance(d, bool):
        return not d
    if isinstance(d, (int, np.integer)):
        return env.int(tag, int(d) if 'population' in tag else min(0, int(d)), int(d) + 3)
    if isinstance(d, float):
        return env.real(tag, *sorted((0.0, d * 1.5))) if d else env.real(tag, 0, 0.75)
    if callable(d) and not isinstance(d, type):
        def other(*a, **k):
            return d(*a, **k)
        return other
    return None


def same(env, a, b, label):
    if isinstance(a, (int, float, Sym, np.number)) and isinstance(b, (int, float, Sym, np.number)):
        env.eq(a, b, label)
    elif isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        env.check(a.shape == b.shape, label)
        if a.shape == b.shape:
            env.eq(a, b, label)
    else:
        env.check(a is b or bool(a == b), label)


def movable(a):
    """the reported parameters without methods of the instance itself"""
    return {k: v for k, v in a.get_parameters().items() if getattr(v, '__self__', None) is not a}


def h_report(env, sc):
    P = 'C11: '
    cls = cls_of(sc['alg'])
    dflt = cls(seed=1)
    rep = dflt.get_parameters()
    env.check(isinstance(rep, dict), P + 'parameters are reported by name')
    init, sett = accepted(cls, '__init__'), accepted(cls, 'set_parameters')
    own = inspect.signature(cls.__init__).parameters
    fixed = list(FIXED.get(sc['alg'], ())) + ['initialization_function'] + (['strategy'] if 'MultiStrategy' in sc['alg'] else [])
    fixed = [k for k in fixed if k not in own]
    vals = {}
    for k, d in init.items():
        if k in ('callbacks', 'seed', 'individual_type') or k in fixed:
            continue
        v = value(env, k, rep.get(k, d))
        if v is not None and k in rep:
            vals[k] = v
    try:
        a = cls(seed=1, **vals)
    except TypeError:
        env.check(False, P + 'every parameter can be given to the constructor')
        return
    ra = a.get_parameters()
    for k, v in vals.items():
        env.check(k in ra, P + 'a parameter given to the constructor is reported')
        if k in ra:
            same(env, ra[k], v, P + 'the value given to the constructor is reported')
    for k, p in own.items():
        if p.kind == p.POSITIONAL_OR_KEYWORD and k not in ('self',) + BASEP:
            env.check(k in ra, P + 'every parameter of the constructor is reported')
    b = cls(seed=1)
    try:
        b.set_parameters(**vals)
    except TypeError:
        env.check(False, P + 'every parameter can be given to set_parameters')
        return
    rb = b.get_parameters()
    for k, v in vals.items():
        if k in rb:
            same(env, rb[k], v, P + 'the value given to set_parameters is reported')
    c = cls(seed=1)
    try:
        c.set_parameters(**movable(a))
    except TypeError:
        env.check(False, P + 'the reported parameters can be set')
        return
    rc = c.get_parameters()
    env.check(set(rc) == set(ra), P + 'an instance with the same parameters reports the same parameters')
    for k in ra:
        if k in rc and getattr(ra[k], '__self__', None) is not a:
            same(env, rc[k], ra[k], P + 'an instance with the same parameters reports the same parameters')
    r2 = a.get_parameters()
    env.check(set(r2) == set(ra), P + 'reporting changes nothing')
    ra.clear()
    env.check(set(a.get_parameters()) == set(r2), P + 'reporting changes nothing')
    # a parameter of one instance is not one of another
    d = cls(seed=1).get_parameters()
    for k in d:
        if k not in BASEP:
            same(env, d[k], rep[k], P + 'instances do not share parameters')


def h_transfer(env, sc):
    P = 'C11'
    a = make_alg(sc)
    ps = movable(a)
    b = make_alg(dict(sc, params={}, attrs={}))
    b.set_parameters(**ps)
    for k, v in sc.get('attrs', {}).items():
        from ..alg import resolve
        setattr(b, k, resolve(v))
    a.rng = env.new_rng('s')
    r1 = Run(env, sc, 'C11', alg=a).go()
    b.rng = env.new_rng('s')
    env.reset_foreign()
    r2 = Run(env, sc, 'C11', alg=b).go()
    compare(env, r1, r2, P)


def harness(env, sc):
    dict(report=h_report, transfer=h_transfer)[sc['part']](env, sc)
