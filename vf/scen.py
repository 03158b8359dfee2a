"""Scenarios of the whole-algorithm properties: every configuration of algs.py in every mode of the property.

  -i1, -i2   one or two iterations, no evaluation limit
  -deep      five iterations, or as many as a path gets through (few paths, each through all of them)
  -big       a larger population in three dimensions
  -e         symbolic evaluation limit (below the population size, inside a generation, ...)
  -cut       cutoff value 0 (the objective is arbitrary, so it may be reached anywhere)
  -r         one iteration with another repair function in the task
  -D1, -D3   other dimensions
  -only      no limit but a cutoff value
  -real      the repository's own Task.eval instead of its merged contract (spectask.py)
"""
from .algs import BASE

I1, I2 = dict(iters=1, tag='-i1'), dict(iters=2, tag='-i2')
# no path gets through five iterations (or the larger population) of these in the time given
DEEP = dict(CoralReefsOptimization=2, MultiStrategyDifferentialEvolution=0, DynNpMultiStrategyDifferentialEvolution=0, MultiStrategySelfAdaptiveDifferentialEvolution=0,
            KrillHerd=3, LionOptimizationAlgorithm=0, HybridSelfAdaptiveBatAlgorithm=3, AnarchicSocietyOptimization=3)
GROW = dict(CoralReefsOptimization=1, DynNpMultiStrategyDifferentialEvolution=1, MultiStrategySelfAdaptiveDifferentialEvolution=1)
REPAIR = ['rand', 'reflect', 'wang', 'limit_inverse']


def popsize(b):
    p = dict(b.get('params', {}), **b.get('attrs', {}))
    for k in ('population_size', 'mu', 'num_sparks'):
        if k in p:
            return p[k]
    return 3


def modes(prop, b, i, tier):
    return [m for m in modes_(prop, b, i, tier) if m.get('iters') != 0]


def modes_(prop, b, i, tier):
    n = popsize(b)
    th = tier == 'thorough'
    rep = [dict(iters=1, trepair=r, tag='-' + r) for r in (REPAIR if th else [REPAIR[i % 4]])]
    E = dict(iters=2, evals='sym', erange=[1, 2 * n + 3], tag='-e')
    dims = [dict(iters=1, D=1, tag='-D1')] if b['D'] != 1 else [dict(iters=1, D=2, tag='-D2')]
    if 'variant' in b:
        m = dict(b['modes'][0])
        if prop == 'C03':
            return [dict(m, evals='sym', erange=[0, m['evals'] if 'evals' in m else 2 * n + 4])]
        if prop == 'C07':
            m['trepair'] = 'rand'
        return [m]
    if 'modes' in b:
        base = [dict(m) for m in b['modes']]
        if prop == 'C03':
            base = [dict(evals='sym', erange=[0, 2 * n + 5], tag=m['tag'] + '-e') for m in base[:1]] + [dict(m, cutoff=0.0, tag=m['tag'] + '-cut') for m in base[:1]]
        elif prop in ('C05', 'C08') and 'evals' not in base[0]:
            base.append(dict(E, tag=base[0]['tag'] + '-e'))
        elif prop == 'C07':
            base = [dict(m, trepair='rand') for m in base]
        return base
    if prop == 'C03':
        m = [dict(evals='sym', erange=[0, n + 4], tag='-e'), dict(iters=2, cutoff=0.0, tag='-cut'), dict(iters=2, task='real', tag='-i2'),
             dict(evals='sym', erange=[0, n + 4], task='real', tag='-e-real')]
        only = dict(cutoff=0.0, reach=n + 3, tag='-only', **({} if th else dict(tl=3)))
        return m + [only] if th else [m[0] if i % 2 else m[3], m[1], m[2], only]
    deep = dict(iters=DEEP.get(b['alg'], 5), tag='-deep')
    big = dict(iters=1, D=3, grow=GROW.get(b['alg'], 3), tag='-big')
    late = dict(iters=1, late='iters') if i % 2 else dict(evals=2 * n + 2, late='evals')
    late = dict(late, tag='-late', **({} if th else dict(tl=3)))
    more = [deep, big] + ([late] if prop in ('C05', 'C06', 'C08', 'C17') else [])
    if prop == 'C05':
        return [I2, E] + more + ([I1, dict(I1, task='real', tag='-real'), dict(I1, trepair='rand', tag='-rand'), dict(I1, trepair='own', tag='-own')] + dims if th else [dict(dims[0], tl=3, trepair='own')])
    if prop == 'C06':
        return [I2] + rep + more + ([I1] + dims if th else [])
    if prop == 'C07':
        return [dict(I1, trepair='rand', tag='-i1-rand'), dict(deep, iters=min(3, deep['iters']), seed=0), dict(late, seed=2 ** 40 + i)] + ([dict(I2, trepair='rand', tag='-i2-rand'), I2, big] if th else [])
    if prop == 'C08':
        return [I2, E] + more + ([I1] + dims if th else [])
    if prop == 'C10':
        return [I2]
    if prop == 'C12':
        boom = dict(I1, boom=1, tag='-boom', **({} if th else dict(tl=3)))
        return [I1, boom, late] if not th else [I1, I2, boom, late]
    if prop == 'C09':
        return [I1, dict(deep, iters=min(3, deep['iters'])), late] + ([I2, big] if th else [])
    return [I2] + more + ([I1] + dims if th else [])


def scenarios_for(prop, tier):
    out, names = [], set()
    tl = 6 if tier == 'quick' else 60
    for i, b in enumerate(BASE):
        if prop in b.get('skip', ()):
            continue
        for j, m in enumerate(modes(prop, b, i, tier)):
            sc = {k: v for k, v in b.items() if k not in ('modes', 'skip', 'variant')}
            sc.update(m)
            if 'grow' in sc:
                g = sc.pop('grow')
                for k in ('population_size', 'mu', 'lam'):
                    if k in sc['params'] and sc['params'][k] < 8:
                        sc['params'] = dict(sc['params'], **{k: sc['params'][k] + g})
            sc['name'] = b['alg'] + sc.pop('tag')
            sc.setdefault('tl', tl)
            sc.setdefault('opt', 'min' if (i + j) % 2 else 'max')
            if prop == 'C12':
                sc['first'] = [{}, dict(D=3 - sc['D'] if sc['D'] < 3 else 1), dict(evals=popsize(b) + 2)][i % 3]
            assert sc['name'] not in names, sc['name']
            names.add(sc['name'])
            out.append(sc)
    return out
