"""C02 best-so-far and convergence bookkeeping of Task"""
import numpy as np
from .c01 import ctask

FUNCTIONS = ['niapy.task.Task.eval', 'niapy.task.Task.next_iter', 'niapy.task.Task.convergence_data']
BOUNDS = 'histories of up to 5 (quick) / 7 (thorough) calls with symbolic objective values, evaluation limit symbolic 0..4 or none; minimisation and maximisation; with and without logging'
OUTSIDE = 'longer histories; objective values that are NaN or infinite; the plotting itself'


def scenarios(tier):
    n = {'quick': 5, 'thorough': 7}[tier]
    out = []
    for opt in ('min', 'max'):
        for lim in ('none', 'evals', 'cutoff'):
            out.append(dict(name='best-%s-%s' % (opt, lim), opt=opt, lim=lim, n=n, tl=40 if tier == 'quick' else 300, D=1))
        out.append(dict(name='best-%s-logging' % opt, opt=opt, lim='evals', log=1, n=n - 1, tl=40 if tier == 'quick' else 300, D=1))
    return out


def harness(env, sc):
    log = []
    t, s, me, mi, cut = ctask(env, sc, log)
    P = 'C02: '
    bests, iters = [], []
    best = None
    for k in range(sc['n']):
        n0 = len(log)
        if env.pick('op%d' % k, ['eval', 'next']) == 'eval':
            x = env.vec('x%d' % k, 1, -1, 1)
            t.eval(x)
            if len(log) > n0:
                v = log[-1][1]
                if best is None or v * s < best * s:
                    best = v
                bests.append(best)
        else:
            t.next_iter()
            iters.append(best)
        if best is None:
            env.check(t.x_f == np.inf * s, P + 'nothing evaluated: the worst value')
        else:
            env.eq(t.x_f, best, P + 'the best value is the best evaluated')
    xs, ys = t.convergence_data('iters')
    env.check(len(xs) == len(iters) and len(ys) == len(iters), P + 'one convergence point per iteration')
    for i, (a, b) in enumerate(zip(xs, ys)):
        env.eq(a, i, P + 'iterations are numbered from zero')
        if iters[i] is not None:
            env.eq(b, iters[i], P + 'the iteration axis shows the best value at that iteration')
    xs, ys = t.convergence_data('evals')
    env.check(len(xs) == len(ys), P + 'evaluation axis lengths agree')
    env.check(len(xs) <= len(bests) and (len(xs) > 0 or not bests), P + 'evaluation axis covers evaluations that happened')
    for i, (a, b) in enumerate(zip(xs, ys)):
        env.eq(a, i + 1, P + 'evaluations are numbered consecutively from one')
        if i < len(bests):
            env.eq(b, bests[i], P + 'the evaluation axis shows the best value after that evaluation')
    if bests and len(xs):
        env.eq(ys[-1], best, P + 'the evaluation axis ends at the best value found')
