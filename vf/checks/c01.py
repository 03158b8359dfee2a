"""C01 evaluation and iteration budgets of Task"""
import numpy as np

from .. import sym as S

FUNCTIONS = ['niapy.task.Task.__init__', 'niapy.task.Task.eval', 'niapy.task.Task.next_iter', 'niapy.task.Task.stopping_condition',
             'niapy.task.Task.stopping_condition_iter', 'niapy.problems.problem.Problem.evaluate']
BOUNDS = 'histories of up to 6 (quick) / 8 (thorough) calls; symbolic objective values, limits 0..4 or none, symbolic cutoff or none; objectives that raise at any call; with and without logging; minimisation and maximisation'
OUTSIDE = 'longer histories; objective values that are NaN or infinite'


def scenarios(tier):
    out = []
    n = {'quick': 5, 'thorough': 7}[tier]
    for opt in ('min', 'max'):
        for lim in ('evals', 'iters', 'both', 'cutoff', 'cutoff+both', 'none'):
            out.append(dict(name='task-%s-%s' % (opt, lim), opt=opt, lim=lim, n=n if lim != 'cutoff+both' else n - 1, tl=25 if tier == 'quick' else 200, D=1))
    for opt in ('min', 'max'):
        for lim in ('evals', 'cutoff+both'):
            out.append(dict(name='task-%s-%s-raise' % (opt, lim), opt=opt, lim=lim, n=n - 1 if lim == 'evals' else n - 2, tl=25 if tier == 'quick' else 200, D=1, boom=1))
    for opt in ('min', 'max'):
        out.append(dict(name='task-%s-logging' % opt, opt=opt, lim='both', n=n - 1, tl=25 if tier == 'quick' else 200, D=1, log=1))
    for opt in ('min', 'max'):
        # the evaluation counter far from the limit: one step from an arbitrary counter value
        out.append(dict(name='task-%s-step' % opt, opt=opt, lim='step', n=1, tl=20, D=2))
    return out


class Boom(Exception):
    """the objective function has no value here"""


def ctask(env, sc, log):
    from niapy.problems import Problem
    from niapy.task import Task, OptimizationType
    D = sc['D']

    class P(Problem):
        def __init__(self):
            super().__init__(D, -1.0, 1.0)

        def _evaluate(self, x):
            v = env.real('v%d' % len(log), -100, 100)
            log.append((x, v))
            if sc.get('boom') and env.bool('raise%d' % len(log)):
                raise Boom()
            return v
    kw = {}
    lim = sc['lim']
    me = mi = np.inf
    if lim in ('evals', 'both', 'cutoff+both'):
        kw['max_evals'] = me = env.int('max_evals', 0, 4)
    if lim in ('iters', 'both', 'cutoff+both'):
        kw['max_iters'] = mi = env.int('max_iters', 0, 4)
    if lim == 'step':
        kw['max_evals'] = me = env.int('max_evals', 0, 10 ** 6)
        kw['max_iters'] = mi = env.int('max_iters', 0, 10 ** 6)
    cut = None
    if 'cutoff' in lim or lim == 'step':
        kw['cutoff_value'] = cut = env.real('cutoff', -50, 50)
    s = -1.0 if sc['opt'] == 'max' else 1.0
    if sc.get('log'):
        import logging
        logging.getLogger('niapy.task.Task').setLevel(logging.CRITICAL)
        kw['enable_logging'] = True
    t = Task(problem=P(), optimization_type=OptimizationType.MAXIMIZATION if s < 0 else OptimizationType.MINIMIZATION, **kw)
    return t, s, me, mi, cut


def harness(env, sc):
    log = []
    t, s, me, mi, cut = ctask(env, sc, log)
    ev = it = 0
    best = None
    P = 'C01: '
    if sc['lim'] == 'step':
        ev = t.evals = env.int('evals0', 0, 10 ** 6)
        it = t.iters = env.int('iters0', 0, 10 ** 6)
        best = t.x_f = env.real('best0', -100, 100)

    def expected():
        e = (ev >= me) | (it >= mi) if not isinstance(ev >= me, bool) or not isinstance(it >= mi, bool) else (ev >= me or it >= mi)
        if cut is not None and best is not None:
            e = e | (best * s <= cut * s)
        return e
    for k in range(sc['n']):
        stop = expected()
        got = t.stopping_condition()
        env.check(iff(got, stop), P + 'the stopping condition holds exactly when a limit is reached')
        op = env.pick('op%d' % k, ['eval', 'next', 'both'])
        n0 = len(log)
        if op == 'eval':
            x = env.vec('x%d' % k, sc['D'], -1, 1)
            try:
                r = t.eval(x)
            except Boom:
                # a call counts, whether it returns or not; it improves nothing
                env.check(S.not_(stop) if isinstance(stop, S.Sym) else not stop, P + 'the objective is not called after stopping')
                env.check(len(log) == n0 + 1, P + 'the objective is called once')
                ev = ev + 1
                env.eq(t.evals, ev, P + 'evaluations are counted')
                continue
            if stop:
                env.check(len(log) == n0, P + 'the objective is not called after stopping')
                env.check(np.ndim(r) == 0 and isinstance(r, float) and r == np.inf, P + 'an evaluation after stopping is infinitely bad')
            else:
                env.check(len(log) == n0 + 1, P + 'the objective is called once')
                if len(log) == n0 + 1:
                    v = log[-1][1]
                    env.eq(log[-1][0], x, P + 'the objective sees the given candidate')
                    env.eq(r, v * s, P + 'the value is returned, sign adjusted')
                    best = v if best is None else (v if v * s < best * s else best)
                    ev = ev + 1
        elif op == 'next':
            t.next_iter()
            it = it + 1
        else:
            r = t.stopping_condition_iter()
            env.check(iff(r, stop), P + 'stopping_condition_iter reports the condition before advancing')
            it = it + 1
        env.eq(t.evals, ev, P + 'evaluations are counted')
        env.eq(t.iters, it, P + 'iterations are counted')
        if me is not np.inf and sc['lim'] != 'step':
            env.check(ev <= me, P + 'the evaluation budget is never exceeded')
    env.check(iff(t.stopping_condition(), expected()), P + 'the stopping condition holds exactly when a limit is reached')
    env.trace(np.asarray([log[i][1] for i in range(len(log))] + [t.evals, t.iters], dtype=object))


def iff(a, b):
    return a == b if not isinstance(a, (bool, np.bool_)) or not isinstance(b, (bool, np.bool_)) else bool(a) == bool(b)
