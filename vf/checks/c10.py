"""C10 callback protocol and exceptions of Algorithm.run"""
import numpy as np
from ..alg import Run, compare
from ..scen import scenarios_for

FUNCTIONS = ['niapy.algorithms.algorithm.Algorithm.run', 'niapy.algorithms.algorithm.Algorithm.__init__', 'niapy.algorithms.algorithm.Algorithm.bad_run', 'niapy.callbacks.CallbackList',
             'niapy.task.Task.stopping_condition', 'niapy.task.Task.next_iter', 'run_iteration of every exported algorithm (chaining of consecutive iterations)']
BOUNDS = ('generic algorithm: 0..3 callbacks, up to 3 iterations, symbolic iteration and evaluation limits and cutoff, an exception at any callback, evaluation or iteration (symbolic position), '
          'of an own class or one of fifteen built-in ones, in the main thread and in another thread; every exported algorithm: 2 iterations at its small configuration with and without callbacks, and with an objective that raises at any one of the first 30 evaluations')
OUTSIDE = 'more iterations and callbacks; processes other than the main one (decided through the same branch as threads)'
P = 'C10: '


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


# what users' code raises
BUILTIN = [KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, ArithmeticError, ZeroDivisionError, ValueError, TypeError, IndexError, KeyError,
           AttributeError, RuntimeError, NotImplementedError, AssertionError, OSError]


class AnyError(ValueError, ArithmeticError, RuntimeError, IndexError, KeyError, TypeError, AssertionError):
    """lost wherever one of its bases is"""


def scenarios(tier):
    out = []
    t = 20 if tier == 'quick' else 120
    for ncb in (0, 1, 2, 3):
        for how in ('list', 'cblist', 'append'):
            if how != 'list' and ncb == 0:
                continue
            out.append(dict(name='protocol-%d-%s' % (ncb, how), kind='protocol', ncb=ncb, how=how, tl=t))
    for exc in ('exception', 'base'):
        for thread in (False, True):
            for ncb in (1, 2):
                out.append(dict(name='fault-%s-%s-%d' % (exc, 'thread' if thread else 'main', ncb), kind='fault', exc=exc, thread=thread, ncb=ncb, how='list', tl=t))
    for thread in (False, True):
        for k in range(0, len(BUILTIN), 5):
            out.append(dict(name='fault-builtin%d-%s' % (k, 'thread' if thread else 'main'), kind='fault', exc='builtin', types=[e.__name__ for e in BUILTIN[k:k + 5]], thread=thread, ncb=1, how='list', tl=t))
    for sc in scenarios_for('C10', tier):
        out.append(dict(sc, kind='lib'))
        if sc.get('nocb', True) and 'evals' not in sc:
            out.append(dict(sc, kind='libfault', name=sc['name'] + '-fault', tl=2 if tier == 'quick' else 20, opt='min'))
    return out


def stub(env, sc, log, fault, callbacks):
    """the generic algorithm: every iteration returns arbitrary values"""
    from niapy.algorithms import Algorithm

    class A(Algorithm):
        k = 0

        def init_population(self, task):
            log.append(('init',))
            fault('init')
            pop, f, d = super().init_population(task)
            d['p'] = env.real('p0', -5, 5)
            return pop, f, d

        def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
            self.k += 1
            log.append(('iter', population, population_fitness, best_x, best_fitness, params))
            fault('iter')
            x = env.vec('n%d' % self.k, 1, -1, 1)
            f = task.eval(x)
            pop = env.array([[env.real('m%d.%d' % (self.k, i), -1, 1)] for i in range(2)])
            res = (pop, env.vec('g%d' % self.k, 2, -9, 9), x, f, {'p': env.real('p%d' % self.k, -5, 5)})
            log.append(('ret',) + res)
            return res
    return A(population_size=2, callbacks=callbacks, seed=3)


def spy(log, i, fault):
    from niapy.callbacks import Callback

    class C(Callback):
        def before_run(self):
            log.append(('before_run', i))
            fault('cb')

        def after_run(self):
            log.append(('after_run', i))
            fault('cb')

        def before_iteration(self, population, fitness, best_x, best_fitness, **params):
            log.append(('before', i, population, fitness, best_x, best_fitness, params))
            fault('cb')

        def after_iteration(self, population, fitness, best_x, best_fitness, **params):
            log.append(('after', i, population, fitness, best_x, best_fitness, params))
            fault('cb')
    return C()


def same(env, a, b, label):
    if a is b:
        env.check(True, label)
    elif isinstance(a, dict) and isinstance(b, dict):
        env.check(set(a) == set(b), label)
        for k in set(a) & set(b):
            same(env, a[k], b[k], label)
    elif np.shape(a) == np.shape(b) and np.asarray(a).dtype != object or not isinstance(a, np.ndarray):
        env.eq(a, b, label)
    elif np.shape(a) != np.shape(b):
        env.check(False, label)
    else:
        env.eq(a, b, label)


def generic(env, sc):
    from niapy.problems import Problem
    from niapy.task import Task
    from niapy.callbacks import CallbackList
    log = []
    count = [0]
    faulty = sc['kind'] == 'fault'
    at = env.int('fault_at', 1, 12 + 4 * sc['ncb']) if faulty else None
    E = {'exception': Boom, 'base': Halt}.get(sc.get('exc'))
    if sc.get('exc') == 'builtin':
        import builtins
        E = getattr(builtins, env.pick('type', sc['types']))
    thrown = []

    def fault(where):
        count[0] += 1
        if faulty and at == count[0]:
            e = E(where)
            thrown.append(e)
            raise e

    class Pr(Problem):
        def __init__(self):
            super().__init__(1, -1.0, 1.0)

        def _evaluate(self, x):
            fault('eval')
            return env.F(x)
    mi, me = env.int('max_iters', 0, 3), env.int('max_evals', 0, 6)
    task = Task(problem=Pr(), max_iters=mi, max_evals=me, cutoff_value=env.real('cut', -50, 50))
    cbs = [spy(log, i, fault) for i in range(sc['ncb'])]
    if sc['how'] == 'list':
        a = stub(env, sc, log, fault, list(cbs) if cbs or env.bool('none') else None)
    elif sc['how'] == 'cblist':
        a = stub(env, sc, log, fault, CallbackList(list(cbs)))
    else:
        a = stub(env, sc, log, fault, None)
        for c in cbs:
            a.callbacks.append(c)
    if sc['how'] != 'append':
        env.check(all(c.algorithm is a for c in cbs), P + 'callbacks know their algorithm')
    got, res = None, None

    def body():
        nonlocal got, res
        try:
            res = a.run(task)
        except (Boom, Halt) as e:
            got = e
        except BaseException as e:
            if not (thrown and e is thrown[0]):
                raise
            got = e
    if sc.get('thread'):
        with elsewhere():
            body()
    else:
        body()
    from ..sym import EngineStop
    if isinstance(a.exception, EngineStop):
        raise a.exception
    env.trace(env.array([len(log), task.iters, task.evals]))
    if thrown:
        if sc.get('thread'):
            env.check(got is thrown[0] or (a.exception is thrown[0] and a.bad_run() and res == (None, None)), P + 'an exception in another thread is recorded on the algorithm')
        else:
            env.check(got is thrown[0], P + 'an exception in the main thread propagates to the caller')
        env.check(sum(1 for e in log if e[0] == 'after_run') == (0 if thrown[0].args[0] != 'cb' or log[-1][0] != 'after_run' else log[-1][1] + 1), P + 'a run that failed is not reported as finished')
        return
    env.check(got is None and not a.bad_run() and a.exception is None, P + 'a run without faults records no exception')
    # the order of calls
    n = task.iters
    exp = [('before_run', i) for i in range(sc['ncb'])] + [('init',)]
    for k in range(n if isinstance(n, int) else n.__index__()):
        exp += [('before', i) for i in range(sc['ncb'])] + [('iter',), ('ret',)] + [('after', i) for i in range(sc['ncb'])]
    exp += [('after_run', i) for i in range(sc['ncb'])]
    got_ = [e[:2] if e[0] not in ('init', 'iter', 'ret') else e[:1] for e in log]
    env.check(got_ == exp, P + 'callbacks are called in order, once per event')
    if got_ != exp:
        return
    last = None
    for e in log:
        if e[0] == 'ret':
            last = e[1:]
        elif e[0] in ('before', 'after') and last is not None:
            for u, v in zip(e[2:], last):
                same(env, u, v, P + 'a callback sees what the last iteration returned')
        elif e[0] == 'iter' and last is not None:
            for u, v in zip(e[1:], last):
                same(env, u, v, P + 'an iteration starts from what the last one returned')
        elif e[0] in ('before', 'iter'):
            pass
    # what init produced reaches the first iteration and every callback before it
    first = [e for e in log if e[0] == 'iter'][:1]
    for e in log:
        if e[0] == 'before' and first and e[6].get('p') is not None:
            for u, v in zip(e[2:], first[0][1:]):
                same(env, u, v, P + 'the first callbacks see what the first iteration starts from')
        if e[0] == 'ret':
            break
    env.check(isinstance(res, tuple) and len(res) == 2, P + 'the run returns a solution and its fitness')
    if last is not None:
        env.eq(res[0], last[2], P + 'the run returns the best of the last iteration')
        env.eq(res[1], last[3], P + 'the run returns the best of the last iteration')


class elsewhere:
    """what Algorithm.run sees when it is not in the main thread; the code is run in this one"""
    def __enter__(self):
        import threading
        self.t = threading
        self.old = threading.current_thread
        other = threading.Thread()
        threading.current_thread = lambda: other

    def __exit__(self, *a):
        self.t.current_thread = self.old


def lib(env, sc):
    log = []

    def nofault(w):
        pass
    r1 = Run(env, sc, 'C10', callbacks=[spy(log, 0, nofault), spy(log, 1, nofault)])
    snap = []
    from niapy.callbacks import Callback

    class Snap(Callback):
        def _s(self, kind, pop, fit, bx, bf):
            snap.append((kind, copydeep(pop), copydeep(fit), copydeep(bx), bf))

        def before_iteration(self, population, fitness, best_x, best_fitness, **params):
            self._s('before', population, fitness, best_x, best_fitness)

        def after_iteration(self, population, fitness, best_x, best_fitness, **params):
            self._s('after', population, fitness, best_x, best_fitness)
    r1.alg.callbacks.append(Snap())
    r1.go()
    if r1.exc is not None:
        env.reach('raised')
        return
    seq = [e[:2] for e in log]
    n = r1.task.iters
    exp = [('before_run', 0), ('before_run', 1)]
    for k in range(n):
        exp += [('before', 0), ('before', 1), ('after', 0), ('after', 1)]
    exp += [('after_run', 0), ('after_run', 1)]
    env.check(seq == exp, P + 'callbacks are called in order, once per event')
    for i in range(1, len(snap) - 1, 2):
        a, b = snap[i], snap[i + 1]
        if a[0] != 'after' or b[0] != 'before':
            break
        for u, v in zip(a[1:], b[1:]):
            eqdeep(env, u, v, P + 'what is given after an iteration is given before the next')
    if sc.get('nocb', True):
        env.reset_foreign()
        r2 = Run(env, sc, 'C10').go()
        compare(env, r1, r2, 'C10')


def libfault(env, sc):
    """an objective that raises at any one evaluation of a library algorithm"""
    at = env.int('fault_at', 1, 30)
    over, thrown = [], []
    from niapy.callbacks import Callback

    class Over(Callback):
        def after_run(self):
            over.append(1)

    def fault(k):
        if not thrown and at == k:
            thrown.append(AnyError('objective'))
            raise thrown[0]
    r = Run(env, sc, 'C10', callbacks=[Over()])
    r.fault = fault
    r.go()
    if not thrown:
        env.reach('no fault')
        return
    env.check(r.exc is thrown[0], P + 'an exception of the objective propagates to the caller')
    env.check(not over, P + 'a run that failed is not reported as finished')


def copydeep(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object and len(v) and hasattr(v.flat[0], 'x'):
            return [(np.array(e.x, copy=True, subok=True), e.f) for e in v]
        return np.array(v, copy=True, subok=True)
    if isinstance(v, list):
        return [copydeep(e) for e in v]
    return v


def eqdeep(env, a, b, label):
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            env.check(False, label)
            return
        for u, v in zip(a, b):
            eqdeep(env, u, v, label)
    elif a is None or isinstance(a, str):
        env.check(a == b, label)
    else:
        env.eq(a, b, label)


def harness(env, sc):
    if sc['kind'] == 'lib':
        lib(env, sc)
    elif sc['kind'] == 'libfault':
        libfault(env, sc)
    else:
        generic(env, sc)
