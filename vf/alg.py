"""Whole-algorithm harness shared by the algorithm properties.

The same code runs on symbols (deciding) and on floats (replaying a witness).
"""
import importlib
import math

import numpy as np

from . import sym as S
from . import spectask
from .sym import Sym, Unsupported, EngineStop

LO = [-3.0, 1.0, -10.0, 0.0]
UP = [2.0, 4.0, -5.0, 7.0]
LO2 = [-20.0, -2.0, 5.0, 1.0]
UP2 = [10.0, 0.5, 6.0, 9.0]


class Missing(EngineStop):
    """the code under test no longer has what the scenario names"""


def resolve(v):
    """'@module:name' -> object"""
    if isinstance(v, str) and v.startswith('@'):
        m, n = v[1:].split(':')
        try:
            return getattr(importlib.import_module('niapy.' + m), n)
        except (ImportError, AttributeError) as e:
            raise Missing(str(e))
    if isinstance(v, tuple):
        return tuple(resolve(e) for e in v)
    if isinstance(v, list):
        return [resolve(e) for e in v]
    return v


def copyx(x):
    return np.array(x, copy=True, subok=True) if isinstance(x, np.ndarray) else x


class Boom(Exception):
    pass


class Run:
    """one problem + task + algorithm"""

    def __init__(self, env, sc, prop, sign=1, opt=None, checks=True, alg=None, fname='F', seed=1, callbacks=None, seedless=False):
        from niapy.problems import Problem
        from niapy.task import Task, OptimizationType
        self.env, self.sc, self.prop = env, sc, prop
        D = self.D = sc.get('D', 2)
        self.evald = []
        self.calls, self.fault = 0, None
        run = self
        self.sign = sign

        class Prob(Problem):
            def __init__(self):
                super().__init__(D, env.array(sc.get('lo', LO)[:D]), env.array(sc.get('up', UP)[:D]))

            def _evaluate(self, x):
                run.on_eval(x)
                run.calls += 1
                if run.fault is not None:
                    run.fault(run.calls)
                v = env.F(x, fname)
                if sc.get('reach') is not None and len(run.evald) >= sc['reach']:
                    # the run has no limit but the cutoff value: the objective gets there
                    env.assume(v <= sc['cutoff'] if run.opt != 'max' else v >= sc['cutoff'])
                run.evald.append((copyx(x), v))
                return -v if run.sign < 0 else v
        self.problem = Prob()
        self.lower0, self.upper0 = self.problem.lower.copy(), self.problem.upper.copy()
        self.opt = opt or sc.get('opt', 'min')
        T = Task if not env.symbolic or sc.get('task') == 'real' else spectask.make(Task)
        T = counted(T, env)
        ev = sc.get('evals', np.inf)
        if ev == 'sym':
            ev = env.int('max_evals', *sc['erange'])
        self.max_evals = ev
        self.cutoff = sc.get('cutoff')
        kw = {}
        if sc.get('cutoff') is not None:
            kw['cutoff_value'] = sc['cutoff'] * sign
        if sc.get('trepair'):
            kw['repair_function'] = own_repair if sc['trepair'] == 'own' else resolve('@util.repair:' + sc['trepair'])
        mi = sc.get('iters', np.inf)
        if sc.get('late'):
            # a run that is already under way: arbitrary counters
            it0, ev0 = env.int('iters0', 1, 1000), env.int('evals0', 1, 100000)
            mi, ev = (it0 + mi, ev) if sc['late'] == 'iters' else (np.inf, ev0 + ev)
        self.task = T(problem=self.problem, max_iters=mi, max_evals=ev,
                      optimization_type=OptimizationType.MAXIMIZATION if self.opt == 'max' else OptimizationType.MINIMIZATION, **kw)
        if sc.get('late'):
            self.task.iters, self.task.evals = it0, ev0
        self.s = -1.0 if self.opt == 'max' else 1.0
        if alg is None:
            alg = make_alg(sc, seed, callbacks, seedless)
        self.alg = alg
        self.x = self.f = None
        self.exc = None

    def on_eval(self, x):
        env = self.env
        if isinstance(x, np.ndarray):
            env.trace(x)
        if self.prop == 'C03':
            env.check(self.max_evals > len(self.evald), 'C03: the objective is not evaluated beyond the evaluation limit')
            if self.cutoff is not None and self.evald:
                env.check(self.best_seen() > self.cutoff * self.s, 'C03: the objective is not evaluated after the cutoff value was reached')
        if self.prop == 'C06':
            env.check(isinstance(x, np.ndarray) and x.shape == (self.D,), 'C06: a candidate is a vector of the problem dimension')
            fin = env.isfinite(x)
            env.check(fin, 'C06: candidate coordinates are finite')
            if fin:
                env.le(self.lower0, x, 'C06: candidate is not below the lower bound')
                env.le(x, self.upper0, 'C06: candidate is not above the upper bound')

    def go(self):
        env = self.env
        if self.prop in ('C03', 'C05'):
            env.term_label = self.prop + ': the run comes to an end'
        try:
            self.x, self.f = self.alg.run(self.task)
            if self.alg.exception is not None:
                raise self.alg.exception
        except Exception as e:
            self.exc = e
            self.x = self.f = None
            if self.env.symbolic and (isinstance(e, RecursionError) or 'z3' in type(e).__module__):
                raise Unsupported('engine: %r' % e)
        return self

    def best_seen(self):
        """best signed (internal) objective value among the evaluated points"""
        b = None
        for _, v in self.evald:
            v = v * (self.s * self.sign)
            b = v if b is None else (S.min_(b, v) if self.env.symbolic else min(b, v))
        return b


def own_repair(x, lower, upper, **_kw):
    """a repair function of the user, that leaves its argument alone and returns a new point"""
    out = x.copy()
    for i in range(len(out)):
        if out[i] < lower[i]:
            out[i] = lower[i]
        elif out[i] > upper[i]:
            out[i] = upper[i]
    return out


def make_alg(sc, seed=1, callbacks=None, seedless=False):
    from niapy.util.factory import _algorithm_options
    kw = {k: resolve(v) for k, v in sc.get('params', {}).items()}
    if callbacks is not None:
        kw['callbacks'] = callbacks
    name = sc['alg']
    opts = _algorithm_options()
    if name in opts:
        cls = opts[name]
    else:
        import niapy.algorithms.basic as b
        import niapy.algorithms.modified as m
        import niapy.algorithms.other as o
        for mod in (b, m, o):
            if hasattr(mod, name):
                cls = getattr(mod, name)
                break
        else:
            raise Missing('algorithm ' + name)
    if seed is not None and not seedless:
        kw['seed'] = seed
    a = cls(**kw)
    for k, v in sc.get('attrs', {}).items():
        setattr(a, k, resolve(v))
    return a


def counted(T, env):
    class CountedTask(T):
        _n = 0

        def stopping_condition(self):
            self._n += 1
            if self._n > (20000 if env.symbolic else 100000):
                env.too_many_draws()
            return super().stopping_condition()
    return CountedTask


class Spy:
    """records what callbacks are told"""

    def __new__(cls, log):
        from niapy.callbacks import Callback

        class C(Callback):
            def before_run(self):
                log.append(('before_run',))

            def after_run(self):
                log.append(('after_run',))

            def before_iteration(self, population, fitness, best_x, best_fitness, **params):
                log.append(('before', population, fitness, best_x, best_fitness))

            def after_iteration(self, population, fitness, best_x, best_fitness, **params):
                log.append(('after', population, fitness, best_x, best_fitness))
        return C()


# --- the properties ---------------------------------------------------------
def h_c05(env, sc):
    r = Run(env, sc, 'C05').go()
    env.check(r.exc is None, 'C05: the run completes without raising')
    if r.exc is not None:
        return
    x, f = r.x, r.f
    env.check(isinstance(x, np.ndarray) and x.shape == (r.D,), 'C05: a vector of the problem dimension is returned')
    if not (isinstance(x, np.ndarray) and x.shape == (r.D,)):
        return
    env.check(np.ndim(f) == 0 and np.shape(f) == (), 'C05: a scalar fitness is returned')
    fin = env.isfinite(x)
    env.check(fin, 'C05: the returned solution is finite')
    if not fin:
        return
    env.le(r.lower0, x, 'C05: the returned solution is not below the lower bound')
    env.le(x, r.upper0, 'C05: the returned solution is not above the upper bound')
    n = len(r.evald)
    if n:
        env.eq(f, r.best_seen() * r.s, 'C05: the returned fitness is the best objective value evaluated')
        env.eq(f, env.F(x), 'C05: the returned fitness is the objective value of the returned solution')


def h_c06(env, sc):
    r = Run(env, sc, 'C06').go()
    if r.exc is not None:
        env.reach('raised')


def same(env, a, b, label):
    if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape):
        env.check(False, label)
        return
    env.eq(a, b, label)


def compare(env, r1, r2, P, sgn=1.0):
    env.check((r1.exc is None) == (r2.exc is None), P + ': both runs end the same way')
    if r1.exc is not None or r2.exc is not None:
        return
    env.check(len(r1.evald) == len(r2.evald), P + ': both runs evaluate the same number of candidates')
    for (a, _), (b, _) in zip(r1.evald, r2.evald):
        same(env, a, b, P + ': both runs evaluate the same candidates')
    env.check((r1.x is None) == (r2.x is None), P + ': both runs return a solution')
    if r1.x is None or r2.x is None:
        return
    same(env, np.asarray(r1.x), np.asarray(r2.x), P + ': both runs return the same solution')
    if S.isnum(r1.f) or isinstance(r1.f, Sym) and not isinstance(r2.f, np.ndarray):
        env.eq(r1.f, r2.f * sgn, P + ': both runs return the same fitness')


def h_c07(env, sc):
    r1 = Run(env, sc, 'C07', seed=sc.get('seed', 1)).go()
    env.reset_foreign()
    r2 = Run(env, sc, 'C07', seed=sc.get('seed', 1)).go()
    compare(env, r1, r2, 'C07')


def h_c08(env, sc):
    r = Run(env, sc, 'C08', callbacks=[])
    from niapy.callbacks import Callback
    state = dict(prev=None)

    def see(bx, bf):
        n = len(r.evald)
        if not (isinstance(bx, np.ndarray) and bx.shape == (r.D,) and env.isfinite(bx)):
            env.check(False, 'C08: the reported best is a finite vector of the problem dimension')
            return
        if np.ndim(bf) != 0 or S.isnan(bf):
            env.check(False, 'C08: the reported best fitness is a number')
            return
        if state['prev'] is not None:
            env.le(bf, state['prev'], 'C08: the reported best fitness never worsens')
        state['prev'] = bf
        if n and not S.isinf(bf):
            env.eq(bf, env.F(bx) * r.s, 'C08: the reported best fitness belongs to the reported best solution')
        if n:
            env.eq(bf, r.best_seen(), 'C08: the reported best is the best candidate evaluated so far')

    class C(Callback):
        def before_iteration(self, population, fitness, best_x, best_fitness, **params):
            see(best_x, best_fitness)

        def after_iteration(self, population, fitness, best_x, best_fitness, **params):
            see(best_x, best_fitness)
    r.alg.callbacks.append(C())
    r.go()


def h_c09(env, sc):
    r1 = Run(env, sc, 'C09', opt='min').go()
    env.reset_foreign()
    r2 = Run(env, sc, 'C09', opt='max', sign=-1).go()
    compare(env, r1, r2, 'C09', -1.0)


def params_of(a):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in a.get_parameters().items()}


def h_c12(env, sc):
    b = make_alg(sc)
    b.rng = env.new_rng('second')
    r2 = Run(env, sc, 'C12', alg=b, fname='G').go()
    env.reset_foreign()
    a = make_alg(sc)
    a.rng = env.new_rng('first')
    ps = params_of(a)
    # the first run differs in everything a run may differ in: bounds, direction, length and (some scenarios) dimension
    first = dict(sc, lo=LO2, up=UP2, opt='min' if sc['opt'] == 'max' else 'max', **sc.get('first', {}))
    r0 = Run(env, first, 'C12', alg=a)
    thrown = []
    if sc.get('boom'):
        at = env.int('fault_at', 1, 30)

        def fault(k):
            if not thrown and at == k:
                thrown.append(Boom('objective'))
                raise thrown[0]
        r0.fault = fault
    r0.go()
    for p in (r0,):
        env.eq(p.problem.lower, p.lower0, 'C12: a run leaves the lower bounds as they were')
        env.eq(p.problem.upper, p.upper0, 'C12: a run leaves the upper bounds as they were')
        env.eq(p.task.range, p.upper0 - p.lower0, 'C12: a run leaves the range of the bounds as it was')
    if r0.exc is not None and not thrown:
        return
    after = params_of(a)
    env.check(set(ps) == set(after), 'C12: a run leaves the parameters of the instance as they were')
    for k in ps:
        if k in after:
            v, w = ps[k], after[k]
            if isinstance(v, np.ndarray) or isinstance(v, Sym) or S.isnum(v):
                env.check(np.shape(v) == np.shape(w), 'C12: a run leaves the parameters of the instance as they were')
                if np.shape(v) == np.shape(w):
                    env.eq(w, v, 'C12: a run leaves the parameters of the instance as they were')
            else:
                env.check(v is w or bool(v == w), 'C12: a run leaves the parameters of the instance as they were')
    a.rng = env.new_rng('second')
    env.reset_foreign()
    r1 = Run(env, sc, 'C12', alg=a, fname='G').go()
    compare(env, r1, r2, 'C12')


def h_c03(env, sc):
    log = []
    r = Run(env, sc, 'C03', callbacks=[Spy.__new__(Spy, log)]).go()
    if r.exc is not None:
        if 'reach' in sc:
            env.check(False, 'C03: a run with nothing but a cutoff value returns')
        env.reach('raised')         # C05's business
        return
    n = sum(1 for e in log if e[0] == 'after')
    env.check(r.task.iters == n, 'C03: the iteration counter counts the iterations')
    if 'iters' in sc:
        env.check(n <= sc['iters'], 'C03: no more iterations than the limit')
        if 'evals' not in sc and sc.get('cutoff') is None:
            env.check(n == sc['iters'], 'C03: exactly as many iterations as asked for')
    env.check(len(r.evald) <= r.max_evals, 'C03: no more evaluations than the limit')
    env.eq(r.task.evals, len(r.evald), 'C03: the task counts the evaluations of the objective')
    if 'iters' not in sc and sc.get('cutoff') is None:
        env.check(len(r.evald) == r.max_evals, 'C03: a run bounded by evaluations uses them')


def members(pop):
    """(vector, individual fitness or None) of each member; None when it is no population of vectors"""
    out = []
    if not isinstance(pop, (np.ndarray, list, tuple)):
        return None
    for m in pop:
        if isinstance(m, np.ndarray):
            out.append((m, None))
        elif hasattr(m, 'x') and hasattr(m, 'f') and isinstance(m.x, np.ndarray):
            out.append((m.x, m.f))
        else:
            return None
    return out


def h_c17(env, sc):
    r = Run(env, sc, 'C17', callbacks=[])
    from niapy.callbacks import Callback
    P = 'C17: '

    def see(population, fitness):
        if np.ndim(fitness) == 0 and (hasattr(population, 'f') or isinstance(population, np.ndarray) and population.ndim == 1 and not hasattr(population.flat[0], 'f')):
            # algorithms with a single current solution
            population, fitness = [population], [fitness]
        ms = members(population)
        if ms is None:
            env.check(False, P + 'the population is a sequence of solutions')
            return
        env.check(np.ndim(fitness) == 1 and len(fitness) == len(ms), P + 'as many fitness values as members')
        if np.ndim(fitness) != 1 or len(fitness) != len(ms):
            return
        for (x, f), g in zip(ms, fitness):
            env.check(x.shape == (r.D,), P + 'a member is a vector of the problem dimension')
            fin = env.isfinite(x)
            env.check(fin, P + 'a member is finite')
            if x.shape != (r.D,) or not fin:
                continue
            env.le(r.lower0, x, P + 'a member is not below the lower bound')
            env.le(x, r.upper0, P + 'a member is not above the upper bound')
            env.check(np.ndim(g) == 0 and not S.isnan(g), P + 'a fitness is a number')
            if S.isinf(g) and 'evals' in sc:
                continue
            env.eq(g, env.F(x) * r.s, P + 'the fitness of a member is its objective value')
            if f is not None:
                env.eq(g, f, P + 'the fitness of an individual agrees with the fitness array')

    class C(Callback):
        def before_iteration(self, population, fitness, best_x, best_fitness, **params):
            see(population, fitness)

        def after_iteration(self, population, fitness, best_x, best_fitness, **params):
            see(population, fitness)
    r.alg.callbacks.append(C())
    r.go()
    if r.exc is not None:
        env.reach('raised')


HARNESS = dict(C03=h_c03, C17=h_c17, C05=h_c05, C06=h_c06, C07=h_c07, C08=h_c08, C09=h_c09, C12=h_c12)
