"""Environments (symbolic / concrete) and the explorer."""
import json
import math
import os
import random as pyrandom
import sys
import time
from collections import Counter

import numpy as np

from . import sym as S
from .sym import Sym, EngineStop, PathCut, Unsupported, OutOfBudget
from .rng import Rng
from .z3load import z3

FBOUND = 10 ** 6


class CheckFailed(EngineStop):
    def __init__(self, label, msg=''):
        super().__init__(label + ': ' + msg)
        self.label = label


class Diverged(EngineStop):
    pass


class NpRandom:
    """numpy.random module: every function is a source of randomness the
    algorithm's own generator does not control ("foreign")."""
    def __init__(self, env):
        self._env = env
        self.Generator = np.random.Generator
        self.RandomState = lambda *a: env.default_rng(*a)

    def default_rng(self, seed=None):
        return self._env.default_rng(seed)

    def __getattr__(self, n):
        return getattr(self._env.foreign(), n)


class PyRandom:
    """python's random module, likewise foreign"""
    def __init__(self, env):
        self._env = env

    def random(self): return self._env.foreign().random()
    def uniform(self, a, b): return self._env.foreign().uniform(a, b)
    def gauss(self, a=0., b=1.): return self._env.foreign().normal(a, b)
    normalvariate = gauss
    def randint(self, a, b): return self._env.foreign().integers(a, b + 1)
    def randrange(self, a, b=None): return self._env.foreign().integers(a, b)
    def choice(self, s): return s[self._env.foreign().integers(len(s)).__index__()]
    def shuffle(self, s): return self._env.foreign().shuffle(s)

    def sample(self, s, k):
        return [s[i.__index__()] for i in self._env.foreign().choice(len(s), k, replace=False)]

    def choices(self, s, weights=None, k=1, **kw):
        return [self.choice(s) for _ in range(k)]

    def seed(self, *a): return None
    def Random(self, seed=None): return self._env.default_rng(seed)


class Env:
    symbolic = False

    def __init__(self):
        self.draws = 0
        self.foreign_rng = None
        self.foreign_count = 0
        self.foreign_salt = 0
        self.notes = {}
        self.uniforms = None
        self.trace_log = None
        self.max_draws = 4000 if self.symbolic else 100000
        self.term_label = None
        self.mark = self.emark = (0, 0)      # draws so far, at the last condition with two outcomes and at the last evaluation
        self.seen_progress, self.idle = None, 0

    def on_draw(self):
        """a run that keeps drawing but neither evaluates nor meets a condition with two outcomes goes on forever;
        the real code decides"""
        self.draws += 1
        if self.draws > self.max_draws:
            self.too_many_draws()
        if self.symbolic and self.term_label:
            d, k = self.mark
            n = self.progress()[1]
            if n != k:
                self.mark = (self.draws, n)
            elif self.draws - d > 150:
                self.too_many_draws()
            n = len(self.fapps)
            if n != self.emark[1]:
                self.emark = (self.draws, n)
            elif self.draws - self.emark[0] > 600:
                self.too_many_draws()

    def on_division(self, d):
        """numpy divides by zero where Python raises; which of them a value is, the real code knows: a zero
        denominator is a candidate for a crash"""
        f = sys._getframe(2)
        while f is not None and '/niapy/' not in f.f_code.co_filename:
            f = f.f_back
        if f is None:
            return
        n = self.ctx.ex.divisions
        k = (f.f_code.co_filename, f.f_lineno)
        n[k] += 1
        if n[k] <= 2:
            self.check(S.ne_(d, 0), '%s: division by zero in line %d of %s' % (self.term_label[:3], k[1], k[0].rsplit('/', 1)[1]))

    def on_tick(self, *a):
        """called once per second of processor time: code that computes for seconds without drawing,
        evaluating or deciding anything symbolic is taken to be stuck"""
        p = self.progress()
        self.idle = self.idle + 1 if p == self.seen_progress else 0
        self.seen_progress = p
        if self.idle >= 3 and self.term_label:
            self.idle = 0
            self.too_many_draws()

    def too_many_draws(self):
        if self.term_label:
            self.check(False, self.term_label)
        if self.symbolic:
            self.ctx.flush()
        raise OutOfBudget('draws')

    def trace(self, x):
        """an observation compared between the encoding and the real code"""
        if self.trace_log is not None:
            self.trace_log.append([v if isinstance(v, Sym) else float(v) for v in
                                   (np.ndarray.view(x, np.ndarray).ravel() if isinstance(x, np.ndarray) else [x])])

    def new_rng(self, tag):
        return Rng(self, tag)

    def np_random(self):
        return NpRandom(self)

    def foreign(self):
        if self.foreign_rng is None:
            self.foreign_rng = Rng(self, 'foreign%d' % self.foreign_salt)
        return self.foreign_rng

    def reset_foreign(self):
        """unseeded randomness is different on every run"""
        self.foreign_salt += 1
        self.foreign_rng = None

    def default_rng(self, seed=None):
        if isinstance(seed, Rng):
            return seed
        if seed is None:
            self.foreign_count += 1
            return Rng(self, 'foreign%d.%d' % (self.foreign_salt, self.foreign_count))
        if isinstance(seed, Sym) or isinstance(seed, (int, np.integer)):
            return Rng(self, 'seed%s' % (seed if not isinstance(seed, Sym) else seed.id))
        if isinstance(seed, (list, tuple, np.ndarray)):
            return Rng(self, 'seed' + '_'.join(str(s) for s in seed))
        raise TypeError('SeedSequence expects int or sequence of ints for entropy not %r' % (seed,))

    # checks shared by both modes -----------------------------------------
    def le(self, a, b, label, margin=1e-3):
        """a <= b"""
        raise NotImplementedError


# ---------------------------------------------------------------------------
class SymEnv(Env):
    symbolic = True

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.fapps = []
        self.trace_log = []

    def progress(self):
        c = self.ctx
        return self.draws, c.forked + len(c.fapps), c.steps, c.ex.stat['queries']

    # draws -------------------------------------------------------------
    def draw_real(self, name, lo=None, hi=None, closed=False):
        v = S.var(name)
        self.ctx.vars[name] = v
        g = self.ctx.guide
        if g is not None and name not in g.vals:
            g.vals[name] = float(g.conc.draw_real(name, g.ev(lo), g.ev(hi), closed))
            if '!nrm' in name:
                g.vals[name] = max(-10.0, min(10.0, g.vals[name]))
        if ('bnd', v.id) not in self.ctx.bounded:
            self.ctx.bounded.add(('bnd', v.id))
            if lo is not None:
                self.ctx.assert_(S.le_(lo, v))
            if hi is not None:
                self.ctx.assert_(S.le_(v, hi) if closed else S.lt_(v, hi))
        return v

    def nonzero(self, v):
        if ('nz', v.id) not in self.ctx.bounded:
            self.ctx.bounded.add(('nz', v.id))
            self.ctx.assert_(S.or_(S.le_(v, -1e-9), S.le_(1e-9, v)))

    def draw_int(self, name, lo, hi, distinct=None):
        if not isinstance(lo, Sym) and not isinstance(hi, Sym):
            v = S.var(name, 'I', int(lo), int(hi) - 1)
        else:
            v = S.var(name, 'I')
        self.ctx.vars[name] = v
        g = self.ctx.guide
        if g is not None and name not in g.vals:
            dd = {int(g.ev(d)) for d in distinct or ()}
            g.vals[name] = g.conc.draw_int(name, g.ev(lo), g.ev(hi), dd)
        if ('bnd', v.id) not in self.ctx.bounded:
            self.ctx.bounded.add(('bnd', v.id))
            self.ctx.assert_raw(S.mk('le', (S.lift(lo), v), 'B'))
            self.ctx.assert_raw(S.mk('le', (S.add_(v, 1), S.lift(hi)), 'B'))
            for d in distinct or ():
                c = S.ne_(v, d)
                if isinstance(c, Sym):
                    self.ctx.assert_(c)
                elif not c:
                    raise PathCut('distinct')
        return v

    def mkarray(self, vals, shape, kind):
        from .npshim import SArr
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        return a.reshape(shape).view(SArr)

    def scalar(self, v, kind):
        return v

    def asarr(self, x):
        from .npshim import toarr
        return toarr(x)

    def real(self, name, lo=None, hi=None):
        return self.draw_real('in!' + name, lo, hi, closed=True)

    def int(self, name, lo, hi):
        """lo <= v <= hi"""
        if lo == hi:
            return lo
        return self.draw_int('in!' + name, lo, hi + 1)

    def bool(self, name):
        return bool(S.cmp_('eq', self.int(name, 0, 1), 1))

    def pick(self, name, options):
        """a concrete option; all are explored"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1).__index__()]

    def vec(self, name, n, lo=None, hi=None):
        g = lambda b, i: b if b is None or not hasattr(b, '__len__') else b[i]
        return self.mkarray([self.real('%s.%d' % (name, i), g(lo, i), g(hi, i)) for i in range(n)], (n,), 'f')

    def array(self, seq):
        from .npshim import toarr
        return toarr(seq, copy=True)

    def F(self, x, name='F'):
        """uninterpreted objective"""
        from .npshim import plain
        xs = list(plain(x).ravel())
        for e in xs:
            if S.isnan(e) or S.isinf(e):
                return self.draw_real('Fnan!%d' % len(self.fapps), -FBOUND, FBOUND)
        args = [S.lift(e) for e in xs]
        args = [S.num(a.args[0], 'R') if a.op == 'const' else S.toreal(a) for a in args]
        n = S.mk('uf', (name,) + tuple(args), 'R')
        if ('bnd', n.id) not in self.ctx.bounded:
            self.ctx.bounded.add(('bnd', n.id))
            self.ctx.assert_(S.le_(-FBOUND, n))
            self.ctx.assert_(S.le_(n, FBOUND))
            self.fapps.append(n)
            self.ctx.fapps.append(n)
        return n

    # assertions ------------------------------------------------------------
    def assume(self, c):
        if isinstance(c, np.ndarray):
            from .npshim import reduce_
            c = reduce_(S.and_, c, None, False, True)
        if not isinstance(c, Sym):
            if not c:
                raise PathCut('assumption')
            return
        c = S.truth(c)
        ctx = self.ctx
        d = ctx.lookup(c)
        if d is None:
            if ctx.guide is not None and not ctx.guide.ev(c):
                ctx.guide = None
            if ctx.pos >= len(ctx.prefix):
                ctx.flush()             # assumptions are not retroactive
            ctx.assert_raw(c)
            if ctx.pos >= len(ctx.prefix) and ctx.model is None:
                r, ctx.model = ctx.sat()
                d = r != 'unsat'
            else:
                d = True
            ctx.decided[c.id] = True
        if not d:
            raise PathCut('assumption')

    def check(self, c, label, strong=None):
        if isinstance(c, np.ndarray):
            from .npshim import reduce_
            c = reduce_(S.and_, c, None, False, True)
        self.ctx.check(c, label, strong)

    def le(self, a, b, label, margin=1e-3):
        for x, y in pairs(a, b):
            if S.isnan(x) or S.isnan(y):
                self.check(False, label)
                continue
            self.check(S.le_(x, y), label, strong=S.le_(x, S.add_(y, margin)) if not (S.isinf(x) or S.isinf(y)) else None)

    def eq(self, a, b, label, margin=1e-3):
        if np.shape(a) != np.shape(b):
            self.check(False, label)
            return
        for x, y in pairs(a, b):
            if S.isnan(x) and S.isnan(y):
                continue
            if S.isinf(x) or S.isinf(y) or S.isnan(x) or S.isnan(y):
                self.check(not isinstance(x, Sym) and not isinstance(y, Sym) and x == y, label)
                continue
            d = S.sub_(x, y)
            self.check(S.eq_(x, y), label, strong=S.le_(S.abs_(d), margin) if isinstance(d, Sym) else None)

    def oneof(self, a, bs, label):
        self.check(S.disj([S.eq_(a, b) for b in bs]), label)

    def isfinite(self, a):
        return all(not (S.isnan(x) or S.isinf(x)) for x, _ in pairs(a, a))

    def reach(self, label):
        self.ctx.reached[label] += 1

    def conc(self, v):
        return v


def pairs(a, b):
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else np.ndarray.view(a, np.ndarray)
    b = np.asarray(b, dtype=object) if not isinstance(b, np.ndarray) else np.ndarray.view(b, np.ndarray)
    if a.ndim == 0 and b.ndim == 0:
        return [(a[()], b[()])]
    a, b = np.broadcast_arrays(a, b)
    return list(zip(a.ravel(), b.ravel()))


# ---------------------------------------------------------------------------
class ConcEnv(Env):
    """Same interface on floats: replays a witness against the real code."""
    symbolic = False

    def __init__(self, wit, seed=0, tol=1e-7, scramble=False):
        super().__init__()
        self.vars = dict(wit.get('vars', {}))
        self.ftab = [(np.array(a, dtype=float), v, nm) for a, v, nm in wit.get('F', [])]
        self.gen = pyrandom.Random(seed)
        self.num = float if seed % 2 else np.float64      # objective functions return either
        self.tol = tol
        self.failed = []
        self.missing = 0
        self.reached = Counter()
        self.scramble = scramble
        self.ties = True

    def progress(self):
        return self.draws, self.missing, len(self.ftab)

    def draw_real(self, name, lo=None, hi=None, closed=False):
        v = self.vars.get(name)
        if v is None or 'foreign' in name:
            self.missing += 1
            g = self.gen
            if '!nrm' in name:
                v = g.gauss(0, 1)
            elif '!cau' in name:
                v = math.tan(math.pi * (g.random() - .5))
            elif '!exp' in name or '!gam' in name:
                v = g.expovariate(1)
            elif lo is not None and hi is not None:
                lo, hi = float(lo), float(hi)
                if not name.startswith('in!') or g.random() < .8:
                    v = lo + (hi - lo) * g.random()
                else:
                    v = g.choice([lo, hi, (lo + hi) / 2])
            elif lo is not None:
                v = float(lo) + g.expovariate(1)
            else:
                v = g.gauss(0, 1)
            if 'foreign' not in name:
                self.vars[name] = v         # the same stream gives the same value again
        else:
            v = float(v)
            if lo is not None and v < lo:
                v = float(lo)
            if hi is not None and v >= hi and not closed:
                v = float(np.nextafter(float(hi), -np.inf)) if float(hi) > (float(lo) if lo is not None else -np.inf) else float(hi)
            elif hi is not None and v > hi:
                v = float(hi)
        return v

    def draw_int(self, name, lo, hi, distinct=None):
        lo, hi = int(lo), int(hi)
        v = self.vars.get(name)
        ok = v is not None and lo <= v < hi and v not in (distinct or ()) and 'foreign' not in name
        if not ok:
            self.missing += 1
            v = self.gen.choice([i for i in range(lo, hi) if i not in (distinct or ())])
            if 'foreign' not in name:
                self.vars[name] = v
        return int(v)

    def mkarray(self, vals, shape, kind):
        return np.array(vals, dtype=np.int64 if kind == 'i' else float).reshape(shape)

    def scalar(self, v, kind):
        return np.int64(v) if kind == 'i' else float(v)

    def asarr(self, x):
        return np.asarray(x)

    def array(self, seq):
        return np.array(seq, dtype=float)

    def real(self, name, lo=None, hi=None):
        return np.float64(self.draw_real('in!' + name, lo, hi, closed=True))

    def int(self, name, lo, hi):
        return lo if lo == hi else self.draw_int('in!' + name, lo, hi + 1)

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def pick(self, name, options):
        options = list(options)
        return options[0] if len(options) == 1 else options[self.int(name, 0, len(options) - 1)]

    def vec(self, name, n, lo=None, hi=None):
        g = lambda b, i: b if b is None or not hasattr(b, '__len__') else b[i]
        return np.array([self.real('%s.%d' % (name, i), g(lo, i), g(hi, i)) for i in range(n)], dtype=float)

    def F(self, x, name='F'):
        xs = np.asarray(x, dtype=float).ravel()
        for a, v, nm in self.ftab:
            if nm == name and a.shape == xs.shape and np.array_equal(a, xs):
                return self.num(v)
        best = None
        for a, v, nm in self.ftab:
            if nm == name and a.shape == xs.shape and np.all(np.abs(a - xs) <= 1e-9 * (1 + np.abs(a))):
                best = v
                break
        if best is None:
            self.missing += 1
            mode = self.vars.get('in!Fmode')
            best = self.gen.choice([-5., -1., 0., 1., 2.]) if self.ties and self.gen.random() < .3 else self.gen.gauss(0, 10)
        self.ftab.append((xs.copy(), best, name))
        return self.num(best)

    def assume(self, c):
        if not np.all(c):
            raise Diverged('assumption')

    def check(self, c, label, strong=None):
        self.reached[label] += 1
        if not np.all(c):
            raise CheckFailed(label)

    def _t(self, x, y):
        m = max([1.0] + [abs(v) for v in (float(x), float(y)) if not math.isinf(v) and not math.isnan(v)])
        return self.tol * m

    def le(self, a, b, label, margin=1e-3):
        self.reached[label] += 1
        for x, y in pairs(a, b):
            x, y = float(x), float(y)
            if not x <= y + self._t(x, y):
                raise CheckFailed(label, 'not (%r <= %r)' % (x, y))

    def eq(self, a, b, label, margin=1e-3):
        self.reached[label] += 1
        if np.shape(a) != np.shape(b):
            raise CheckFailed(label, 'shapes %r vs %r' % (np.shape(a), np.shape(b)))
        for x, y in pairs(a, b):
            x, y = float(x), float(y)
            if x == y or (math.isnan(x) and math.isnan(y)):
                continue
            if not abs(x - y) <= self._t(x, y):
                raise CheckFailed(label, '%r != %r' % (x, y))

    def oneof(self, a, bs, label):
        self.reached[label] += 1
        if not any(abs(a - b) <= self._t(float(a), float(b)) for b in bs):
            raise CheckFailed(label, '%r is none of %r' % (a, bs))

    def isfinite(self, a):
        return bool(np.all(np.isfinite(np.asarray(a, dtype=float))))

    def reach(self, label):
        self.reached[label] += 1


# ---------------------------------------------------------------------------
class Ctx:
    """one path"""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.forked = 0         # conditions decided one way of two
        self.decided = {}
        self.vars = {}
        self.bounded = set()
        self.fapps = []
        self.reached = Counter()
        self.pc = []            # asserted Syms
        self.seen = set()
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.branch_timeout)
        self.model = None
        self.pending = []
        self.nl = False
        self.steps = 0
        self.guide = None

    # constraint store -----------------------------------------------------
    def _axioms(self, c):
        new = []
        st = [c]
        while st:
            n = st.pop()
            if not isinstance(n, Sym) or n.id in self.seen:
                continue
            self.seen.add(n.id)
            if n.op == 'uf' or n.op == 'div' or (n.op == 'mul' and n.args[0].op != 'const' and n.args[1].op != 'const'):
                new.append(n)
            st.extend(n.args)
        if new:
            if any(not (n.op == 'uf' and n.args[0].startswith('F')) for n in new):
                self.nl = True
            for a in S.axioms(new, False, self.ex.strong):
                self.solver.add(a)
                self.model = None

    def assert_(self, c):
        c = S.truth(c)
        if not isinstance(c, Sym):
            if not c:
                raise PathCut('false assumption')
            return
        self.assert_raw(c)

    def assert_raw(self, c, keep_model=False):
        self._axioms(c)
        z = S.tr(c)
        self.solver.add(z)
        self.pc.append(c)
        if self.model is not None and not keep_model:
            if not z3.is_true(self.model.eval(z, model_completion=True)):
                self.model = None

    def sat(self, z=None):
        t = time.time()
        r = self.solver.check(*([z] if z is not None else []))
        self.ex.stat['solver_s'] += time.time() - t
        self.ex.stat['queries'] += 1
        if r == z3.sat:
            return 'sat', self.solver.model()
        if r == z3.unknown:
            self.ex.stat['unknown'] += 1
            return 'unknown', None
        return 'unsat', None

    # branching -------------------------------------------------------------
    def take(self, c, v):
        self.decisions.append(v)
        self.decided[c.id] = v
        if c.op == 'not':
            self.decided[c.args[0].id] = not v
        if v and c.op == 'and':
            for a in c.args:
                self._imply(a, True)
        if not v and c.op == 'not' and c.args[0].op == 'and':
            for a in c.args[0].args:
                self._imply(a, True)

    def _imply(self, c, v):
        self.decided[c.id] = v
        if c.op == 'not':
            self._imply(c.args[0], not v)
        if c.op == 'and' and v:
            for a in c.args:
                self._imply(a, True)

    def lookup(self, c):
        d = self.decided.get(c.id)
        if d is None and c.op == 'not':
            d = self.decided.get(c.args[0].id)
            d = None if d is None else not d
        if d is None and c.op == 'and':
            a, b = self.lookup(c.args[0]), self.lookup(c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
        return d

    def quick(self, c):
        return None

    def branch(self, c):
        d = self.lookup(c)
        if d is not None:
            return d
        self.steps += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.forked += 1
            self.take(c, v)
            self.assert_raw(c if v else S.not_(c))
            return v
        self.flush()
        self.pos += 1
        self.ex.tick()
        if len(self.decisions) > self.ex.max_depth:
            self.ex.stat['deep'] += 1
            raise OutOfBudget('depth')
        self._axioms(c)
        zc = S.tr(c)
        fT = fF = None
        mT = mF = None
        if self.model is not None:
            if z3.is_true(self.model.eval(zc, model_completion=True)):
                fT, mT = True, self.model
            else:
                fF, mF = True, self.model
        if fT is None:
            r, mT = self.sat(zc)
            fT = r != 'unsat'
        if fF is None:
            r, mF = self.sat(z3.Not(zc))
            fF = r != 'unsat'
        if not fT and not fF:
            raise PathCut('infeasible')
        if self.guide is not None:
            gv = bool(self.guide.ev(c))
            if not (fT if gv else fF):
                self.guide = None
        if fT and fF:
            self.forked += 1
            site = forksite()
            v = gv if self.guide is not None else self.ex.prefer(site)
            self.ex.push(self.decisions + [not v], (site, not v))
            self.ex.taken[site, v] += 1
            self.ex.stat['forks'] += 1
            if self.ex.trace_forks:
                self.ex.where[site] += 1
        else:
            v = fT
        self.take(c, v)
        self.model = mT if v else mF
        self.assert_raw(c if v else S.not_(c), keep_model=True)
        return v

    def concretize_int(self, n):
        if n.op == 'const':
            return int(n.args[0])
        r = n.rng
        if r and r[1] - r[0] < 64:
            for v in range(r[0], r[1]):
                if self.branch(S.eq_(n, v)) if isinstance(S.eq_(n, v), Sym) else S.eq_(n, v):
                    return v
            return r[1]
        for _ in range(64):
            # model-chosen values; the choice is recorded so re-execution agrees
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(v)
            else:
                self.flush()
                self.pos += 1
                if self.model is None:
                    q, self.model = self.sat()
                    if self.model is None:
                        raise OutOfBudget('concretize')
                v = self.model.eval(S.tr(n), model_completion=True).as_long() if self.guide is None else int(self.guide.ev(n))
                self.decisions.append(v)
            c = S.eq_(n, v)
            if (not isinstance(c, Sym) and c) or (isinstance(c, Sym) and self.branch(c)):
                return v
        raise OutOfBudget('too many integer values')

    # assertions ---------------------------------------------------------------
    def check(self, c, label, strong):
        self.reached[label] += 1
        c = S.truth(c)
        if self.pos < len(self.prefix):
            return      # checked by the path this one was forked from
        if not isinstance(c, Sym) and c:
            self.ex.stat['trivial'] += 1
            return
        self.pending.append((c, label, strong))

    def flush(self):
        if not self.pending:
            return
        todo, self.pending = self.pending, []
        # one query for the whole batch first
        syms = [c for c, _, _ in todo if isinstance(c, Sym)]
        if len(syms) == len(todo) and len(todo) > 1:
            bad = S.disj([S.not_(c) for c in syms])
            if not isinstance(bad, Sym):
                if bad is False:
                    return
            elif self.refute(bad, quick=True) == 'unsat':
                self.ex.stat['checks'] += len(todo)
                return
        for c, label, strong in todo:
            self.ex.stat['checks'] += 1
            bad = S.not_(c) if isinstance(c, Sym) else True
            zero = 'division by zero' in label
            if self.ex.found[label] >= (1 if zero else self.ex.max_per_label):
                continue
            r = None
            if isinstance(strong, Sym):
                r = self.refute(S.not_(strong), label=label)
            if r != 'sat':
                r = self.refute(bad, label=label)
            if r == 'unknown' and not zero:
                self.ex.stat['inconclusive'] += 1
                self.ex.inconc[label] += 1

    def refute(self, bad, label=None, quick=False):
        """is pc & bad satisfiable?  Records a witness when it is."""
        if isinstance(bad, Sym):
            self._axioms(bad)
            r, m = self.sat(S.tr(bad))
        else:
            r, m = self.sat()
        if r == 'unsat':
            return 'unsat'
        if quick and not self.nl:
            return r
        exact = not self.nl
        if self.nl:
            # now with products, quotients and roots as they are
            roots = self.pc + ([bad] if isinstance(bad, Sym) else [])
            nodes = S.subterms(roots)
            s = z3.Solver()
            s.set('timeout', self.ex.exact_timeout if not quick else min(1000, self.ex.exact_timeout))
            s.add(*[S.tr(c, True) for c in roots])
            s.add(*S.axioms(nodes, True))
            t = time.time()
            try:
                q = s.check()
            except z3.Z3Exception:
                q = z3.unknown
            self.ex.stat['solver_s'] += time.time() - t
            self.ex.stat['queries'] += 1
            self.ex.stat['exact_queries'] += 1
            if q == z3.unsat:
                return 'unsat'
            if q == z3.sat:
                m, r, exact = s.model(), 'sat', True
            else:
                r = 'unknown'
        if quick:
            return r
        if m is not None and label is not None:
            w = self.witness(m, exact, label)
            got = self.ex.candidate(w)
            return 'sat' if got or r == 'sat' else r
        return r

    def witness(self, m, exact, label):
        def val(z, sort):
            e = m.eval(z, model_completion=True)
            if sort == 'B':
                return bool(z3.is_true(e))
            if sort == 'I':
                return e.as_long()
            if z3.is_algebraic_value(e):
                e = e.approx(20)
            try:
                return float(e.as_fraction())
            except Exception:
                return 0.0
        vs = {k: val(S.tr(n, exact), n.sort) for k, n in self.vars.items()}
        F = []
        for n in self.fapps:
            F.append([[val(S.tr(a, exact), 'R') for a in n.args[1:]], val(S.tr(n, exact), 'R'), n.args[0]])
        # the true arguments, evaluated with the real elementary functions
        memo = {}
        fv = {tuple(a.id for a in n.args[1:]): f[1] for n, f in zip(self.fapps, F)}

        def fl(n, a):
            return fv.get(tuple(x.id for x in n.args[1:]), 0.0)
        try:
            names = {n.args[0] for n in self.fapps}
            for n, f in zip(list(self.fapps), list(F)):
                xs = [S.evaluate(a, vs, memo, {nm: fl for nm in names}) for a in n.args[1:]]
                xs = [float(x) for x in xs]
                if all(math.isfinite(x) for x in xs) and any(abs(p - q) > 1e-12 for p, q in zip(xs, f[0])):
                    F.append([xs, f[1], f[2]])
        except Exception:
            pass
        return {'vars': vs, 'F': F, 'label': label, 'exact': exact}


def forksite():
    import sys
    f = sys._getframe(2)
    while f:
        n = f.f_code.co_filename
        if '/niapy/' in n:
            return '%s:%d' % (n[n.rindex('/') + 1:], f.f_lineno)
        f = f.f_back
    return '?'


class Guide:
    """concrete values steering one path, so that it can be compared with the real code"""

    def __init__(self, seed):
        self.conc = ConcEnv({}, seed)
        self.conc.ties = False      # the order numpy sorts equal values in is its own business
        self.vals = {}
        self.memo = {}

    def F(self, n, a):
        return float(self.conc.F(a, n.args[0]))

    def __contains__(self, k):
        return k.startswith(('F', 'G'))

    def __getitem__(self, k):
        return self.F

    def ev(self, n):
        return S.evaluate(n, self.vals, self.memo, self) if isinstance(n, Sym) else n


class Explorer:
    def __init__(self, max_paths=2000, time_limit=60, seed=1, branch_timeout=2000, exact_timeout=4000,
                 max_depth=4000, on_candidate=None, max_per_label=3, strong=False):
        self.max_paths, self.time_limit = max_paths, time_limit
        self.branch_timeout, self.exact_timeout = branch_timeout, exact_timeout
        self.max_depth = max_depth
        self.rnd = pyrandom.Random(seed)
        self.work = []
        self.stat = Counter()
        self.found = Counter()
        self.inconc = Counter()
        self.reached = Counter()
        self.unsupported = Counter()
        self.errors = []
        self.cands = []
        self.max_per_label = max_per_label
        self.on_candidate = on_candidate
        self.stop = False
        self.strong = strong
        self.trace_forks = bool(os.environ.get('VF_TRACE'))
        self.where = Counter()
        self.taken = Counter()
        self.divisions = Counter()
        self.samples = []
        self.traces = []
        self.max_traces = 0
        self.bfs = 0.5
        self.exhausted = False

    def prefer(self, site):
        a, b = self.taken[site, True], self.taken[site, False]
        if a != b and self.rnd.random() < 0.3:
            return a < b
        return self.rnd.random() < 0.5

    def push(self, prefix, key=None):
        self.work.append((prefix, key))

    def pop(self):
        """mostly depth first; otherwise an open branch of a place in the code least often taken that way"""
        w = self.work
        k = len(w) - 1
        if self.rnd.random() >= self.bfs:
            best = None
            for _ in range(min(48, len(w))):
                i = self.rnd.randrange(len(w))
                c = self.taken.get(w[i][1], 0)
                if best is None or c < best:
                    best, k = c, i
        prefix, key = w.pop(k)
        if key is not None:
            self.taken[key] += 1
        return prefix

    def tick(self):
        if time.time() > self.t_end:
            raise OutOfBudget('time')

    def candidate(self, w):
        """returns True when the witness reproduced on the real code"""
        self.found[w['label']] += 1
        self.cands.append(w)
        if self.on_candidate:
            if self.on_candidate(w):
                self.stop = True
                return True
        return False

    def run(self, fn):
        """fn(env) is executed once per path"""
        self.t_end = time.time() + self.time_limit
        self.work = [([], None)]
        n = 0
        while self.work and not self.stop:
            if n >= self.max_paths or time.time() > self.t_end:
                break
            prefix = self.pop()
            n += 1
            ctx = Ctx(self, prefix)
            if n <= self.max_traces and not prefix:
                ctx.guide = Guide(self.rnd.randrange(10 ** 6))
            S.CTX = ctx
            env = SymEnv(ctx)
            done = False
            try:
                fn(env)
                ctx.flush()
                done = True
                if ctx.guide is not None and env.trace_log:
                    self.keep_trace(ctx, env)
                self.stat['completed'] += 1
                if ctx.reached:
                    self.stat['live'] += 1
            except PathCut:
                self.stat['cut'] += 1
            except Unsupported as e:
                self.unsupported[str(e)] += 1
                self._late_flush(ctx)
            except OutOfBudget as e:
                self.stat['truncated'] += 1
                self._late_flush(ctx)
                if time.time() > self.t_end:
                    self.work.append((prefix, None))
            except EngineStop as e:
                self.stat['stopped'] += 1
            except Exception as e:          # harnesses turn code exceptions into checks; anything else is ours
                import traceback
                self.errors.append(traceback.format_exc()[-1500:])
            finally:
                S.CTX = None
            self.reached.update(ctx.reached)
            self.stat['paths'] += 1
            self.stat['decisions'] += len(ctx.decisions)
            if done and len(self.samples) < 2 and ctx.decisions:
                self.samples.append({'decisions': len(ctx.decisions), 'symbols': len(ctx.vars), 'constraints': len(ctx.pc)})
            if len(S._table) > 1500000:
                S.reset_terms()
        self.exhausted = not self.work and not self.stop and not self.stat['truncated'] and not self.unsupported and not self.errors
        return self

    def keep_trace(self, ctx, env):
        """what the encoding says happens on a concrete run"""
        g = ctx.guide
        try:
            t = [[float(g.ev(v)) for v in row] for row in env.trace_log]
            F = [[[float(g.ev(a)) for a in n.args[1:]], float(g.ev(n)), n.args[0]] for n in ctx.fapps]
        except (OverflowError, ZeroDivisionError, ValueError):
            return
        self.traces.append({'wit': {'vars': g.vals, 'F': F}, 'trace': t})

    def _late_flush(self, ctx):
        try:
            ctx.flush()
        except EngineStop:
            pass
