"""IEEE-754 double precision: runs real code on arrays of z3 floating-point terms, with the real numpy.

Comparisons fork by re-execution, arithmetic rounds to nearest even as the hardware does. Small and self-contained: meant for straight
code on a few numbers (repair functions), where the last bit decides whether a bound is respected."""
import time

import numpy as np

from . import z3load            # noqa: F401
import z3

D = z3.Float64()
RNE = z3.RNE()
RUN = None


class Stuck(BaseException):
    pass


def val(v):
    return v.e if isinstance(v, FP) else z3.FPVal(float(v), D)


def isfp(o):
    return isinstance(o, (FP, int, float, np.floating, np.integer)) and not isinstance(o, (bool, np.bool_))


class FP:
    __slots__ = ('e',)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def _op(f, swap=False):
        def g(self, o):
            if not isfp(o):
                return NotImplemented
            a, b = (val(o), self.e) if swap else (self.e, val(o))
            return FP(f(a, b))
        return g
    __add__ = _op(lambda a, b: z3.fpAdd(RNE, a, b))
    __radd__ = _op(lambda a, b: z3.fpAdd(RNE, a, b), True)
    __sub__ = _op(lambda a, b: z3.fpSub(RNE, a, b))
    __rsub__ = _op(lambda a, b: z3.fpSub(RNE, a, b), True)
    __mul__ = _op(lambda a, b: z3.fpMul(RNE, a, b))
    __rmul__ = _op(lambda a, b: z3.fpMul(RNE, a, b), True)
    __truediv__ = _op(lambda a, b: z3.fpDiv(RNE, a, b))
    __rtruediv__ = _op(lambda a, b: z3.fpDiv(RNE, a, b), True)

    def __mod__(self, o):
        return FP(RUN.mod(self.e, val(o))) if isfp(o) else NotImplemented

    def __rmod__(self, o):
        return FP(RUN.mod(val(o), self.e)) if isfp(o) else NotImplemented

    def __neg__(self): return FP(z3.fpNeg(self.e))
    def __pos__(self): return self
    def __abs__(self): return FP(z3.fpAbs(self.e))
    fabs = __abs__
    def copy(self): return self
    def __lt__(self, o): return RUN.decide(z3.fpLT(self.e, val(o)))
    def __le__(self, o): return RUN.decide(z3.fpLEQ(self.e, val(o)))
    def __gt__(self, o): return RUN.decide(z3.fpGT(self.e, val(o)))
    def __ge__(self, o): return RUN.decide(z3.fpGEQ(self.e, val(o)))
    def __eq__(self, o): return RUN.decide(z3.fpEQ(self.e, val(o)))
    def __ne__(self, o): return RUN.decide(z3.Not(z3.fpEQ(self.e, val(o))))
    def __bool__(self): return RUN.decide(z3.Not(z3.fpIsZero(self.e)))


class Rng:
    """draws of numpy.random.Generator by their contract"""
    def random(self, size=None):
        return self.fill(size, lambda: RUN.fresh(0.0, 1.0, True))

    def uniform(self, low=0.0, high=1.0, size=None):
        # low + (high - low) * random(): rounding cannot pass high, see DESIGN.md
        if size is None and (np.ndim(low) or np.ndim(high)):
            lo, hi = np.broadcast_arrays(low, high)
            out = np.empty(lo.shape, dtype=object)
            for i in np.ndindex(lo.shape):
                out[i] = self.uniform(lo[i], hi[i])
            return out
        return self.fill(size, lambda: RUN.between(low, high))

    @staticmethod
    def fill(size, f):
        if size is None:
            return f()
        out = np.empty(size, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = f()
        return out


class Run:
    """every path of fn(run), forking at comparisons; run.check collects what must hold"""

    def __init__(self, t_end, timeout, stat):
        self.t_end, self.timeout, self.stat = t_end, timeout, stat
        self.ms = self.stat_checks = 0

    def var(self, name, lo, hi):
        v = z3.FP(name, D)
        self.vars[name] = v
        self.pc += [z3.fpLEQ(z3.FPVal(lo, D), v), z3.fpLEQ(v, z3.FPVal(hi, D))]
        return FP(v)

    def fresh(self, lo, hi, strict=False):
        self.n += 1
        v = z3.FP('fresh!%d' % self.n, D)
        self.pc += [z3.fpLEQ(z3.FPVal(lo, D), v), (z3.fpLT if strict else z3.fpLEQ)(v, z3.FPVal(hi, D))]
        return FP(v)

    def between(self, lo, hi):
        self.n += 1
        v = z3.FP('fresh!%d' % self.n, D)
        self.pc += [z3.fpLEQ(val(lo), v), z3.fpLEQ(v, val(hi))]
        return FP(v)

    def mod(self, x, w):
        """python and numpy: the remainder takes the sign of the divisor. Exact where |x| <= 2|w|; beyond that a value of the right range"""
        k = (str(x), str(w))
        if k in self.mods:
            return self.mods[k]
        zero = z3.FPVal(0.0, D)
        ax, aw = z3.fpAbs(x), z3.fpAbs(w)
        w2 = z3.fpMul(RNE, z3.FPVal(2.0, D), aw)
        far = self.fresh(0.0, 1.7e308).e
        self.pc.append(z3.Implies(z3.Not(z3.fpIsZero(aw)), z3.fpLT(far, aw)))
        # |x| mod |w|: subtraction is exact for |w| <= |x| <= 2|w| (Sterbenz)
        m = z3.If(z3.fpLT(ax, aw), ax, z3.If(z3.fpLEQ(ax, w2), z3.fpSub(RNE, ax, aw), far))
        m = z3.If(z3.fpEQ(m, aw), zero, m)
        m = z3.If(z3.fpIsNegative(x), z3.fpNeg(m), m)
        same = z3.fpIsNegative(m) == z3.fpIsNegative(w)
        r = z3.If(z3.fpIsZero(w), z3.fpNaN(D), z3.If(z3.Or(z3.fpIsZero(m), same), m, z3.fpAdd(RNE, m, w)))
        self.mods[k] = r
        return r

    def ask(self, extra, timeout=None):
        left = self.t_end - time.time()
        if left <= 0:
            return 'unknown', None
        s = z3.SolverFor('QF_FP')
        s.set('timeout', int(1000 * min(timeout or self.timeout, left)))
        s.add(*self.pc)
        s.add(*extra)
        t = time.time()
        r = str(s.check())
        self.stat['queries'] += 1
        self.ms += 1000 * (time.time() - t)
        return r, s.model() if r == 'sat' else None

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        i = len(self.taken)
        if i > 60:
            raise Stuck('depth')
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            if time.time() > self.t_end:
                raise Stuck('time')
            can = [v for v in (True, False) if self.ask([c if v else z3.Not(c)], 3)[0] != 'unsat']
            if not can:
                raise Stuck('infeasible')
            b = can[0]
            if len(can) == 2:
                self.work.append(self.taken + [False])
        self.taken = self.taken + [b]
        self.pc.append(c if b else z3.Not(c))
        self.stat['decisions'] += 1
        return b

    def check(self, c, label):
        """c: z3 boolean"""
        self.stat_checks += 1
        r, m = self.ask([z3.Not(c)])
        if r == 'unknown':
            self.inconclusive.append(label)
        elif r == 'sat':
            self.bad.append((label, {n: number(m.eval(v, True)) for n, v in self.vars.items()}))

    def explore(self, fn):
        global RUN
        self.work, self.bad, self.inconclusive, self.open, self.paths = [[]], [], [], 0, 0
        while self.work and not self.bad:
            if time.time() > self.t_end:
                self.open = len(self.work)
                break
            self.prefix = self.work.pop()
            self.taken, self.pc, self.vars, self.n, self.mods = [], [], {}, 0, {}
            RUN = self
            try:
                fn(self)
                self.paths += 1
            except Stuck as e:
                if str(e) != 'infeasible':
                    self.open += 1
            finally:
                RUN = None
        return self


def number(m):
    if z3.is_fp_value(m):
        b = z3.simplify(z3.fpToIEEEBV(m)).as_long()
        return float(np.array([b], dtype=np.uint64).view(np.float64)[0])
    raise ValueError(m)
