"""Symbolic values and the path explorer.

A Sym is a hash-consed term over reals (R), ints (I) and booleans (B).  The
real source code of the repository is executed on these values; `bool(Sym)`
asks the explorer which way to go and the explorer enumerates, by
re-execution, every decision sequence the solver cannot refute.
"""
import math
import sys
import time
from fractions import Fraction

import numpy as np
from .z3load import z3

sys.setrecursionlimit(100000)


class EngineStop(BaseException):
    """Control flow of the engine (never an outcome of the code under test)."""


class Unsupported(EngineStop):
    pass


class PathCut(EngineStop):
    """The path left the stated scope of the harness (assumption failed)."""


class OutOfBudget(EngineStop):
    pass


# --------------------------------------------------------------------------
# terms
_table = {}
CTX = None          # active path context


def reset_terms():
    _table.clear()


def isnum(v):
    return isinstance(v, (int, float, np.integer, np.floating, np.bool_, Fraction)) and not isinstance(v, Sym)


def tofrac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, np.integer)):
        return Fraction(int(v))
    return Fraction(float(v))


ON_DIVISION = [None]        # called with the denominator of a division of scalars: Python raises where numpy does not


class Sym:
    __slots__ = ('op', 'args', 'sort', 'key', 'id', 'z', 'zx', 'rng', '__weakref__')
    shape = ()
    ndim = 0
    size = 1
    __array_priority__ = 1000.0

    def __hash__(self):
        return self.id

    # --- python protocol -------------------------------------------------
    def __bool__(self):
        if self.sort == 'B':
            return CTX.branch(self)
        return CTX.branch(cmp_('ne', self, 0))

    def __index__(self):
        if self.sort == 'B':
            return int(bool(self))
        if self.sort != 'I':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.concretize_int(self)

    def __int__(self):
        if self.sort == 'B':
            return int(bool(self))
        return CTX.concretize_int(trunc_(self))

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __repr__(self):
        return show(self, 4)

    def __format__(self, spec):
        return repr(self)

    # --- array-scalar protocol ------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.array_ufunc(ufunc, method, inputs, kw)

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self, *a):
        return self

    def astype(self, t, **k):
        from . import npshim
        return npshim.cast(self, t)

    def sum(self, *a, **k):
        return self
    min = max = mean = squeeze = flatten = sum

    def tolist(self):
        return self

    def any(self, *a, **k):
        return truth(self)
    all = any

    @property
    def dtype(self):
        return np.dtype({'R': float, 'I': int, 'B': bool}[self.sort])

    @property
    def real(self):
        return self

    def is_integer(self):
        return cmp_('eq', floor_(self), self)

    # --- operators -------------------------------------------------------
    def __add__(self, o): return _bin(add_, self, o)
    def __radd__(self, o): return _bin(add_, o, self)
    def __sub__(self, o): return _bin(sub_, self, o)
    def __rsub__(self, o): return _bin(sub_, o, self)
    def __mul__(self, o): return _bin(mul_, self, o)
    def __rmul__(self, o): return _bin(mul_, o, self)
    def __truediv__(self, o):
        if ON_DIVISION[0] is not None and (isinstance(o, Sym) or (isinstance(o, (int, float)) and o == 0 and not isinstance(o, np.generic))):
            ON_DIVISION[0](o)
        return _bin(div_, self, o)

    def __rtruediv__(self, o):
        if ON_DIVISION[0] is not None and not isinstance(o, np.ndarray):
            ON_DIVISION[0](self)
        return _bin(div_, o, self)
    def __floordiv__(self, o): return _bin(floordiv_, self, o)
    def __rfloordiv__(self, o): return _bin(floordiv_, o, self)
    def __mod__(self, o): return _bin(mod_, self, o)
    def __rmod__(self, o): return _bin(mod_, o, self)
    def __pow__(self, o): return _bin(pow_, self, o)
    def __rpow__(self, o): return _bin(pow_, o, self)
    def __divmod__(self, o): return floordiv_(self, o), mod_(self, o)
    def __neg__(self): return neg_(self)
    def __pos__(self): return self
    def __abs__(self): return abs_(self)
    def __invert__(self): return not_(self)
    def __and__(self, o): return _bin(and_, self, o)
    def __rand__(self, o): return _bin(and_, o, self)
    def __or__(self, o): return _bin(or_, self, o)
    def __ror__(self, o): return _bin(or_, o, self)
    def __xor__(self, o): return _bin(xor_, self, o)
    def __rxor__(self, o): return _bin(xor_, o, self)
    def __lt__(self, o): return _bin(lt_, self, o)
    def __le__(self, o): return _bin(le_, self, o)
    def __gt__(self, o): return _bin(gt_, self, o)
    def __ge__(self, o): return _bin(ge_, self, o)

    def __eq__(self, o):
        return _bin(eq_, self, o)

    def __ne__(self, o):
        return _bin(ne_, self, o)

    def __round__(self, n=None):
        return round_(self, n)

    def __floor__(self): return floor_(self)
    def __ceil__(self): return neg_(floor_(neg_(self)))
    def __trunc__(self): return trunc_(self)


def _bin(f, a, b):
    for v in (a, b):
        if isinstance(v, np.ndarray):
            from . import npshim
            return npshim.elementwise(f, a, b)
        if isinstance(v, (list, tuple)):        # numpy scalars coerce sequences
            from . import npshim
            return npshim.elementwise(f, *[npshim.toarr(x) if isinstance(x, (list, tuple)) else x for x in (a, b)])
        if not isinstance(v, Sym) and not isnum(v):
            return NotImplemented
    return f(a, b)


def mk(op, args, sort, rng=None):
    key = (op,) + tuple(a.id if isinstance(a, Sym) else (type(a).__name__ if isinstance(a, str) else 'n', a) for a in args)
    n = _table.get(key)
    if n is None:
        n = object.__new__(Sym)
        n.op, n.args, n.sort, n.key = op, args, sort, key
        n.id = len(_table) + 1
        n.z = n.zx = None
        n.rng = rng
        _table[key] = n
    return n


def var(name, sort='R', lo=None, hi=None):
    return mk('var', (name, sort), sort, rng=(lo, hi) if sort == 'I' and lo is not None and hi is not None else None)


def num(v, want=None):
    """constant node"""
    if isinstance(v, (bool, np.bool_)) and want != 'R':
        return mk('const', (bool(v),), 'B')
    f = tofrac(v)
    sort = 'I' if (isinstance(v, (int, np.integer)) and want != 'R') else 'R'
    return mk('const', (f, sort), sort)


def isinf(v):
    return isinstance(v, (float, np.floating)) and math.isinf(v)


def isnan(v):
    return isinstance(v, (float, np.floating)) and math.isnan(v)


def lift(v):
    return v if isinstance(v, Sym) else num(v)


def asnum(v):
    """bool-sorted syms as 0/1"""
    if isinstance(v, Sym) and v.sort == 'B':
        return ite(v, 1, 0)
    return v


def truth(v):
    if isinstance(v, Sym):
        return v if v.sort == 'B' else cmp_('ne', v, 0)
    return bool(v)


def joinsort(a, b):
    sa = a.sort if isinstance(a, Sym) else ('I' if isinstance(a, (int, np.integer, bool, np.bool_)) else 'R')
    sb = b.sort if isinstance(b, Sym) else ('I' if isinstance(b, (int, np.integer, bool, np.bool_)) else 'R')
    return 'I' if sa in 'IB' and sb in 'IB' else 'R'


def _pynum(v):
    if isinstance(v, np.generic):
        return v.item()
    return v


def cf(f, *a):
    """constant arithmetic as the code under test would do it (floats)"""
    with np.errstate(all='ignore'):
        return f(*[np.float64(x) if isinstance(x, (float, Fraction)) else x for x in a])


def irange(a):
    if isinstance(a, Sym):
        return a.rng
    if isinstance(a, (int, np.integer, bool, np.bool_)):
        return (int(a), int(a))
    return None


def add_(a, b):
    a, b = asnum(a), asnum(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return cf(lambda x, y: x + y, a, b)
    for x in (a, b):
        if isnan(x) or isinf(x):
            return float(x)
    if not isinstance(a, Sym) and a == 0 and (b.sort == 'R' or isinstance(a, int)):
        return b
    if not isinstance(b, Sym) and b == 0 and (a.sort == 'R' or isinstance(b, int)):
        return a
    s = joinsort(a, b)
    r = None
    if s == 'I':
        ra, rb = irange(a), irange(b)
        if ra and rb:
            r = (ra[0] + rb[0], ra[1] + rb[1])
    return mk('add', (lift(a), lift(b)), s, r)


def neg_(a):
    a = asnum(a)
    if not isinstance(a, Sym):
        return -a
    if a.op == 'neg':
        return a.args[0]
    r = irange(a) if a.sort == 'I' else None
    return mk('neg', (a,), a.sort, (-r[1], -r[0]) if r else None)


def sub_(a, b):
    a, b = asnum(a), asnum(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return cf(lambda x, y: x - y, a, b)
    if isnan(a) or isnan(b):
        return math.nan
    if isinf(a):
        return float(a)
    if isinf(b):
        return -float(b)
    if a is b:
        return 0 if a.sort == 'I' else 0.0
    if not isinstance(b, Sym) and b == 0 and (a.sort == 'R' or isinstance(b, int)):
        return a
    if not isinstance(a, Sym) and a == 0:
        return neg_(b)
    s = joinsort(a, b)
    r = None
    if s == 'I':
        ra, rb = irange(a), irange(b)
        if ra and rb:
            r = (ra[0] - rb[1], ra[1] - rb[0])
    return mk('sub', (lift(a), lift(b)), s, r)


def isboolean(v):
    return isinstance(v, (bool, np.bool_)) or (isinstance(v, Sym) and v.sort == 'B')


def mul_(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isboolean(a) and isboolean(b):
            return and_(a, b)
    a, b = asnum(a), asnum(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return cf(lambda x, y: x * y, a, b)
    for x, y in ((a, b), (b, a)):
        if isnan(x):
            return math.nan
        if isinf(x):
            if bool(cmp_('eq', y, 0)):
                return math.nan
            return float(x) if bool(cmp_('lt', 0, y)) else -float(x)
        if not isinstance(x, Sym):
            if x == 1 and (y.sort == 'R' or isinstance(x, int)):
                return y
            if x == 0:
                return 0 if (y.sort == 'I' and isinstance(x, int)) else 0.0
            if x == -1 and (y.sort == 'R' or isinstance(x, int)):
                return neg_(y)
    s = joinsort(a, b)
    a, b = lift(a), lift(b)
    if a.op == 'ite' and b.op == 'const':
        # push constants into 0/1 guards:  ite(c,x,y)*k
        pass
    if s == 'R':
        for x, y in ((a, b), (b, a)):
            # an integer multiple of an integer stays recognisably integral: k * (q * toreal(n))
            if x.op == 'const' and y.op in ('mul', 'toreal'):
                q, n = 1, y
                if y.op == 'mul':
                    q, n = (y.args if y.args[0].op == 'const' else y.args[::-1])
                    q = q.args[0] if q.op == 'const' else None
                if q is not None and n.op == 'toreal':
                    k = tofrac(x.args[0]) * tofrac(q)
                    if k.denominator == 1:
                        return toreal(mul_(int(k), n.args[0]))
    if a.id > b.id:
        a, b = b, a
    r = None
    if s == 'I':
        ra, rb = irange(a), irange(b)
        if a.op == 'const':
            ra = (int(a.args[0]),) * 2
        if b.op == 'const':
            rb = (int(b.args[0]),) * 2
        if ra and rb:
            c = [x * y for x in ra for y in rb]
            r = (min(c), max(c))
    return mk('mul', (a, b), s, r)


def div_(a, b):
    a, b = asnum(a), asnum(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return cf(lambda x, y: np.true_divide(x, y), a, b)
    if isnan(a) or isnan(b):
        return math.nan
    if isinf(b):
        return 0.0
    if isinstance(b, Sym):
        if bool(cmp_('eq', b, 0)):
            # numpy semantics; the sign of a zero denominator is not modelled (+0)
            if isinf(a):
                return float(a)
            if bool(cmp_('eq', a, 0)):
                return math.nan
            return math.inf if bool(cmp_('lt', 0, a)) else -math.inf
    else:
        if b == 0:
            if isinf(a) or not isinstance(a, Sym):
                return cf(np.true_divide, a, b)
            if bool(cmp_('eq', a, 0)):
                return math.nan
            return math.inf if bool(cmp_('lt', 0, a)) else -math.inf
    if isinf(a):
        return float(a) if bool(cmp_('lt', 0, b)) else -float(a)
    if not isinstance(b, Sym):
        if b == 1:
            return toreal(a)
        return mul_(num(Fraction(1) / tofrac(b)), toreal(a))
    if not isinstance(a, Sym) and a == 0:
        return 0.0
    if a is b:
        return 1.0
    return mk('div', (lift(a), lift(b)), 'R')


def toreal(a):
    if isinstance(a, Sym):
        if a.sort == 'I':
            return mk('toreal', (a,), 'R')
        return asnum(a)
    return float(a)


def floor_(a):
    """floor, as a real-valued float (np.floor)"""
    a = asnum(a)
    if not isinstance(a, Sym):
        return cf(np.floor, a)
    if a.sort == 'I' or a.op == 'toreal':
        return toreal(a)
    return toreal(mk('toint', (a,), 'I'))


def toint_floor(a):
    if a.sort == 'I':
        return a
    if a.op == 'toreal':
        return a.args[0]
    return mk('toint', (a,), 'I')


def trunc_(a):
    """int(a)"""
    a = asnum(a)
    if not isinstance(a, Sym):
        return int(a)
    if a.sort == 'I':
        return a
    if a.op == 'toreal':
        return a.args[0]
    return ite(cmp_('le', 0, a), toint_floor(a), neg_(toint_floor(neg_(a))))


def round_(a, n=None):
    a = asnum(a)
    if not isinstance(a, Sym):
        return round(a, n) if n is not None else round(a)
    if a.sort == 'I':
        return a
    if n not in (None, 0):
        k = 10 ** n
        return div_(rint_(mul_(a, k)), k)
    return trunc_(rint_(a))


def rint_(a):
    """round half to even, float result"""
    if not isinstance(a, Sym):
        return cf(np.rint, a)
    if a.sort == 'I' or a.op == 'toreal':
        return toreal(a)
    h = toint_floor(add_(a, 0.5))
    tie = cmp_('eq', toreal(h), add_(a, 0.5))
    odd = cmp_('eq', mk('imod', (h, num(2)), 'I', (0, 1)), 1)
    return toreal(ite(and_(tie, odd), sub_(h, 1), h))


def floordiv_(a, b):
    a, b = asnum(a), asnum(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return cf(lambda x, y: x // y, a, b)
    if joinsort(a, b) == 'I':
        if not isinstance(b, Sym) and b > 0:
            r = irange(a)
            return mk('idiv', (lift(a), lift(b)), 'I', (r[0] // b, r[1] // b) if r else None)
        q = div_(a, b)
        return toint_floor(q) if isinstance(q, Sym) else math.floor(q)
    return floor_(div_(a, b))


def mod_(a, b):
    a, b = asnum(a), asnum(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return cf(lambda x, y: x % y, a, b)
    if joinsort(a, b) == 'I' and not isinstance(b, Sym) and b > 0:
        return mk('imod', (lift(a), lift(b)), 'I', (0, int(b) - 1))
    if isinf(a) or isnan(a) or isnan(b):
        return math.nan
    if isinf(b):
        return a if bool(cmp_('le', 0, a)) == (b > 0) else float(b)
    if isinstance(b, Sym):
        if bool(cmp_('eq', b, 0)):
            return math.nan
    elif b == 0:
        return math.nan
    # python/numpy: result has the sign of b
    return sub_(toreal(a), mul_(b, floor_(div_(a, b))))


def fmod_(a, b):
    a, b = asnum(a), asnum(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return cf(np.fmod, a, b)
    q = div_(a, b)
    t = trunc_(q) if isinstance(q, Sym) else math.trunc(q)
    return sub_(toreal(a), mul_(b, toreal(t) if isinstance(t, Sym) else float(t)))


def pow_(a, b):
    a, b = asnum(a), asnum(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return cf(lambda x, y: x ** y, a, b)
    if isnan(a) or isnan(b):
        return math.nan
    if not isinstance(b, Sym):
        b = _pynum(b)
        if b == int(b) if not math.isinf(b) else False:
            e = int(b)
            if 0 <= e <= 32:
                return ipow(a, e, isinstance(b, float))
            if -32 <= e < 0:
                return div_(1.0, ipow(a, -e, True))
        if b == 0.5:
            return uf('sqrt', a)
        if b == -0.5:
            return div_(1.0, uf('sqrt', a))
        if isinf(b):
            raise Unsupported('pow with infinite exponent')
    elif not isinstance(a, Sym):
        a = _pynum(a)
        if isinf(a):
            raise Unsupported('pow with infinite base')
        if a == 1:
            return 1.0
    return uf('pow', a, b)


def ipow(a, e, fl=False):
    if e == 0:
        return 1.0 if fl or a.sort == 'R' else 1
    r = a
    # left-to-right products share subterms
    parts, base, k = None, a, e
    while k:
        if k & 1:
            parts = base if parts is None else mul_(parts, base)
        k >>= 1
        if k:
            base = mul_(base, base)
    r = parts
    return toreal(r) if fl else r


UF_EVAL = {
    'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan,
    'exp': lambda x: math.exp(min(x, 700.0)) if x > -745 else 0.0,
    'log': lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan),
    'log2': lambda x: math.log2(x) if x > 0 else (-math.inf if x == 0 else math.nan),
    'log10': lambda x: math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan),
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
    'arcsin': lambda x: math.asin(x) if abs(x) <= 1 else math.nan,
    'arccos': lambda x: math.acos(x) if abs(x) <= 1 else math.nan,
    'arctan': math.atan, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
    'gamma': lambda x: math.gamma(x),
    'pow': lambda x, y: float(np.float64(x) ** np.float64(y)),
    'arctan2': math.atan2,
    'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x),
}


def uf(name, *args):
    args = [asnum(a) for a in args]
    if not any(isinstance(a, Sym) for a in args):
        try:
            return cf(getattr(np, name), *args) if hasattr(np, name) else UF_EVAL[name](*args)
        except (ValueError, OverflowError):
            return math.nan
    for a in args:
        if isnan(a):
            return math.nan
        if isinf(a):
            raise Unsupported('%s of infinity mixed with symbols' % name)
    args = tuple(toreal(lift(a)) if lift(a).sort != 'R' else lift(a) for a in args)
    if name == 'sqrt':
        a = args[0]
        if a.op == 'mul' and a.args[0] is a.args[1]:
            return abs_(a.args[0])
        if not nonneg(a) and bool(cmp_('lt', a, 0)):
            return math.nan
    if name in ('log', 'log2', 'log10'):
        if not bool(cmp_('lt', 0, args[0])):
            return -math.inf if bool(cmp_('eq', args[0], 0)) else math.nan
    if name == 'pow':
        if bool(cmp_('lt', args[0], 0)):
            return math.nan     # non-integer exponent
        if bool(cmp_('eq', args[0], 0)):
            if bool(cmp_('lt', args[1], 0)):
                return math.inf
            return 1.0 if bool(cmp_('eq', args[1], 0)) else 0.0
    return mk('uf', (name,) + args, 'R')


def abs_(a):
    a = asnum(a)
    if not isinstance(a, Sym):
        return abs(a)
    return ite(cmp_('le', 0, a), a, neg_(a))


def sign_(a):
    a = asnum(a)
    if not isinstance(a, Sym):
        return np.sign(a)
    return ite(cmp_('lt', 0, a), 1.0, ite(cmp_('lt', a, 0), -1.0, 0.0))


def min_(a, b):
    a, b = asnum(a), asnum(b)
    if isnan(a) or isnan(b):
        return math.nan
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a if a <= b else b
    return ite(cmp_('le', a, b), a, b)


def max_(a, b):
    a, b = asnum(a), asnum(b)
    if isnan(a) or isnan(b):
        return math.nan
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a if a >= b else b
    return ite(cmp_('le', b, a), a, b)


# --- booleans -------------------------------------------------------------
def cmp_(op, a, b):
    """op in lt, le, eq, ne"""
    a, b = asnum(a), asnum(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return {'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[op]
    if isnan(a) or isnan(b):
        return op == 'ne'
    if isinf(a):
        return {'lt': a < 0, 'le': a < 0, 'eq': False, 'ne': True}[op]
    if isinf(b):
        return {'lt': b > 0, 'le': b > 0, 'eq': False, 'ne': True}[op]
    if a is b:
        return op in ('le', 'eq')
    ra, rb = irange(a), irange(b)
    if ra and rb and joinsort(a, b) == 'I':
        if op in ('lt', 'le'):
            if (ra[1] < rb[0]) if op == 'lt' else (ra[1] <= rb[0]):
                return True
            if (ra[0] >= rb[1]) if op == 'lt' else (ra[0] > rb[1]):
                return False
        elif ra[1] < rb[0] or rb[1] < ra[0]:
            return op == 'ne'
        elif ra == rb and ra[0] == ra[1]:
            return op == 'eq'
    a, b = lift(a), lift(b)
    # square roots compared with constants and with each other: compare the squares
    if a.op == 'uf' and a.args[0] == 'sqrt' and b.op == 'uf' and b.args[0] == 'sqrt':
        return cmp_(op, a.args[1], b.args[1])
    if a.op == 'uf' and a.args[0] == 'sqrt' and b.op == 'const':
        c = tofrac(b.args[0])
        return cmp_(op, a.args[1], num(c * c)) if c >= 0 else op == 'ne'
    if b.op == 'uf' and b.args[0] == 'sqrt' and a.op == 'const':
        c = tofrac(a.args[0])
        return cmp_(op, num(c * c), b.args[1]) if c >= 0 else op != 'eq'
    # ite(c, const, const) vs const
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.op == 'ite' and y.op == 'const' and x.args[1].op == 'const' and x.args[2].op == 'const':
            f = lambda p: (cmpc(op, y.args[0], p) if sw else cmpc(op, p, y.args[0]))
            t, e = f(x.args[1].args[0]), f(x.args[2].args[0])
            if t and e:
                return True
            if not t and not e:
                return False
            return x.args[0] if t else not_(x.args[0])
    if op == 'ne':
        return not_(cmp_('eq', a, b))
    if op == 'eq' and a.id > b.id:
        a, b = b, a
    if op == 'lt':
        return not_(mk('le', (b, a), 'B'))
    return mk(op, (a, b), 'B')


def cmpc(op, a, b):
    return {'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[op]


def lt_(a, b): return cmp_('lt', a, b)
def le_(a, b): return cmp_('le', a, b)
def gt_(a, b): return cmp_('lt', b, a)
def ge_(a, b): return cmp_('le', b, a)


def eq_(a, b):
    if isinstance(a, Sym) and isinstance(b, Sym) and a.sort == b.sort == 'B':
        return not_(xor_(a, b))
    return cmp_('eq', a, b)


def ne_(a, b): return not_(eq_(a, b))


def not_(a):
    if not isinstance(a, Sym):
        if isinstance(a, (bool, np.bool_)):
            return not a
        return ~a
    if a.sort == 'I':
        return sub_(-1, a)
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def and_(a, b):
    if isinstance(a, Sym) and a.sort == 'I' or isinstance(b, Sym) and b.sort == 'I':
        raise Unsupported('integer bit operation')
    a, b = truth(a), truth(b)
    if not isinstance(a, Sym):
        return b if a else False
    if not isinstance(b, Sym):
        return a if b else False
    if a is b:
        return a
    if a is not_(b):
        return False
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), 'B')


def or_(a, b):
    return not_(and_(not_(truth(a)), not_(truth(b))))


def xor_(a, b):
    a, b = truth(a), truth(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return bool(a) != bool(b)
    if not isinstance(a, Sym):
        return not_(b) if a else b
    if not isinstance(b, Sym):
        return not_(a) if b else a
    if a is b:
        return False
    return mk('xor', (a, b), 'B')


def ite(c, a, b):
    if not isinstance(c, Sym):
        return a if c else b
    if c.sort != 'B':
        c = truth(c)
        if not isinstance(c, Sym):
            return a if c else b
    if CTX is not None:
        d = CTX.decided.get(c.id)
        if d is not None:
            return a if d else b
        if c.op == 'not':
            d = CTX.decided.get(c.args[0].id)
            if d is not None:
                return b if d else a
    if a is b:
        return a
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if not isnum(a) or not isnum(b):
            return a if bool(c) else b
        if type(a) is type(b) and (a == b):
            return a
    for x in (a, b):
        if isnan(x) or isinf(x) or not (isinstance(x, Sym) or isnum(x)):
            return a if bool(c) else b
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    la, lb = lift(a), lift(b)
    if la.sort == 'B' and lb.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    la, lb = lift(asnum(a)), lift(asnum(b))
    if la.sort != lb.sort:
        la, lb = [(num(x.args[0], 'R') if x.op == 'const' else toreal(x)) for x in (la, lb)]
    if la is lb:
        return a
    if la.op == 'ite' and la.args[0] is c:
        la = la.args[1]
    if lb.op == 'ite' and lb.args[0] is c:
        lb = lb.args[2]
    r = None
    if la.sort == 'I':
        ra = la.rng if la.op != 'const' else (int(la.args[0]),) * 2
        rb = lb.rng if lb.op != 'const' else (int(lb.args[0]),) * 2
        if ra and rb:
            r = (min(ra[0], rb[0]), max(ra[1], rb[1]))
    return mk('ite', (c, la, lb), la.sort, r)


def conj(xs):
    r = True
    for x in xs:
        r = and_(r, x)
    return r


def disj(xs):
    r = False
    for x in xs:
        r = or_(r, x)
    return r


def show(n, d=3):
    if not isinstance(n, Sym):
        return str(n)
    if n.op == 'var':
        return n.args[0]
    if n.op == 'const':
        v = n.args[0]
        return str(v) if isinstance(v, bool) else '%g' % float(v)
    if d <= 0:
        return '..'
    return '%s(%s)' % (n.op, ', '.join(show(a, d - 1) for a in n.args))


# --------------------------------------------------------------------------
# translation to z3
#
# "abstract" terms (n.z) replace products and quotients of two non-constant
# terms by fresh constants; "exact" terms (n.zx) keep them.
_NL = []            # nonlinear nodes met by the translation
_UFS = {}


def zuf(name, arity):
    f = _UFS.get((name, arity))
    if f is None:
        f = _UFS[(name, arity)] = z3.Function(name, *([z3.RealSort()] * (arity + 1)))
    return f


def zconst(v, sort):
    if sort == 'B':
        return z3.BoolVal(v)
    if sort == 'I':
        return z3.IntVal(int(v))
    return z3.RealVal('%d/%d' % (v.numerator, v.denominator))


def tr(n, exact=False):
    r = n.zx if exact else n.z
    if r is not None:
        return r
    op = n.op
    if op == 'const':
        r = zconst(n.args[0], n.sort)
    elif op == 'var':
        r = {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[n.sort](n.args[0])
    elif op == 'uf':
        r = zuf(n.args[0], len(n.args) - 1)(*[tr(a, exact) for a in n.args[1:]])
    elif op in ('mul', 'div') and not exact and not (op == 'mul' and (n.args[0].op == 'const' or n.args[1].op == 'const')):
        r = (z3.Int if n.sort == 'I' else z3.Real)('nl!%d' % n.id)
    else:
        a = [tr(x, exact) for x in n.args]
        if n.sort == 'R' or op in ('le', 'eq', 'add', 'sub', 'mul'):
            so = [x.sort for x in n.args]
            if 'R' in so and 'I' in so and op in ('le', 'eq', 'add', 'sub', 'mul'):
                a = [z3.ToReal(z) if s == 'I' else z for z, s in zip(a, so)]
        if op == 'add':
            r = a[0] + a[1]
        elif op == 'sub':
            r = a[0] - a[1]
        elif op == 'neg':
            r = -a[0]
        elif op == 'mul':
            r = a[0] * a[1]
        elif op == 'div':
            a = [z3.ToReal(z) if x.sort == 'I' else z for z, x in zip(a, n.args)]
            r = a[0] / a[1]
        elif op == 'toreal':
            r = z3.ToReal(a[0])
        elif op == 'toint':
            r = z3.ToInt(a[0])
        elif op == 'idiv':
            r = a[0] / a[1]
        elif op == 'imod':
            r = a[0] % a[1]
        elif op == 'ite':
            r = z3.If(a[0], a[1], a[2])
        elif op == 'le':
            r = a[0] <= a[1]
        elif op == 'eq':
            r = a[0] == a[1]
        elif op == 'not':
            r = z3.Not(a[0])
        elif op == 'and':
            r = z3.And(a[0], a[1])
        elif op == 'xor':
            r = z3.Xor(a[0], a[1])
        else:
            raise Unsupported('translate ' + op)
    if exact:
        n.zx = r
    else:
        n.z = r
    return r


def subterms(roots):
    seen, out, st = set(), [], list(roots)
    while st:
        n = st.pop()
        if not isinstance(n, Sym) or n.id in seen:
            continue
        seen.add(n.id)
        out.append(n)
        st.extend(n.args)
    return out


def unit(n):
    """syntactically within [0,1]?"""
    return n.op == 'var' and (n.args[0].startswith('u01') or '!u01' in n.args[0])


_NN = {}


def nonneg(n):
    """syntactically >= 0?"""
    r = _NN.get(n.id)
    if r is not None and r[0] is n:
        return r[1]
    op = n.op
    if op == 'const':
        v = n.sort != 'B' and n.args[0] >= 0
    elif op == 'var':
        v = unit(n) or (n.rng is not None and n.rng[0] >= 0) or any(k in n.args[0] for k in ('!exp!', '!gam!', '!ray!', '!wei!', '!par!', '!lgn!'))
    elif op in ('add', 'div'):
        v = nonneg(n.args[0]) and nonneg(n.args[1])
    elif op == 'mul':
        v = n.args[0] is n.args[1] or (nonneg(n.args[0]) and nonneg(n.args[1]))
    elif op == 'uf':
        v = n.args[0] in ('sqrt', 'exp', 'cosh', 'arccos') or (n.args[0] == 'pow')
    elif op == 'toreal':
        v = nonneg(n.args[0])
    elif op == 'ite':
        c, a, b = n.args
        v = (nonneg(a) and nonneg(b)) or (c.op == 'le' and c.args[0].op == 'const' and c.args[0].args[0] == 0 and c.args[1] is a and b.op == 'neg' and b.args[0] is a)
    else:
        v = False
    _NN[n.id] = (n, v)
    return v


def axioms(nodes, exact, strong=False):
    """facts about the uninterpreted and abstracted nodes"""
    ax = []
    ufs = {}
    for n in nodes:
        if n.op == 'uf':
            nm = n.args[0]
            t = tr(n, exact)
            if nm in ('sin', 'cos', 'tanh'):
                ax += [t <= 1, t >= -1]
            elif nm in ('sqrt',):
                a = tr(n.args[1], exact)
                ax += [t >= 0, (t == 0) == (a == 0)]
                if exact:
                    ax.append(t * t == a)
                else:
                    ax += [z3.Implies(a <= 1, t >= a), z3.Implies(a >= 1, z3.And(t <= a, t >= 1)), z3.Implies(a <= 1, t <= 1)]
            elif nm in ('exp', 'cosh'):
                ax.append(t > 0)
                a = tr(n.args[1], exact)
                if nm == 'exp':
                    ax += [z3.Implies(a <= 0, t <= 1), z3.Implies(a >= 0, t >= 1), t >= 1 + a]
            elif nm == 'pow':
                a, b = tr(n.args[1], exact), tr(n.args[2], exact)
                ax += [z3.Implies(a > 0, t > 0), z3.Implies(z3.And(a >= 0, a <= 1, b >= 0), t <= 1),
                       z3.Implies(z3.And(a >= 1, b >= 0), t >= 1), z3.Implies(b == 1, t == a)]
            elif nm == 'arctan':
                ax += [t < z3.RealVal('16/10'), t > z3.RealVal('-16/10')]
            elif nm in ('log', 'log2', 'log10'):
                a = tr(n.args[1], exact)
                ax += [(t >= 0) == (a >= 1), t <= (a - 1) * 2]
            elif nm in ('arccos',):
                ax += [t >= 0, t <= z3.RealVal('32/10')]
            ufs.setdefault(nm, []).append(n)
        elif not exact and n.op == 'mul' and n.args[0].op != 'const' and n.args[1].op != 'const':
            t = tr(n)
            a, b = n.args
            za, zb = tr(a), tr(b)
            if a is b:
                ax.append(t >= 0)
                ax.append((t == 0) == (za == 0))
            elif unit(a) or unit(b):
                if unit(b):
                    za, zb = zb, za
                ax.append(z3.If(zb >= 0, z3.And(t >= 0, t <= zb), z3.And(t <= 0, t >= zb)))
            elif nonneg(a) and nonneg(b):
                ax.append(t >= 0)
            elif strong:
                ax.append(z3.Implies(z3.And(za >= 0, zb >= 0), t >= 0))
                ax.append(z3.Implies(z3.And(za <= 0, zb >= 0), t <= 0))
                ax.append(z3.Implies(z3.And(za >= 0, zb <= 0), t <= 0))
                ax.append(z3.Implies(z3.And(za <= 0, zb <= 0), t >= 0))
        elif not exact and n.op == 'div':
            t = tr(n)
            za, zb = tr(n.args[0]), tr(n.args[1])
            if nonneg(n.args[0]) and nonneg(n.args[1]):
                ax.append(t >= 0)
                za, zb = [z3.ToReal(z) if a.sort == 'I' else z for z, a in zip((za, zb), n.args)]
                ax.append(z3.Implies(zb > 0, (t <= 1) == (za <= zb)))
            if strong:
                ax.append(z3.Implies(z3.And(za >= 0, zb > 0), t >= 0))
                ax.append(z3.Implies(z3.And(za >= 0, zb > 0, za <= zb), t <= 1))
        elif exact and n.op == 'div':
            pass
    return ax


# --------------------------------------------------------------------------
# concrete evaluation of terms under an assignment
def evaluate(n, env, memo, ufenv=None):
    if not isinstance(n, Sym):
        return n
    if n.id in memo:
        return memo[n.id]
    op = n.op
    if op == 'const':
        r = n.args[0] if n.sort == 'B' else (int(n.args[0]) if n.sort == 'I' else float(n.args[0]))
    elif op == 'var':
        r = env.get(n.args[0], {'R': 0.0, 'I': 0, 'B': False}[n.sort])
    else:
        a = [evaluate(x, env, memo, ufenv) if isinstance(x, Sym) else x for x in n.args]
        if op == 'uf':
            if ufenv and n.args[0] in ufenv:
                r = ufenv[n.args[0]](n, a[1:])
            else:
                try:
                    r = UF_EVAL[a[0]](*a[1:])
                except (ValueError, OverflowError):
                    r = math.nan
        elif op == 'add': r = a[0] + a[1]
        elif op == 'sub': r = a[0] - a[1]
        elif op == 'neg': r = -a[0]
        elif op == 'mul': r = a[0] * a[1]
        elif op == 'div': r = a[0] / a[1] if a[1] else math.nan
        elif op == 'toreal': r = float(a[0])
        elif op == 'toint': r = math.floor(a[0]) if not math.isnan(a[0]) and not math.isinf(a[0]) else 0
        elif op == 'idiv': r = a[0] // a[1] if a[1] else 0
        elif op == 'imod': r = a[0] % a[1] if a[1] else 0
        elif op == 'ite': r = a[1] if a[0] else a[2]
        elif op == 'le': r = a[0] <= a[1]
        elif op == 'eq': r = a[0] == a[1]
        elif op == 'not': r = not a[0]
        elif op == 'and': r = a[0] and a[1]
        elif op == 'xor': r = bool(a[0]) != bool(a[1])
        else:
            raise Unsupported('evaluate ' + op)
    memo[n.id] = r
    return r
