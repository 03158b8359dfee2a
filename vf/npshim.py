"""numpy front end for symbolic values.

`SArr` is an object-dtype ndarray whose element operations build terms and
whose comparisons, selections, reductions and masked writes are merged with
if-then-else instead of forking wherever the result keeps its shape.
`NP` stands in for the `np` name inside the modules under test; everything it
does not override is real numpy.
"""
import builtins
import math
import types
import weakref

import numpy as np

from . import sym as S
from .sym import Sym, Unsupported

SCALARS = (int, float, np.integer, np.floating, np.bool_)


class SArr(np.ndarray):
    __array_priority__ = 100.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        f = FUNCS.get(getattr(func, '__name__', None))
        if f is not None and getattr(np, func.__name__, None) in (func, None) or func in FUNCS_BY_OBJ:
            return (FUNCS_BY_OBJ.get(func) or f)(*args, **kwargs)
        return fix(super().__array_function__(func, types_, args, kwargs))

    # -- indexing ---------------------------------------------------------
    def __getitem__(self, idx):
        idx = norm_index(idx)
        p = sym_pos(idx)
        if p is None:
            return unwrap(np.ndarray.__getitem__(self, idx))
        tup = idx if isinstance(idx, tuple) else (idx,)
        e = tup[p]
        if isinstance(e, np.ndarray):            # fancy index with symbolic ints
            if sum(isinstance(t, np.ndarray) and t.ndim for t in tup) > 1:
                return self[concrete_index(tup)]
            flat = [self[tup[:p] + (k,) + tup[p + 1:]] for k in e.ravel()]
            return stack_like(flat, e.shape)
        n = self.shape[p]
        e = wrap_index(e, n)
        if not isinstance(e, Sym):
            return self[tup[:p] + (e,) + tup[p + 1:]]
        lo, hi = e.rng or (0, n - 1)
        rows = [(k, self[tup[:p] + (k,) + tup[p + 1:]]) for k in range(max(lo, 0), min(hi, n - 1) + 1)]
        if not all(mergeable(r) for _, r in rows):
            return self[tup[:p] + (e.__index__(),) + tup[p + 1:]]
        acc = pick(e, rows)
        if isinstance(acc, np.ndarray) and all(isinstance(r, np.ndarray) and np.may_share_memory(r, self) for _, r in rows):
            return Link(self, e, [(k, tup[:p] + (k,) + tup[p + 1:]) for k, _ in rows], acc).array()
        return acc

    def __setitem__(self, idx, val):
        self.write(idx, val)
        wrote(self)

    def write(self, idx, val):
        idx = norm_index(idx, writing=(self, val))
        if isinstance(idx, MaskWrite):
            m = idx.mask
            v = val
            tgt = np.ndarray.view(self, np.ndarray)
            if m.ndim < tgt.ndim:
                m = np.broadcast_to(m.reshape(m.shape + (1,) * (tgt.ndim - m.ndim)), tgt.shape)
            for k in np.ndindex(*tgt.shape):
                tgt[k] = S.ite(m[k], v, tgt[k])
            return
        p = sym_pos(idx)
        if p is None:
            if isinstance(val, np.ndarray) and val.ndim == 0:
                val = val[()]
            return np.ndarray.__setitem__(self, idx, val)
        tup = idx if isinstance(idx, tuple) else (idx,)
        e = tup[p]
        if isinstance(e, np.ndarray):
            if len(tup) != 1:
                self[concrete_index(tup)] = val
                return
            vals = val if isinstance(val, np.ndarray) and val.ndim and val.shape[0] == e.size else [val] * e.size
            for k, v in zip(e.ravel(), vals):
                self[k] = v
            return
        n = self.shape[p]
        e = wrap_index(e, n)
        if not isinstance(e, Sym):
            self[tup[:p] + (e,) + tup[p + 1:]] = val
            return
        lo, hi = e.rng or (0, n - 1)
        olds = [(k, self[tup[:p] + (k,) + tup[p + 1:]]) for k in range(max(lo, 0), min(hi, n - 1) + 1)]
        if not all(mergeable(o) for _, o in olds) or not mergeable(val):
            self[tup[:p] + (e.__index__(),) + tup[p + 1:]] = val
            return
        for k, o in olds:
            np.ndarray.__setitem__(self, tup[:p] + (k,) + tup[p + 1:],
                                   elementwise3(S.ite, S.cmp_('eq', e, k), val, o))

    # -- methods ------------------------------------------------------------
    def min(self, axis=None, out=None, keepdims=False, **k): return reduce_(S.min_, self, axis, keepdims)
    def max(self, axis=None, out=None, keepdims=False, **k): return reduce_(S.max_, self, axis, keepdims)
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return reduce_(S.add_, self, axis, keepdims, 0)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k): return reduce_(S.mul_, self, axis, keepdims, 1)
    def any(self, axis=None, out=None, keepdims=False, **k): return reduce_(S.or_, self, axis, keepdims, False)
    def all(self, axis=None, out=None, keepdims=False, **k): return reduce_(S.and_, self, axis, keepdims, True)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k): return mean(self, axis, keepdims=keepdims)
    def var(self, axis=None, dtype=None, out=None, ddof=0, **k): return var(self, axis, ddof=ddof)
    def std(self, axis=None, dtype=None, out=None, ddof=0, **k): return std(self, axis, ddof=ddof)
    def argmin(self, axis=None, out=None, **k): return argext(self, axis, S.lt_)
    def argmax(self, axis=None, out=None, **k): return argext(self, axis, S.gt_)
    def argsort(self, axis=-1, kind=None, order=None, **k): return argsort(self, axis)
    def clip(self, min=None, max=None, out=None, **k): return clip(self, min, max, out)
    def cumsum(self, axis=None, **k): return cumsum(self, axis)
    def dot(self, o, out=None): return dot(self, o)
    def astype(self, t, *a, **k): return cast(self, t)
    def round(self, decimals=0, out=None): return around(self, decimals)
    def nonzero(self): return nonzero(self)
    def ptp(self, axis=None): return S._bin(S.sub_, self.max(axis), self.min(axis))

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = sort(self, axis)

    def item(self, *a):
        return self[a] if a else self.ravel()[0]

    def take(self, indices, axis=None, **k):
        if axis in (None, 0) and (axis == 0 or self.ndim == 1):
            return self[indices]
        return self.ravel()[indices]

    def __bool__(self):
        if self.size == 1:
            return bool(np.ndarray.view(self, np.ndarray).ravel()[0])
        return np.ndarray.__bool__(self)

    def __contains__(self, v):
        return bool(reduce_(S.or_, elementwise(S.eq_, self, v), None, False, False))

    def __index__(self):
        if self.ndim == 0:
            return self[()].__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __float__(self):
        if self.size == 1:
            v = np.ndarray.view(self, np.ndarray).ravel()[0]
            return float(v)
        raise TypeError('only 0-dimensional arrays can be converted to Python scalars')


def pick(e, rows):
    acc = rows[-1][1]
    for k, r in reversed(rows[:-1]):
        acc = elementwise3(S.ite, S.cmp_('eq', e, k), r, acc)
    return acc


def root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


LINKS = {}      # id of the memory of an array -> links from and to it


class Link:
    """a row chosen by a symbolic index is a view of the array: writes to either are seen by the other"""

    def __init__(self, base, e, rows, now):
        self.base, self.e, self.rows = base, e, rows
        m = np.empty(now.shape, dtype=object)
        m[...] = np.ndarray.view(now, np.ndarray) if isinstance(now, np.ndarray) else now
        self.mem = weakref.ref(m, self.drop)
        self.keys = (id(m), id(root(base)))
        for k in self.keys:
            LINKS.setdefault(k, []).append(self)
        self.m = m

    def array(self):
        m, self.m = self.m, None
        return m.view(SArr)

    def drop(self, _=None):
        for k in self.keys:
            l = LINKS.get(k)
            if l and self in l:
                l.remove(self)
                if not l:
                    del LINKS[k]

    def push(self):
        m = self.mem()
        if m is None:
            return
        for k, idx in self.rows:
            self.base.write(idx, elementwise3(S.ite, S.cmp_('eq', self.e, k), m, self.base[idx]))

    def pull(self):
        m = self.mem()
        if m is not None:
            m[...] = np.ndarray.view(pick(self.e, [(k, self.base[idx]) for k, idx in self.rows]), np.ndarray)


def wrote(a, seen=()):
    if not LINKS:
        return
    k = id(root(a))
    for l in list(LINKS.get(k, ())):
        if l in seen:
            continue
        if k == l.keys[0]:
            l.push()
            wrote(l.base, seen + (l,))
        else:
            l.pull()
            m = l.mem()
            if m is not None:
                wrote(m, seen + (l,))


def boxed(v):
    if isinstance(v, np.ndarray):
        return v
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def unwrap(r):
    return r


def mergeable(v):
    if isinstance(v, Sym) or S.isnum(v):
        return True
    if isinstance(v, np.ndarray):
        return all(isinstance(e, Sym) or S.isnum(e) for e in v.ravel())
    if isinstance(v, (list, tuple)):
        return all(mergeable(e) for e in v)
    return False


def wrap_index(e, n):
    """numpy index rules for a symbolic integer; out of range raises IndexError"""
    if isinstance(e, np.ndarray):
        e = e[()] if e.ndim == 0 else e
    if not isinstance(e, Sym):
        return e
    if e.sort == 'B':
        return int(bool(e))
    if e.sort != 'I':
        raise IndexError('only integers, slices, ellipsis and integer or boolean arrays are valid indices')
    r = e.rng
    if r is None or r[0] < 0:
        if bool(S.cmp_('lt', e, 0)):
            if bool(S.cmp_('lt', e, -n)):
                raise IndexError('index out of bounds')
            return e.__index__()
    if r is None or r[1] >= n:
        if bool(S.cmp_('le', n, e)):
            raise IndexError('index out of bounds')
    return e


class MaskWrite:
    def __init__(self, mask):
        self.mask = mask


def is_mask(a):
    return a.dtype == bool or (a.dtype == object and a.size > 0 and
                               all(isinstance(v, (bool, np.bool_)) or (isinstance(v, Sym) and v.sort == 'B') for v in a.ravel()))


def norm_one(e):
    """index component -> plain / intp array / bool array / SArr of SymInt"""
    if isinstance(e, Sym):
        return e
    if isinstance(e, (list,)) and has_sym(e):
        e = toarr(e)
    if isinstance(e, np.ndarray) and e.dtype == object:
        if e.ndim == 0:
            return norm_one(e[()])
        if e.size == 0:
            return np.zeros(e.shape, dtype=np.intp)
        b = np.ndarray.view(e, np.ndarray)
        if is_mask(b):
            return np.array([bool(v) for v in b.ravel()], dtype=bool).reshape(b.shape)
        if all(isinstance(v, (int, np.integer)) for v in b.ravel()):
            return b.astype(np.intp)
        if all(isinstance(v, (int, np.integer)) or (isinstance(v, Sym) and v.sort == 'I') for v in b.ravel()):
            return e
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    return e


def norm_index(idx, writing=None):
    if writing is not None and isinstance(idx, np.ndarray) and idx.dtype == object and idx.size and is_mask(np.ndarray.view(idx, np.ndarray)):
        m = np.ndarray.view(idx, np.ndarray)
        arr, val = writing
        if any(isinstance(v, Sym) for v in m.ravel()) and (isinstance(val, Sym) or S.isnum(val)) and m.shape == arr.shape[:m.ndim] and mergeable(arr):
            return MaskWrite(m)
    if isinstance(idx, tuple):
        return tuple(norm_one(e) for e in idx)
    return norm_one(idx)


def concrete_index(tup):
    """fork on every symbolic component"""
    out = []
    for e in tup:
        if isinstance(e, Sym):
            e = e.__index__()
        elif isinstance(e, np.ndarray) and e.dtype == object:
            e = np.array([v.__index__() for v in e.ravel()], dtype=np.intp).reshape(e.shape)
        out.append(e)
    return tuple(out)


def sym_pos(idx):
    tup = idx if isinstance(idx, tuple) else (idx,)
    for p, e in enumerate(tup):
        if isinstance(e, Sym) or (isinstance(e, np.ndarray) and e.dtype == object):
            if any(x is Ellipsis or x is None for x in tup[:p]):
                raise Unsupported('ellipsis before symbolic index')
            return p
    return None


def has_sym(v, depth=3):
    if isinstance(v, Sym):
        return True
    if isinstance(v, SArr):
        return True
    if depth and isinstance(v, (list, tuple)):
        return any(has_sym(e, depth - 1) for e in v)
    return False


def toarr(v, copy=False):
    """SArr from anything numeric-like"""
    if isinstance(v, SArr):
        return v.copy() if copy else v
    if isinstance(v, np.ndarray):
        return np.array(v, dtype=object).view(SArr) if copy or v.dtype != object else v.view(SArr)
    if isinstance(v, Sym) or S.isnum(v):
        return boxed(v).view(SArr)
    if isinstance(v, (list, tuple)):
        parts = [toarr(e) if isinstance(e, (list, tuple, np.ndarray)) else boxed(e) for e in v]
        if not parts:
            return np.empty((0,), dtype=object).view(SArr)
        if len({p.shape for p in parts}) > 1:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = np.ndarray.view(p, np.ndarray) if p.ndim else p[()]
        return out.view(SArr)
    if hasattr(v, '__iter__'):
        return toarr(list(v))
    return boxed(v).view(SArr)


def fix(r):
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SArr):
        return r.view(SArr)
    return r


def stack_like(flat, shape):
    a = toarr(list(flat))
    return a.reshape(tuple(shape) + a.shape[1:])


def scalarize(a):
    """object result -> SArr, real bool array if fully decided, or scalar"""
    if a.ndim == 0:
        return a[()]
    return a.view(SArr)


def plain(v):
    if isinstance(v, SArr):
        return np.ndarray.view(v, np.ndarray)
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, (list, tuple)):
        return np.ndarray.view(toarr(v), np.ndarray)
    return boxed(v)


def elementwise(f, *xs):
    arrs = [plain(x) for x in xs]
    if all(a.ndim == 0 for a in arrs):
        return f(*[a[()] for a in arrs])
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(bs[0].shape, dtype=object)
    its = [b.ravel() for b in bs]
    flat = out.ravel()
    for i in range(flat.size):
        flat[i] = f(*[t[i] for t in its])
    out = flat.reshape(out.shape)
    return out.view(SArr)


def elementwise3(f, c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return elementwise(lambda x, y: f(c, x, y), a, b)


def concrete_bool(a):
    return a


UF1 = {n: (lambda n: lambda a: S.uf(n, a))(n) for n in
       ('sqrt', 'exp', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'cbrt')}


def isnan_(a):
    return False if isinstance(a, Sym) else bool(np.isnan(a))


def isinf_(a):
    return False if isinstance(a, Sym) else bool(np.isinf(a))


def heaviside(a, b):
    return S.ite(S.lt_(a, 0), 0.0, S.ite(S.eq_(a, 0), b, 1.0))


UFUNCS = {
    'add': S.add_, 'subtract': S.sub_, 'multiply': S.mul_, 'divide': S.div_, 'true_divide': S.div_,
    'floor_divide': S.floordiv_, 'remainder': S.mod_, 'mod': S.mod_, 'fmod': S.fmod_,
    'power': S.pow_, 'float_power': S.pow_, 'negative': S.neg_, 'positive': lambda a: a,
    'absolute': S.abs_, 'fabs': S.abs_, 'sign': S.sign_, 'square': lambda a: S.mul_(a, a),
    'reciprocal': lambda a: S.div_(1.0, a),
    'floor': S.floor_, 'ceil': lambda a: S.neg_(S.floor_(S.neg_(a))), 'rint': S.rint_,
    'trunc': lambda a: S.toreal(S.trunc_(a)),
    'minimum': S.min_, 'maximum': S.max_, 'fmin': S.min_, 'fmax': S.max_,
    'less': S.lt_, 'less_equal': S.le_, 'greater': S.gt_, 'greater_equal': S.ge_, 'equal': S.eq_, 'not_equal': S.ne_,
    'logical_and': S.and_, 'logical_or': S.or_, 'logical_not': lambda a: S.not_(S.truth(a)), 'logical_xor': S.xor_,
    'bitwise_and': S.and_, 'bitwise_or': S.or_, 'invert': S.not_, 'bitwise_not': S.not_, 'bitwise_xor': S.xor_,
    'isnan': isnan_, 'isinf': isinf_, 'isfinite': lambda a: not (isnan_(a) or isinf_(a)),
    'exp2': lambda a: S.pow_(2.0, a), 'expm1': lambda a: S.sub_(S.uf('exp', a), 1.0),
    'log1p': lambda a: S.uf('log', S.add_(1.0, a)),
    'hypot': lambda a, b: S.uf('sqrt', S.add_(S.mul_(a, a), S.mul_(b, b))),
    'arctan2': lambda a, b: S.uf('arctan2', a, b),
    'deg2rad': lambda a: S.mul_(a, math.pi / 180), 'radians': lambda a: S.mul_(a, math.pi / 180),
    'rad2deg': lambda a: S.mul_(a, 180 / math.pi), 'degrees': lambda a: S.mul_(a, 180 / math.pi),
    'copysign': lambda a, b: S.ite(S.lt_(b, 0), S.neg_(S.abs_(a)), S.abs_(a)), 'heaviside': heaviside, 'conjugate': lambda a: a,
}
UFUNCS.update(UF1)
IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False, 'bitwise_and': True, 'bitwise_or': False}


def put_out(r, out, where=True):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        return r
    if not isinstance(o, SArr) and o.dtype != object:
        if isinstance(r, np.ndarray) and all(not isinstance(v, Sym) for v in r.ravel()):
            o[...] = r.astype(o.dtype)
            return o
        raise Unsupported('symbolic result into a non-symbolic output array')
    if where is not True:
        r = elementwise(lambda w, a, b: S.ite(w, a, b), where, r, o)
    np.ndarray.__setitem__(o, Ellipsis, boxed(r) if not isinstance(r, np.ndarray) else np.ndarray.view(r, np.ndarray))
    wrote(o)
    return o


def sequence(v):
    """numpy takes any object with a length and items for a sequence"""
    if isinstance(v, (np.ndarray, np.generic, Sym, list, tuple, int, float, str, type(None))) or not hasattr(type(v), '__len__') or not hasattr(type(v), '__getitem__'):
        return v
    if hasattr(v, '__array__'):
        return v
    return stack_like([v[i] for i in range(len(v))], (len(v),))


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if method == '__call__':
        inputs = tuple(sequence(i) for i in inputs)
    out = kw.get('out')
    where = kw.get('where', True)
    if name == 'matmul':
        return put_out(dot(inputs[0], inputs[1]), out)
    if name == 'divmod' and method == '__call__':
        return divmod_(*inputs)
    if name == 'modf' and method == '__call__':
        return modf(*inputs)
    f = UFUNCS.get(name)
    if f is None:
        if not any(contains_sym(i) for i in inputs):
            # purely concrete contents in object arrays
            ins = [deobj(i) for i in inputs]
            r = getattr(ufunc, method)(*ins, **{k: v for k, v in kw.items() if k != 'out'})
            return put_out(toarr(r) if isinstance(r, np.ndarray) else r, out)
        raise Unsupported('ufunc ' + name)
    if method == '__call__':
        if where is not True and (out is None):
            base = elementwise(lambda *a: f(*a), *inputs)
            return base
        if 'dtype' in kw and kw['dtype'] in (int,):
            return cast(elementwise(f, *inputs), int)
        return put_out(elementwise(f, *inputs), out, where)
    if method == 'reduce':
        axis = kw.get('axis', 0)
        if len(inputs) > 1:
            axis = inputs[1]
        ini = kw.get('initial')
        return reducer(f, IDENT.get(name))(inputs[0], axis, None, out, kw.get('keepdims', False), None if str(ini) == '<no value>' else ini, where)
    if method == 'accumulate':
        return put_out(accumulate(f, inputs[0], kw.get('axis', inputs[1] if len(inputs) > 1 else 0)), out)
    if method == 'outer':
        a, b = plain(inputs[0]), plain(inputs[1])
        return elementwise(f, a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        vals = inputs[2:]
        ii = plain(idx).ravel() if not isinstance(idx, tuple) else None
        if ii is None:
            raise Unsupported('ufunc.at with tuple index')
        for j, k in enumerate(ii):
            v = [(plain(x).ravel()[j] if plain(x).ndim else x) for x in vals]
            a[k] = f(a[k], *v)
        return None
    raise Unsupported('ufunc method ' + method)


def contains_sym(v):
    if isinstance(v, Sym):
        return True
    if isinstance(v, np.ndarray) and v.dtype == object:
        return any(isinstance(e, Sym) for e in v.ravel())
    if isinstance(v, (list, tuple)):
        return any(contains_sym(e) for e in v)
    return False


def deobj(v):
    """object container of concrete numbers -> native"""
    if isinstance(v, np.ndarray) and v.dtype == object:
        b = np.ndarray.view(v, np.ndarray)
        if not any(isinstance(e, Sym) for e in b.ravel()):
            return np.array(b.tolist()) if b.size else b.astype(float)
    if isinstance(v, (list, tuple)) and not contains_sym(v):
        return type(v)(deobj(e) for e in v)
    return v


def axes_of(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    return tuple(a % nd for a in axis)


def reduce_(f, a, axis=None, keepdims=False, init=None):
    a = plain(a)
    if a.ndim == 0:
        return a[()] if init is None else f(a[()], init) if f in (S.or_, S.and_) else a[()]
    ax = axes_of(axis, a.ndim)
    rest = [i for i in range(a.ndim) if i not in ax]
    m = a.transpose(rest + list(ax)).reshape([a.shape[i] for i in rest] + [-1] if a.size else [a.shape[i] for i in rest] + [int(np.prod([a.shape[i] for i in ax]))])
    out = np.empty(m.shape[:-1], dtype=object)
    for k in np.ndindex(*m.shape[:-1]):
        row = m[k]
        if len(row) == 0:
            if init is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            out[k] = float(init) if f in (S.add_, S.mul_) else init
            continue
        if f in (S.or_, S.and_):
            acc = S.truth(row[0])
        elif f is S.add_:
            acc = S.asnum(row[0])
            if isinstance(acc, (bool, np.bool_)):
                acc = int(acc)
        else:
            acc = row[0]
        for v in row[1:]:
            acc = f(acc, v)
        out[k] = acc
    if keepdims:
        out = out.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
    return scalarize(out)


def accumulate(f, a, axis=None):
    a = plain(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    out = np.array(a, dtype=object)
    o = np.moveaxis(out, axis, 0)
    for i in range(1, o.shape[0]):
        r = elementwise(f, o[i - 1], o[i])
        o[i] = r if not isinstance(r, np.ndarray) else np.ndarray.view(r, np.ndarray)
    return out.view(SArr)


def cumsum(a, axis=None, dtype=None, out=None):
    return accumulate(S.add_, a, axis)


def cumprod(a, axis=None, dtype=None, out=None):
    return accumulate(S.mul_, a, axis)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    no_opts(k)
    a = toarr(a)
    n = a.size if axis is None else int(np.prod([a.shape[i] for i in axes_of(axis, a.ndim)]))
    if n == 0:
        return math.nan
    return S._bin(S.div_, reduce_(S.add_, a, axis, bool(keepdims), 0), n)


def average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return mean(a, axis)
    a, w = toarr(a), toarr(weights)
    if w.ndim != a.ndim:
        raise Unsupported('average weights')
    return S._bin(S.div_, reduce_(S.add_, elementwise(S.mul_, a, w), axis, False, 0), reduce_(S.add_, w, axis, False, 0))


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    no_opts(k)
    a = toarr(a)
    m = mean(a, axis, keepdims=True) if axis is not None else mean(a)
    d = elementwise(S.sub_, a, m)
    n = a.size if axis is None else int(np.prod([a.shape[i] for i in axes_of(axis, a.ndim)]))
    return S._bin(S.div_, reduce_(S.add_, elementwise(S.mul_, d, d), axis, bool(keepdims), 0), n - ddof)


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    no_opts(k)
    v = var(a, axis, ddof=ddof, keepdims=keepdims)
    return elementwise(lambda x: S.uf('sqrt', x), v)


def argext(a, axis, better):
    a = plain(a)
    if axis is None:
        a = a.ravel()
    if a.ndim == 1:
        if a.size == 0:
            raise ValueError('attempt to get argmin of an empty sequence')
        for i, v in enumerate(a):
            if S.isnan(v):
                return i
        bi, bv = 0, a[0]
        for i in range(1, a.size):
            c = better(a[i], bv)
            if isinstance(c, Sym) and any(S.isinf(x) for x in (a[i], bv)):
                c = bool(c)
            bi = S.ite(c, i, bi)
            bv = S.ite(c, a[i], bv)
        return bi
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for k in np.ndindex(*m.shape[:-1]):
        out[k] = argext(m[k], None, better)
    return out.view(SArr)


def order(seq):
    """indices sorting seq (stable insertion; forks on comparisons)"""
    idx = []
    for i, v in enumerate(seq):
        j = len(idx)
        while j > 0:
            w = seq[idx[j - 1]]
            if S.isnan(w) and not S.isnan(v):
                j -= 1
                continue
            if S.isnan(v):
                break
            if bool(S.lt_(v, w)):
                j -= 1
            else:
                break
        idx.insert(j, i)
    return idx


def argsort(a, axis=-1, kind=None, order_=None, **k):
    a = plain(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    if a.ndim == 1:
        return np.array(order(list(a)), dtype=np.intp)
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape, dtype=np.intp)
    for k in np.ndindex(*m.shape[:-1]):
        out[k] = order(list(m[k]))
    return np.moveaxis(out, -1, axis)


def sort(a, axis=-1, kind=None, order_=None, **k):
    a = toarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    if a.ndim == 1:
        return a[argsort(a)]
    m = np.moveaxis(plain(a), axis, -1)
    out = np.empty(m.shape, dtype=object)
    for k in np.ndindex(*m.shape[:-1]):
        out[k] = m[k][order(list(m[k]))]
    return np.moveaxis(out, -1, axis).view(SArr)


def argpartition(a, kth, axis=-1, **k):
    return argsort(a, axis)


def partition(a, kth, axis=-1, **k):
    return sort(a, axis)


def median(a, axis=None, **k):
    no_opts(k)
    s = sort(a, axis)
    s = np.moveaxis(plain(s), -1 if axis is None else axis, 0)
    n = s.shape[0]
    return elementwise(lambda x: x, s[n // 2]) if n % 2 else elementwise(lambda x, y: S.div_(S.add_(x, y), 2), s[n // 2 - 1], s[n // 2])


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = elementwise(S.max_, r, lo)
    if hi is not None:
        r = elementwise(S.min_, r, hi)
    if out is not None:
        return put_out(r, out)
    return toarr(r) if isinstance(r, np.ndarray) else r


def where(c, x=None, y=None):
    if x is None and y is None:
        return nonzero(c)
    r = elementwise(lambda c, a, b: S.ite(S.truth(c), a, b), c, x, y)
    return r


def nonzero(c):
    c = plain(c)
    m = np.array([bool(S.truth(v)) for v in c.ravel()], dtype=bool).reshape(c.shape)
    return np.nonzero(m)


def argwhere(c):
    return np.transpose(nonzero(c))


def flatnonzero(c):
    return nonzero(plain(c).ravel())[0]


def count_nonzero(a, axis=None, **k):
    return reduce_(S.add_, elementwise(lambda v: S.ite(S.truth(v), 1, 0), toarr(a)), axis, False, 0)


def dot(a, b, out=None):
    a, b = plain(a), plain(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(S.mul_, a, b)
    if a.shape[-1] != (b.shape[-2] if b.ndim > 1 else b.shape[0]):
        raise ValueError('shapes not aligned')
    bb = b if b.ndim > 1 else b[:, None]
    aa = a if a.ndim > 1 else a[None, :]
    out = np.empty((aa.shape[0], bb.shape[1]), dtype=object)
    for i in range(aa.shape[0]):
        for j in range(bb.shape[1]):
            acc = 0.0
            for t in range(aa.shape[1]):
                acc = S.add_(acc, S.mul_(aa[i, t], bb[t, j]))
            out[i, j] = acc
    if a.ndim == 1 and b.ndim == 1:
        return out[0, 0]
    if b.ndim == 1:
        return out[:, 0].view(SArr)
    if a.ndim == 1:
        return out[0].view(SArr)
    return out.view(SArr)


def outer(a, b, out=None):
    a, b = plain(a).ravel(), plain(b).ravel()
    return elementwise(S.mul_, a[:, None], b[None, :])


def norm(x, ord=None, axis=None, keepdims=False):
    x = toarr(x)
    if ord in (None, 2, 'fro'):
        return elementwise(lambda v: S.uf('sqrt', v), reduce_(S.add_, elementwise(S.mul_, x, x), axis, keepdims, 0))
    if ord == 1:
        return reduce_(S.add_, elementwise(S.abs_, x), axis, keepdims, 0)
    if ord == np.inf:
        return reduce_(S.max_, elementwise(S.abs_, x), axis, keepdims)
    raise Unsupported('norm ord')


def around(a, decimals=0, out=None):
    def f(v):
        if not isinstance(v, Sym):
            return np.round(v, decimals)
        k = 10 ** decimals
        return S.rint_(v) if decimals == 0 else S.div_(S.rint_(S.mul_(v, k)), k)
    return put_out(elementwise(f, a), out)


def array_equal(a, b, equal_nan=False):
    a, b = plain(a), plain(b)
    if a.shape != b.shape:
        return False
    return reduce_(S.and_, elementwise(S.eq_, a, b), None, False, True) if a.ndim else S.eq_(a[()], b[()])


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return elementwise(lambda x, y: S.le_(S.abs_(S.sub_(x, y)), S.add_(atol, S.mul_(rtol, S.abs_(y)))), a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return reduce_(S.and_, isclose(a, b, rtol, atol), None, False, True)


def apply_along_axis(func1d, axis, arr, *args, **kw):
    arr = toarr(arr)
    m = np.moveaxis(arr, axis, -1)
    if 0 in m.shape[:-1]:
        raise ValueError('Cannot apply_along_axis when any iteration dimensions are 0')
    outs = [func1d(m[k], *args, **kw) for k in np.ndindex(*m.shape[:-1])]
    r = toarr([o for o in outs])
    r = r.reshape(tuple(m.shape[:-1]) + r.shape[1:])
    if r.ndim > len(m.shape[:-1]):
        r = np.moveaxis(r, -1, axis)
    return r


def vectorize(pyfunc, *a, **k):
    def f(*xs):
        return elementwise(pyfunc, *xs)
    return f


def diff(a, n=1, axis=-1, **k):
    a = toarr(a)
    s1 = [slice(None)] * a.ndim
    s2 = [slice(None)] * a.ndim
    s1[axis], s2[axis] = slice(1, None), slice(None, -1)
    return elementwise(S.sub_, a[tuple(s1)], a[tuple(s2)])


def isin(a, test, **k):
    t = plain(test).ravel()
    return elementwise(lambda v: S.disj([S.eq_(v, w) for w in t]), a)


def in1d(a, t, **k):
    return isin(plain(a).ravel(), t)


def unique(a, *args, **kw):
    a = toarr(a).ravel()
    if kw or args:
        raise Unsupported('unique with extras')
    s = sort(a)
    out = [s[0]] if s.size else []
    for v in s[1:]:
        if not bool(S.eq_(v, out[-1])):
            out.append(v)
    return toarr(out)


def searchsorted(a, v, side='left', sorter=None):
    a = plain(a)

    def one(x):
        r = 0
        for e in a:
            r = S.add_(r, S.ite(S.lt_(e, x) if side == 'left' else S.le_(e, x), 1, 0))
        return r
    return elementwise(one, v)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if isinstance(v, Sym):
            return v
        return np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
    return elementwise(f, x)


def take(a, indices, axis=None, **k):
    a = toarr(a)
    if axis is None:
        return a.ravel()[indices]
    return np.moveaxis(np.moveaxis(a, axis, 0)[indices], 0, axis)


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None or has_sym(xp):
        raise Unsupported('interp')
    xs, ys = [float(v) for v in xp], list(fp)

    def one(v):
        r = ys[-1] if right is None else right
        r = S.ite(S.le_(v, xs[-1]), ys[-1], r)
        for i in range(len(xs) - 2, -1, -1):
            s = S.add_(ys[i], S.mul_(S.sub_(v, xs[i]), S.div_(S.sub_(ys[i + 1], ys[i]), xs[i + 1] - xs[i])))
            r = S.ite(S.lt_(v, xs[i + 1]), s, r)
        return S.ite(S.lt_(v, xs[0]), ys[0] if left is None else left, r)
    return elementwise(one, x)


def reducer(f, init=None):
    """np.sum and the like, with out=, initial= and where="""
    def g(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        a = toarr(a)
        if where is not True:
            neutral = init if initial is None else initial
            if neutral is None:
                raise ValueError('reduction operation does not have an identity, so to use a where mask one has to specify initial')
            a = elementwise(lambda c, v: S.ite(S.truth(c), v, neutral), where, a)
        r = reduce_(f, a, axis, bool(keepdims), init if initial is None else initial)
        if initial is not None and a.size:
            r = elementwise(lambda v: f(v, initial), r)
        return put_out(r, out)
    return g


sum_ = reducer(S.add_, 0)


def no_opts(k):
    for n, v in k.items():
        if not (v is None or v is False or (n == 'where' and v is True) or str(v) == '<no value>'):
            raise Unsupported('option %s=' % n)


def quantile(a, q, axis=None, **k):
    no_opts({n: v for n, v in k.items() if not (n in ('method', 'interpolation') and v == 'linear')})
    if isinstance(q, (list, tuple, np.ndarray)):
        return toarr([quantile(a, e, axis) for e in q])
    s = sort(a, axis)
    m = np.moveaxis(plain(s), -1 if axis is None else axis, 0)
    h = q * (m.shape[0] - 1)
    i = int(math.floor(h))
    j = min(i + 1, m.shape[0] - 1)
    return elementwise(lambda x, y: S.add_(x, S.mul_(S.sub_(y, x), h - i)), m[i], m[j])


def divmod_(a, b):
    q = elementwise(S.floordiv_, a, b)
    return q, elementwise(S.mod_, a, b)


def modf(a):
    i = elementwise(lambda v: S.toreal(S.trunc_(v)) if isinstance(v, Sym) else math.modf(v)[1], a)
    return elementwise(S.sub_, a, i), i


def choose(a, choices, **k):
    no_opts(k)
    acc = choices[-1]
    for i in range(len(choices) - 2, -1, -1):
        acc = elementwise(lambda s, v, w, i=i: S.ite(S.eq_(s, i), v, w), a, choices[i], acc)
    return acc


def insert(arr, obj, values, axis=None):
    arr = toarr(arr)
    if isinstance(obj, Sym):
        obj = obj.__index__()
    if axis is None:
        arr = arr.ravel()
        axis = 0
    if arr.ndim == 1 and isinstance(obj, (int, np.integer)):
        v = toarr(values).ravel()
        return np.concatenate([arr[:obj], v, arr[obj:]])
    if isinstance(obj, (int, np.integer)):
        m = np.moveaxis(arr, axis, 0)
        v = toarr(values)
        v = np.broadcast_to(v, (1,) + m.shape[1:]) if v.ndim < m.ndim else v
        return np.moveaxis(np.concatenate([m[:obj], v, m[obj:]]), 0, axis)
    raise Unsupported('insert')


def delete(arr, obj, axis=None):
    arr = toarr(arr)
    if isinstance(obj, Sym):
        obj = obj.__index__()
    obj = norm_one(obj) if isinstance(obj, (np.ndarray, list)) else obj
    if isinstance(obj, np.ndarray) and obj.dtype == object:
        obj = np.array([int(v.__index__()) for v in obj.ravel()], dtype=np.intp)
    if isinstance(obj, list):
        obj = np.array([int(v.__index__()) for v in obj], dtype=np.intp)
    r = np.delete(np.ndarray.view(arr, np.ndarray), obj, axis)
    return r.view(SArr)


def linspace(a, b, num=50, endpoint=True, **k):
    n = num - 1 if endpoint else num
    rows = []
    for i in range(num):
        rows.append(elementwise(lambda x, y: S.add_(x, S.mul_(S.sub_(y, x), i / n if n else 0.0)), a, b))
    return toarr(rows)


def select(condlist, choicelist, default=0):
    acc = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        acc = elementwise(S.ite, c, v, acc)
    return acc


def piecewise(x, condlist, funclist, *a, **k):
    """elementwise functions only: every branch sees the whole array"""
    x = toarr(x)
    cl = list(condlist) if isinstance(condlist, (list, tuple)) and isinstance(condlist[0], (np.ndarray, list)) or getattr(condlist, 'ndim', 1) > x.ndim else [condlist]
    vals = [f(x, *a, **k) if callable(f) else f for f in funclist]
    acc = vals[-1] if len(vals) > len(cl) else 0
    for c, v in list(zip(cl, vals)):
        acc = elementwise(lambda p, q, r: S.ite(S.truth(p), q, r), c, v, acc)
    return acc


FUNCS = dict(
    select=select, piecewise=piecewise,
    cumsum=cumsum, cumprod=cumprod, mean=mean, average=average, var=var, std=std,
    argsort=argsort, sort=sort, argpartition=argpartition, partition=partition, median=median,
    clip=clip, where=where, nonzero=nonzero, argwhere=argwhere, flatnonzero=flatnonzero, count_nonzero=count_nonzero,
    dot=dot, vdot=dot, inner=dot, matmul=dot, outer=outer, norm=norm, around=around, round=around, round_=around,
    array_equal=array_equal, isclose=isclose, allclose=allclose, apply_along_axis=apply_along_axis, diff=diff,
    isin=isin, in1d=in1d, unique=unique, searchsorted=searchsorted, nan_to_num=nan_to_num, take=take, interp=interp,
    sum=sum_, insert=insert, delete=delete, linspace=linspace,
    min=(lambda f: lambda a, axis=None, out=None, keepdims=False, **k: f(a, axis, None, out, keepdims, **k))(reducer(S.min_)),
    max=(lambda f: lambda a, axis=None, out=None, keepdims=False, **k: f(a, axis, None, out, keepdims, **k))(reducer(S.max_)),
    prod=reducer(S.mul_, 1),
    any=(lambda f: lambda a, axis=None, out=None, keepdims=False, **k: f(a, axis, None, out, keepdims, **k))(reducer(S.or_, False)),
    all=(lambda f: lambda a, axis=None, out=None, keepdims=False, **k: f(a, axis, None, out, keepdims, **k))(reducer(S.and_, True)),
    percentile=lambda a, q, axis=None, **k: quantile(a, np.asarray(q) / 100.0 if isinstance(q, (list, tuple, np.ndarray)) else q / 100.0, axis, **k),
    quantile=quantile, divmod=divmod_, modf=modf, choose=choose,
    argmin=lambda a, axis=None, out=None, **k: argext(a, axis, S.lt_),
    argmax=lambda a, axis=None, out=None, **k: argext(a, axis, S.gt_),
    nanmin=lambda a, axis=None, **k: reduce_(S.min_, a, axis),
    nanmax=lambda a, axis=None, **k: reduce_(S.max_, a, axis),
    nanargmin=lambda a, axis=None, **k: argext(a, axis, S.lt_),
    nanargmax=lambda a, axis=None, **k: argext(a, axis, S.gt_),
    nansum=lambda a, axis=None, **k: reduce_(S.add_, a, axis, False, 0),
    ptp=lambda a, axis=None, **k: S._bin(S.sub_, reduce_(S.max_, a, axis), reduce_(S.min_, a, axis)),
    sign=lambda a, **k: elementwise(S.sign_, a),
    isposinf=lambda a, **k: elementwise(lambda v: (not isinstance(v, Sym)) and v == math.inf, a),
    isneginf=lambda a, **k: elementwise(lambda v: (not isinstance(v, Sym)) and v == -math.inf, a),
    isreal=lambda a: elementwise(lambda v: True, a),
)
FUNCS['amin'] = FUNCS['min']
FUNCS['amax'] = FUNCS['max']
FUNCS_BY_OBJ = {np.linalg.norm: norm}


def cast(v, t):
    t = unfloat(t)
    if isinstance(v, np.ndarray):
        if t in (object, 'object', 'O'):
            return v.copy()
        return elementwise(lambda e: cast(e, t), v) if v.ndim else cast(v[()], t)
    k = np.dtype(t).kind
    if not isinstance(v, Sym):
        with np.errstate(all='ignore'):
            return {'i': int, 'u': int, 'f': float, 'b': bool}[k](v) if k in 'iufb' and not (k in 'iu' and (S.isnan(v) or S.isinf(v))) else np.asarray(v).astype(t)[()]
    if k in 'iu':
        return S.trunc_(v) if v.sort != 'B' else S.asnum(v)
    if k == 'f':
        return S.toreal(v)
    if k == 'b':
        return S.truth(v)
    if k == 'O':
        return v
    raise Unsupported('cast to %s' % t)


# --- builtins replaced inside the modules under test ----------------------
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, Sym) and o.sort == 'R')

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class SFloat(float, metaclass=_FloatMeta):
    def __new__(cls, v=0.0):
        if isinstance(v, np.ndarray) and v.size == 1 and v.dtype == object:
            v = v.ravel()[0]
        if isinstance(v, Sym):
            return S.toreal(v)
        return float(v)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, Sym) and o.sort == 'I')

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class SInt(int, metaclass=_IntMeta):
    def __new__(cls, v=0, *a):
        if isinstance(v, np.ndarray) and v.size == 1 and v.dtype == object:
            v = v.ravel()[0]
        if isinstance(v, Sym):
            return S.trunc_(v)
        return int(v, *a)


def unfloat(t):
    if t is SFloat:
        return float
    if t is SInt:
        return int
    return t


def sround(v, n=None):
    if isinstance(v, Sym):
        return S.round_(v, n)
    if isinstance(v, np.ndarray):
        return around(v, n or 0)
    return builtins.round(v, n) if n is not None else builtins.round(v)


def _minmax(f):
    py = {S.min_: builtins.min, S.max_: builtins.max}[f]

    def g(*a, key=None, **k):
        if key is not None or k:
            return py(*a, key=key, **k) if key is not None else py(*a, **k)
        seq = list(a[0]) if len(a) == 1 else list(a)
        if not any(isinstance(v, Sym) for v in seq) or not all(isinstance(v, Sym) or S.isnum(v) for v in seq):
            return py(seq)
        acc = seq[0]
        for v in seq[1:]:
            acc = f(acc, v)
        return acc
    return g


smin = _minmax(S.min_)
smax = _minmax(S.max_)


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a, **k):
            if n in ('fsum', 'prod', 'dist', 'sumprod'):
                a = [list(x) for x in a]
                if not any(isinstance(e, Sym) for x in a for e in x):
                    return real(*a, **k)
                if n == 'fsum':
                    return S.toreal(reduce_(S.add_, toarr(a[0]), None, False, 0))
                if n == 'prod' and not k:
                    return reduce_(S.mul_, toarr(a[0]), None, False, 1)
                if n == 'sumprod':
                    return dot(toarr(a[0]), toarr(a[1]))
                if n == 'dist':
                    return norm(elementwise(S.sub_, toarr(a[0]), toarr(a[1])))
            if not any(isinstance(x, Sym) for x in a):
                return real(*a, **k)
            if k and n != 'isclose':
                raise Unsupported('math.%s with options' % n)
            if n == 'floor':
                return S.toint_floor(a[0])
            if n == 'ceil':
                return S.neg_(S.toint_floor(S.neg_(a[0])))
            if n == 'trunc':
                return S.trunc_(a[0])
            if n == 'fabs':
                return S.toreal(S.abs_(a[0]))
            if n == 'pow':
                return S.toreal(S.pow_(a[0], a[1]))
            if n == 'isnan' or n == 'isinf':
                return False
            if n == 'isfinite':
                return True
            if n == 'fmod':
                return S.fmod_(*a)
            if n == 'hypot':
                return UFUNCS['hypot'](*a)
            if n in ('radians', 'degrees'):
                return S.mul_(a[0], math.pi / 180.0 if n == 'radians' else 180.0 / math.pi)
            if n == 'copysign':
                m = S.abs_(a[0])
                return S.ite(S.lt_(a[1], 0), S.neg_(m), m)
            if n == 'isclose':
                r, z = k.get('rel_tol', 1e-9), k.get('abs_tol', 0.0)
                return S.le_(S.abs_(S.sub_(*a)), S.max_(S.mul_(r, S.max_(S.abs_(a[0]), S.abs_(a[1]))), z))
            nm = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2'}.get(n, n)
            if nm in S.UF_EVAL:
                if nm == 'log' and len(a) == 2:
                    return S.div_(S.uf('log', a[0]), S.uf('log', a[1]))
                return S.uf(nm, *a)
            raise Unsupported('math.' + n)
        return f


def sarr_zeros(fill):
    def f(shape, dtype=float, *a, **k):
        dtype = unfloat(dtype)
        if isinstance(shape, Sym):
            shape = shape.__index__()
        elif isinstance(shape, (tuple, list)):
            shape = tuple(s.__index__() if isinstance(s, Sym) else s for s in shape)
        if dtype is object or dtype == 'object':
            return np.full(shape, None, dtype=object).view(SArr) if fill is None else np.full(shape, fill, dtype=object).view(SArr)
        kind = np.dtype(dtype).kind
        v = {'f': float, 'i': int, 'u': int, 'b': bool}.get(kind, float)(0 if fill is None else fill)
        if fill is None and kind == 'f':
            v = math.nan        # uninitialised storage must not be relied upon
        out = np.empty(shape, dtype=object)
        out.fill(v)
        return out.view(SArr)
    return f


def like(fn):
    def f(a, dtype=None, *args, shape=None, **k):
        a = toarr(a)
        if dtype is None:
            flat = a.ravel()
            dtype = int if flat.size and all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) or (isinstance(v, Sym) and v.sort == 'I') for v in flat) else float
            if flat.size and all(isinstance(v, (bool, np.bool_)) or (isinstance(v, Sym) and v.sort == 'B') for v in flat):
                dtype = bool
        return fn(shape if shape is not None else a.shape, dtype)
    return f


class NPShim(types.ModuleType):
    def __init__(self, env):
        super().__init__('numpy')
        d = self.__dict__
        d['_cache'] = {}
        d['random'] = env.np_random()
        d['linalg'] = LinalgShim()
        d['zeros'] = sarr_zeros(0)
        d['ones'] = sarr_zeros(1)
        d['empty'] = sarr_zeros(None)
        d['zeros_like'] = like(d['zeros'])
        d['ones_like'] = like(d['ones'])
        d['empty_like'] = like(d['empty'])
        d['vectorize'] = vectorize
        d['frompyfunc'] = lambda f, nin, nout, **k: vectorize(f)

        def full(shape, fill_value, dtype=None, *a, **k):
            if isinstance(shape, Sym):
                shape = shape.__index__()
            if isinstance(fill_value, (np.ndarray, list, tuple)):
                return np.broadcast_to(toarr(fill_value), shape).copy()
            out = np.empty(shape, dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = fill_value if dtype is None else cast(fill_value, dtype)
            return out.view(SArr)
        d['full'] = full
        d['full_like'] = lambda a, v, dtype=None, **k: full(toarr(a).shape, v, dtype)

        def asarray(a, dtype=None, *args, copy=False, **k):
            dtype = unfloat(dtype)
            r = asfloatarr(a, copy=copy)
            if dtype is not None and isinstance(r, np.ndarray):
                r = cast(r, dtype)
            return r
        d['asarray'] = d['asanyarray'] = d['ascontiguousarray'] = d['asfarray'] = asarray
        d['array'] = lambda a, dtype=None, *args, copy=True, **k: ndm(asarray(a, dtype, copy=True), k.get('ndmin', 0))
        d['copy'] = lambda a, *x, **k: asfloatarr(a, copy=True)
        d['float64'] = SFloat
        d['double'] = SFloat
        d['int64'] = SInt
        d['int32'] = SInt
        d['nextafter'] = lambda a, b: a
        d['errstate'] = np.errstate
        d['finfo'] = lambda t=float: np.finfo(unfloat(t))
        d['iinfo'] = lambda t=int: np.iinfo(unfloat(t))
        d['dtype'] = lambda t=float, *a, **k: np.dtype(unfloat(t), *a, **k)
        d['issubdtype'] = lambda a, b: np.issubdtype(unfloat(a), unfloat(b))
        d['can_cast'] = lambda a, b, *r: np.can_cast(unfloat(a), unfloat(b), *r)
        d['isscalar'] = lambda v: isinstance(v, Sym) or np.isscalar(v)

        def eye(n, m=None, **k):
            return toarr(np.eye(n, m, **{a: unfloat(b) for a, b in k.items()}))
        d['eye'] = d['identity'] = eye
        d['linspace'] = lambda a, b, *x, **k: linspace(a, b, *x, **k)

        def arange(*a, **k):
            a = [x.__index__() if isinstance(x, Sym) and x.sort == 'I' else x for x in a]
            k = {p: unfloat(q) for p, q in k.items()}
            return np.arange(*a, **k)
        d['arange'] = arange

        def fromiter(it, dtype=None, count=-1, **k):
            return asfloatarr(list(it))
        d['fromiter'] = fromiter

    def __getattr__(self, name):
        c = self.__dict__['_cache']
        if name in c:
            return c[name]
        real = getattr(np, name)
        r = real
        if isinstance(real, np.ufunc):
            r = UfuncShim(real)
        elif name in FUNCS:
            f = FUNCS[name]

            def r(*a, **k):
                if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                    return f(*a, **k)
                return symres(real(*a, **k))
        elif callable(real) and not isinstance(real, type):
            def r(*a, **k):
                a = [toarr_deep(x) for x in a]
                k = {p: unfloat(q) for p, q in k.items()}
                return symres(real(*a, **k))
        c[name] = r
        return r


def ndm(a, n):
    while a.ndim < n:
        a = a[None]
    return a


def toarr_deep(x):
    if isinstance(x, list) and has_sym(x):
        try:
            return toarr(x)
        except ValueError:
            return [toarr_deep(e) for e in x]
    if isinstance(x, tuple) and has_sym(x):
        return tuple(toarr_deep(e) for e in x)
    return unfloat(x) if isinstance(x, type) else x


def symres(r):
    """float ndarrays produced by real numpy become symbolic-capable"""
    if isinstance(r, np.ndarray) and r.dtype.kind == 'f' and not isinstance(r, SArr):
        return toarr(r)
    return fix(r)


def asfloatarr(a, copy=False):
    if isinstance(a, np.ndarray) and not isinstance(a, SArr) and a.dtype.kind in 'ib':
        return a.copy() if copy else a
    if isinstance(a, (list, tuple)) and len(a) and all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in a):
        return np.array(a)
    if isinstance(a, range):
        return np.array(a)
    if isinstance(a, np.ndarray) and a.dtype == object and not isinstance(a, SArr):
        return a.copy().view(SArr) if copy else a.view(SArr)
    return toarr(a, copy=copy)


class UfuncShim:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        a = [toarr(x) if isinstance(x, (list, tuple)) and has_sym(x) else x for x in a]
        if 'out' in k and not isinstance(k['out'], tuple) and k['out'] is not None:
            k['out'] = (k['out'],)
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return array_ufunc(self.u, '__call__', a, k)
        return symres(self.u(*a, **k))

    def __getattr__(self, n):
        m = getattr(self.u, n)
        if n in ('reduce', 'accumulate', 'outer', 'at'):
            def f(*a, **k):
                a = [toarr(x) if isinstance(x, (list, tuple)) and has_sym(x) else x for x in a]
                return symres(m(*a, **k))
            return f
        return m


class LinalgShim(types.ModuleType):
    def __init__(self):
        super().__init__('linalg')

    def __getattr__(self, n):
        real = getattr(np.linalg, n)

        def f(*a, **k):
            if any(has_sym(x) for x in a):
                if n == 'norm':
                    return norm(*a, **k)
                raise Unsupported('linalg.' + n)
            return symres(real(*a, **k))
        return f
