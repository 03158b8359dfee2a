"""Source-level if-conversion, applied to the modules under test at import.

The module's current source is parsed and three shapes are rewritten so that
an undecided symbolic condition merges instead of forking:

  A if C else B              both sides pure
  A and B, A or B, not A     right operands pure
  if C: <assignments> else: <assignments>
                             right-hand sides pure; merged only when every
                             assigned value is a number (or an array element /
                             row write), so object identity is never blurred

When merging is not possible at run time the original statement runs and the
condition forks.  On concrete conditions the original code runs unchanged.
"""
import ast
import importlib.abc
import importlib.machinery
import sys

import numpy as np

from . import sym as S
from .sym import Sym

PURE_NAMES = {'abs', 'min', 'max', 'float', 'int', 'len', 'round', 'bool'}
PURE_METHODS = {'copy', 'sum', 'min', 'max', 'mean', 'any', 'all'}
ENABLED = [True]
DEBUG = False


def pure(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.JoinedStr)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if any(k.arg == 'out' or k.arg is None for k in n.keywords):
                return False
            if isinstance(f, ast.Name) and f.id in PURE_NAMES | {'_vf_and', '_vf_or', '_vf_not', '_vf_ite'}:
                continue
            if isinstance(f, ast.Attribute):
                if isinstance(f.value, ast.Name) and f.value.id in ('np', 'math', 'numpy'):
                    continue
                if f.attr in PURE_METHODS and not n.args:
                    continue
            return False
    return True


def fresh(e):
    """does evaluating e create a new object (no alias of an existing array)?"""
    if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Compare, ast.Constant)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Attribute):
            if f.attr == 'copy':
                return True
            if isinstance(f.value, ast.Name) and f.value.id in ('np', 'math') and f.attr not in ('asarray', 'asanyarray', 'reshape', 'ravel', 'squeeze'):
                return True
        if isinstance(f, ast.Name) and f.id in PURE_NAMES:
            return True
    return False


def thunk(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


class X(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.n = 0

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        return node

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = self.block(node.body)
        self.depth -= 1
        return node

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if self.depth and pure(node.body) and pure(node.orelse):
            return ast.copy_location(call('_vf_ite', node.test, thunk(node.body), thunk(node.orelse)), node)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.depth and all(pure(v) for v in node.values[1:]):
            fn = '_vf_and' if isinstance(node.op, ast.And) else '_vf_or'
            acc = node.values[0]
            for v in node.values[1:]:
                acc = call(fn, acc, thunk(v))
            return ast.copy_location(acc, node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.depth and len(node.ops) > 1 and all(pure(v) for v in node.comparators[:-1]) and pure(node.comparators[-1]):
            left = node.left
            acc = None
            if not pure(left):
                return node
            for op, r in zip(node.ops, node.comparators):
                c = ast.Compare(left=left, ops=[op], comparators=[r])
                acc = c if acc is None else call('_vf_and', acc, thunk(c))
                left = r
            return ast.copy_location(acc, node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Not):
            return ast.copy_location(call('_vf_not', node.operand), node)
        return node

    # -- if statements ------------------------------------------------------
    def targets(self, body):
        """assigned targets of a simple block, or None"""
        out = []
        for s in body:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Assign):
                if not pure(s.value):
                    return None
                for t in s.targets:
                    ts = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                    if isinstance(t, (ast.Tuple, ast.List)) and not isinstance(s.value, (ast.Tuple, ast.List)):
                        return None
                    for u in ts:
                        if isinstance(u, (ast.Name, ast.Attribute, ast.Subscript)) and pure(u):
                            out.append((u, False))
                        else:
                            return None
            elif isinstance(s, ast.AugAssign):
                if not pure(s.value) or not pure(s.target):
                    return None
                out.append((s.target, True))
            elif isinstance(s, ast.If):
                if not pure(s.test):
                    return None
                a, b = self.targets(s.body), self.targets(s.orelse)
                if a is None or b is None:
                    return None
                out += a + b
            else:
                return None
        return out

    def visit_If(self, node):
        orig = node
        test = self.visit(node.test)
        plain_body, plain_else = node.body, node.orelse
        t1, t2 = self.targets(plain_body), self.targets(plain_else)
        simple = self.depth and t1 is not None and t2 is not None and (t1 or t2)
        alias = set()
        if simple:
            for b in plain_body + plain_else:
                for st in ast.walk(b):
                    if isinstance(st, ast.Assign):
                        for t in st.targets:
                            if isinstance(t, ast.Name):
                                if not fresh(st.value):
                                    alias.add(t.id)
                            elif isinstance(t, (ast.Tuple, ast.List)):
                                for u, v in zip(t.elts, st.value.elts):
                                    if isinstance(u, ast.Name) and not fresh(v):
                                        alias.add(u.id)
            names = {t.id for t, _ in t1 + t2 if isinstance(t, ast.Name)}
            for t, _ in t1 + t2:
                if not isinstance(t, ast.Name):
                    inner = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
                    if inner & names:
                        simple = False
        import copy
        if not simple:
            node.test = test
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse)
            return node
        self.n += 1
        c, s = '_vf_c%d' % self.n, '_vf_s%d' % self.n

        def nm(i, st=False):
            return ast.Name(id=i, ctx=ast.Store() if st else ast.Load())

        def meth(m, *a):
            return ast.Call(func=ast.Attribute(value=nm(s), attr=m, ctx=ast.Load()), args=list(a), keywords=[])

        def load(t):
            t = copy.deepcopy(t)
            t.ctx = ast.Load()
            return t
        uniq, seen = [], {}
        for t, aug in t1 + t2:
            k = ast.dump(load(t))
            if k in seen:
                if aug:
                    uniq[seen[k]][1] = True
                continue
            seen[k] = len(uniq)
            uniq.append([t, aug])
        snaps, caps, sets = [], lambda i: [], []

        def konst(v):
            return ast.Constant(value=v)
        for i, (t, aug) in enumerate(uniq):
            if isinstance(t, ast.Name):
                snaps.append(ast.Expr(meth('name', konst(t.id), thunk(load(t)), konst(aug), konst(t.id not in alias))))
            elif isinstance(t, ast.Attribute):
                snaps.append(ast.Expr(meth('attr', copy.deepcopy(t.value), konst(t.attr), konst(aug))))
            else:
                snaps.append(ast.Expr(meth('sub', copy.deepcopy(t.value), slice_expr(copy.deepcopy(t.slice)), konst(aug))))
        nlist = [t.id for t, _ in uniq if isinstance(t, ast.Name)]

        def capture(i):
            return ast.Expr(meth('capture', konst(i), *[ast.Tuple(elts=[konst(n), thunk(nm(n))], ctx=ast.Load()) for n in nlist]))

        def restore_names():
            out = []
            for n in nlist:
                out.append(ast.If(test=meth('has', konst(n)),
                                  body=[ast.Assign(targets=[nm(n, True)], value=meth('old', konst(n)))], orelse=[]))
            return out
        spec = [ast.Assign(targets=[nm(s, True)], value=call('_vf_snap'))]
        try_body = snaps + self.block(copy.deepcopy(plain_body)) + [capture(0)] + restore_names() + [ast.Expr(meth('restore'))]
        try_body += (self.block(copy.deepcopy(plain_else)) if plain_else else []) + [capture(1)]
        handler = ast.ExceptHandler(type=nm('_vf_exc'), name=None, body=[ast.Expr(meth('fail'))])
        spec.append(ast.Try(body=try_body, handlers=[handler], orelse=[], finalbody=[]))
        spec += restore_names() + [ast.Expr(meth('restore'))]
        done = [ast.Assign(targets=[nm(n, True)], value=meth('val', konst(n))) for n in nlist] or [ast.Pass()]
        fb = ast.If(test=nm(c), body=self.block(copy.deepcopy(plain_body)), orelse=self.block(copy.deepcopy(plain_else)) if plain_else else [])
        fb2 = copy.deepcopy(fb)
        spec.append(ast.If(test=meth('merge', nm(c)), body=done, orelse=[fb]))
        out = [ast.Assign(targets=[nm(c, True)], value=test),
               ast.If(test=call('_vf_spec', nm(c)), body=spec, orelse=[fb2])]
        for o in out:
            ast.copy_location(o, orig)
            ast.fix_missing_locations(o)
        return out


def slice_expr(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(value=None)
        return call('_vf_slice', s.lower or none, s.upper or none, s.step or none)
    if isinstance(s, ast.Tuple):
        return ast.Tuple(elts=[slice_expr(e) for e in s.elts], ctx=ast.Load())
    return s


class NoMerge(Exception):
    pass


def scalar(v):
    return isinstance(v, Sym) or S.isnum(v)


def nummerge(a):
    return all(scalar(v) and not S.isinf(v) and not S.isnan(v) for v in np.ndarray.view(a, np.ndarray).ravel())


def aliased(a, n, loc):
    """is array a (bound to name n) also reachable, and so writable, under another local name?"""
    for k, v in loc.items():
        if k == n or k.startswith('_vf'):
            continue
        if isinstance(v, np.ndarray):
            if v is a or np.may_share_memory(v, a):
                return True
        elif isinstance(v, (list, tuple)) and len(v) < 200:
            if any(e is a or (isinstance(e, np.ndarray) and np.may_share_memory(e, a)) for e in v):
                return True
    return False


class Snap:
    def __init__(self):
        self.names, self.subs, self.attrs = {}, [], []
        self.new = [{}, {}]
        self.bad = False
        self.freshn = set()

    def name(self, n, th, aug, fr):
        if fr:
            self.freshn.add(n)
        try:
            v = th()
        except (NameError, UnboundLocalError):
            return
        if aug and not scalar(v):
            raise NoMerge
        self.names[n] = v

    def sub(self, obj, idx, aug):
        if not isinstance(obj, (np.ndarray, list)):
            raise NoMerge
        v = obj[idx]
        if isinstance(v, np.ndarray):
            v = v.copy()
        from .npshim import mergeable
        if not mergeable(v):
            raise NoMerge
        self.subs.append([obj, idx, v, None, None])

    def attr(self, obj, a, aug):
        if not hasattr(obj, a):
            raise NoMerge
        v = getattr(obj, a)
        if not scalar(v):
            raise NoMerge
        self.attrs.append([obj, a, v, None, None])

    def capture(self, i, *named):
        for n, th in named:
            try:
                self.new[i][n] = th()
            except (NameError, UnboundLocalError):
                pass
        for s in self.subs:
            v = s[0][s[1]]
            s[3 + i] = v.copy() if isinstance(v, np.ndarray) else v
        for s in self.attrs:
            s[3 + i] = getattr(s[0], s[1])

    def has(self, n):
        return n in self.names

    def old(self, n):
        return self.names[n]

    def restore(self):
        for s in self.subs:
            s[0][s[1]] = s[2]
        for s in self.attrs:
            setattr(s[0], s[1], s[2])

    def fail(self):
        self.bad = True
        if DEBUG:
            import traceback
            traceback.print_exc()

    def merge(self, c):
        from .npshim import elementwise3, mergeable
        if self.bad:
            return False
        self.out = {}
        for n in set(self.new[0]) | set(self.new[1]):
            if n not in self.new[0] or n not in self.new[1]:
                return False
            a, b = self.new[0][n], self.new[1][n]
            if a is b:
                self.out[n] = a
            elif scalar(a) and scalar(b):
                if any(S.isinf(x) or S.isnan(x) for x in (a, b)):
                    return False
                self.out[n] = (a, b)
            elif n in self.freshn and isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape \
                    and nummerge(a) and nummerge(b):
                if n in self.names and aliased(self.names[n], n, sys._getframe(1).f_locals):
                    return False
                self.out[n] = (a, b)
            else:
                return False
        for s in self.subs:
            for v in s[3:]:
                if not mergeable(v):
                    return False
                if any(S.isinf(x) or S.isnan(x) for x in (np.asarray(v, dtype=object).ravel() if isinstance(v, np.ndarray) else [v])):
                    return False
        for s in self.attrs:
            if not all(scalar(v) and not S.isinf(v) and not S.isnan(v) for v in s[3:]):
                return False
        for n, v in self.out.items():
            if isinstance(v, tuple):
                self.out[n] = elementwise3(S.ite, c, v[0], v[1]) if isinstance(v[0], np.ndarray) else S.ite(c, v[0], v[1])
        for s in self.subs:
            a, b = s[3], s[4]
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                r = elementwise3(S.ite, c, a, b)
            else:
                r = S.ite(c, a, b)
            s[0][s[1]] = r
        for s in self.attrs:
            setattr(s[0], s[1], S.ite(c, s[3], s[4]))
        return True

    def val(self, n):
        return self.out[n]


def vf_spec(c):
    if not ENABLED[0] or not isinstance(c, Sym) or c.sort != 'B' or S.CTX is None:
        return False
    return S.CTX.lookup(c) is None


def vf_ite(c, a, b):
    if vf_spec(c):
        d = S.CTX.quick(c)
        if d is not None:
            return a() if d else b()
        try:
            x, y = a(), b()
        except Exception:
            return a() if c else b()
        if scalar(x) and scalar(y):
            return S.ite(c, x, y)
    return a() if c else b()


def vf_and(a, b):
    if isinstance(a, Sym) and a.sort == 'B' and ENABLED[0] and S.CTX is not None:
        d = S.CTX.lookup(a)
        if d is False:
            return False
        if d:
            return b()
        try:
            y = b()
        except Exception:
            return b() if a else a
        if isinstance(y, (bool, np.bool_)) or (isinstance(y, Sym) and y.sort == 'B'):
            return S.and_(a, y)
        return y if a else a
    return a and b()


def vf_or(a, b):
    if isinstance(a, Sym) and a.sort == 'B' and ENABLED[0] and S.CTX is not None:
        d = S.CTX.lookup(a)
        if d:
            return True
        if d is False:
            return b()
        try:
            y = b()
        except Exception:
            return a if a else b()
        if isinstance(y, (bool, np.bool_)) or (isinstance(y, Sym) and y.sort == 'B'):
            return S.or_(a, y)
        return a if a else y
    return a or b()


def vf_not(a):
    if isinstance(a, Sym) and a.sort == 'B':
        return S.not_(a)
    return not a


HELPERS = dict(_vf_spec=vf_spec, _vf_snap=Snap, _vf_exc=Exception, _vf_ite=vf_ite, _vf_and=vf_and,
               _vf_or=vf_or, _vf_not=vf_not, _vf_slice=slice)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = X().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec')

    def exec_module(self, module):
        vars(module).update(HELPERS)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'niapy' and not name.startswith('niapy.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
