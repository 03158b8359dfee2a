"""refactor.py SRC DST KIND...: writes a copy of the package with edits that keep its behaviour (used by hand to see that the checks stay quiet)

  flip      a < b -> b > a, a * b -> b * a, if c: A else: B -> if not c: B else: A
  temps     values of returns, conditions and arguments go through a local variable
  loops     for i in range(n) -> while, while c -> while True / break, comprehensions -> loops
  split     conditional expressions -> if statements, a and b -> nested ifs, elif -> nested
  wrap      every function's body moves to a helper it calls
"""
import ast, os, shutil, sys


class Base(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def fresh(self, t='v'):
        self.k += 1
        return '_%s%d' % (t, self.k)


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v)


def hasflow(body, kinds):
    """break/continue belonging to this loop, or others"""
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.For, ast.While)):
            st += n.orelse
            continue
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st += list(ast.iter_child_nodes(n))
    return False


class Flip(Base):
    OPS = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.OPS and simple(n.left) and simple(n.comparators[0]):
            return ast.Compare(n.comparators[0], [self.OPS[type(n.ops[0])]()], [n.left])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and simple(n.left) and simple(n.right):
            return ast.BinOp(n.right, n.op, n.left)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


def simple(e):
    """no calls, so no side effects"""
    return not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(e))


class Temps(Base):
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                v = self.fresh('r')
                out += [assign(v, s.value), ast.Return(name(v))]
            elif isinstance(s, ast.If):
                v = self.fresh('c')
                out += [assign(v, s.test)]
                s.test = name(v)
                out.append(s)
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and all(isinstance(a, (ast.BinOp, ast.Attribute, ast.Subscript, ast.Name, ast.Constant)) for a in s.value.args) \
                    and isinstance(s.value.func, (ast.Attribute, ast.Name)) and not (isinstance(s.value.func, ast.Name) and s.value.func.id == 'super') and not any(isinstance(x, ast.Call) for x in ast.walk(s.value.func)):
                for i, a in enumerate(s.value.args):
                    if not isinstance(a, (ast.Name, ast.Constant)):
                        v = self.fresh('a')
                        out.append(assign(v, a))
                        s.value.args[i] = name(v)
                out.append(s)
            else:
                out.append(s)
        return out

    def generic_visit(self, n):
        ast.NodeTransformer.generic_visit(self, n)
        if isinstance(n, ast.ClassDef):
            return n
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, ast.Module):
                setattr(n, f, self.stmts(b))
        return n


class Loops(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse \
                and not hasflow(n.body, (ast.Continue,)):
            i, m = self.fresh('i'), self.fresh('n')
            return [assign(i, ast.Constant(0)), assign(m, n.iter.args[0]),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [name(m)]), [assign(n.target.id, name(i)), ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1))] + n.body, [])]
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])

    def visit_Assign(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 and not n.value.generators[0].ifs and isinstance(n.value.generators[0].target, ast.Name):
            g = n.value.generators[0]
            l, v = self.fresh('l'), self.fresh('e')
            el = Rename(g.target.id, v).visit(n.value.elt)
            return [assign(l, ast.List([], ast.Load())),
                    ast.For(name(v, True), g.iter, [ast.Expr(ast.Call(ast.Attribute(name(l), 'append', ast.Load()), [el], []))], []),
                    ast.Assign(n.targets, name(l))]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, ast.FunctionDef) else b for b in n.body]
        return n


class Rename(ast.NodeTransformer):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def visit_Name(self, n):
        return ast.Name(self.b, n.ctx) if n.id == self.a else n


class Split(Base):
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                out.append(ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(s.targets, s.value.orelse)]))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                out += [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
            elif isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                a, b = s.test.values[0], s.test.values[1:]
                t = b[0] if len(b) == 1 else ast.BoolOp(ast.And(), b)
                out.append(ast.If(a, [ast.If(t, s.body, [])], []))
            else:
                out.append(s)
        return out
    generic_visit = Temps.generic_visit


class Wrap(Base):
    def visit_ClassDef(self, n):
        out = []
        for f in n.body:
            out.append(f)
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith('__') and f.args.args and f.args.args[0].arg == 'self' and not f.args.posonlyargs \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals') for x in ast.walk(f)):
                doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                h = '_%s_of_%s' % (f.name.strip('_'), n.name.lower())
                a = f.args
                g = ast.FunctionDef(h, ast.arguments([], [ast.arg(x.arg) for x in a.args], a.vararg and ast.arg(a.vararg.arg), [ast.arg(x.arg) for x in a.kwonlyargs], [None] * len(a.kwonlyargs),
                                                     a.kwarg and ast.arg(a.kwarg.arg), []), f.body[len(doc):] or [ast.Pass()], [], None, type_params=[])
                call = ast.Call(ast.Attribute(name('self'), h, ast.Load()), [name(x.arg) for x in a.args[1:]] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                                [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
                f.body = doc + [ast.Return(call)]
                out.append(g)
        n.body = out
        return n


KINDS = dict(flip=Flip, temps=Temps, loops=Loops, split=Split, wrap=Wrap)
if __name__ == '__main__':
    src, dst, kinds = sys.argv[1], sys.argv[2], sys.argv[3:]
    shutil.copytree(src, dst, dirs_exist_ok=True, ignore=shutil.ignore_patterns('__pycache__'))
    for d, _, fs in os.walk(os.path.join(dst, 'niapy')):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                for k in kinds:
                    t = ast.fix_missing_locations(KINDS[k]().visit(t))
                open(p, 'w').write(ast.unparse(t) + '\n')
