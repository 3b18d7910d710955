"""Behaviour-preserving rewrites of a whole source tree, used to test that the
checks judge what the code does and not how it is written.

usage: refactor.py SRC DST T1[,T2...] [seed]   (copies SRC/jax_galsim to DST/jax_galsim rewritten)
"""
import ast
import os
import random
import shutil
import sys

RNG = random.Random(1)
PROB = 1.0


def some():
    return RNG.random() < PROB


class Ret(ast.NodeTransformer):
    """return E -> r = E; return r"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)) or not some():
            return n
        return [ast.Assign([ast.Name("_result", ast.Store())], n.value), ast.Return(ast.Name("_result", ast.Load()))]

    def visit_Lambda(self, n):
        return n


class Flip(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse or not some():
            return n
        t = n.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
        else:
            t = ast.UnaryOp(ast.Not(), t)
        return ast.If(t, n.orelse, n.body)

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if not some():
            return n
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Cmp(ast.NodeTransformer):
    """a < b -> b > a"""

    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and not any(isinstance(x, ast.Call) for x in ast.walk(n)) and some():
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Mul(ast.NodeTransformer):
    """a * b -> b * a;  x ** 2 -> x * x for names"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and some():
            return ast.BinOp(n.right, ast.Mult(), n.left)
        if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) and n.right.value == 2 and some():
            return ast.BinOp(n.left, ast.Mult(), ast.Name(n.left.id, ast.Load()))
        return n


class Aug(ast.NodeTransformer):
    """x *= y -> x = x * y on names"""

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and some():
            return ast.Assign([ast.Name(n.target.id, ast.Store())], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        if isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and some():
            return ast.Assign([n.target], ast.BinOp(ast.Attribute(n.target.value, n.target.attr, ast.Load()), n.op, n.value))
        return n


class Tmp(ast.NodeTransformer):
    """x = f(g(y), ...) -> t = g(y); x = f(t, ...)"""

    def __init__(self):
        self.n = 0

    def fix(self, st, val):
        if isinstance(val, ast.Call) and isinstance(val.func, (ast.Name, ast.Attribute)) and val.args and isinstance(val.args[0], (ast.Call, ast.BinOp)) and some():
            f = val.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if not isinstance(f, ast.Name):
                return st
            self.n += 1
            nm = "_tmp%d" % self.n
            t = ast.Assign([ast.Name(nm, ast.Store())], val.args[0])
            val.args[0] = ast.Name(nm, ast.Load())
            return [t, st]
        if isinstance(val, ast.BinOp) and isinstance(val.left, (ast.BinOp, ast.Call)) and some():
            self.n += 1
            nm = "_tmp%d" % self.n
            t = ast.Assign([ast.Name(nm, ast.Store())], val.left)
            val.left = ast.Name(nm, ast.Load())
            return [t, st]
        return st

    def visit_Assign(self, n):
        return self.fix(n, n.value)

    def visit_Return(self, n):
        return self.fix(n, n.value) if n.value is not None else n

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n


def own_names(fn):
    """names stored in the function itself (not in nested scopes), minus parameters and declared globals"""
    st, no = set(), set()
    a = fn.args
    par = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x:
            par.add(x.arg)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    no.add(c.name)
                for d in ast.walk(c):
                    if isinstance(d, ast.Name) and isinstance(d.ctx, ast.Store):
                        no.add(d.id)
                    if isinstance(d, ast.arg):
                        no.add(d.arg)
                    if isinstance(d, (ast.Nonlocal, ast.Global)):
                        no.update(d.names)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                st.add(c.id)
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                no.update(c.names)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    no.add((al.asname or al.name).split(".")[0])
            if isinstance(c, ast.ExceptHandler) and c.name:
                no.add(c.name)
            walk(c)

    for b in fn.body:
        walk(ast.Module([b], []))
    return st - no - par


class Ren(ast.NodeTransformer):
    """rename local variables"""

    def visit_FunctionDef(self, fn):
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "eval", "exec") for x in ast.walk(fn)):
            return fn
        m = {x: x + "_v" for x in own_names(fn) if not x.startswith("__")}
        for b in fn.body:
            for d in ast.walk(b):
                if isinstance(d, ast.Name) and d.id in m:
                    d.id = m[d.id]
        for b in fn.body:
            self.visit(b)
        return fn


class Helper(ast.NodeTransformer):
    """def m(self, a, b=1): BODY -> def m(self, a, b=1): return self._m_body(a, b)"""

    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            out.append(f)
            if not isinstance(f, ast.FunctionDef) or not f.args.args or f.args.args[0].arg != "self" or not some():
                continue
            if f.name.startswith("__") or f.args.posonlyargs or f.args.vararg or f.args.kwarg or f.args.kwonlyargs:
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in ast.walk(f)) or len(f.body) < 2 + isinstance(f.body[0], ast.Expr):
                continue
            deco = [ast.unparse(d) for d in f.decorator_list]
            if any(not (d.startswith("implements") or d == "property") for d in deco):
                continue
            nm = "_body_of_%s_%s" % (c.name, f.name)
            doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
            g = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a.arg) for a in f.args.args], None, [], [], None, []), f.body[len(doc):], [])
            if not hasattr(ast, "TypeAlias") or True:
                g.type_params = []
            f.body = doc + [ast.Return(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], []))]
            # name-mangled attributes keep working: the helper lives in the same class
            out.append(g)
        c.body = out
        return c


class ModHelper(ast.NodeTransformer):
    """module functions: body moved to a helper"""

    def visit_Module(self, m):
        out = []
        for f in m.body:
            if isinstance(f, ast.FunctionDef) and not f.args.posonlyargs and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs and len(f.body) > 1 and some():
                deco = [ast.unparse(d) for d in f.decorator_list]
                if all(d.startswith("implements") or d in ("jax.jit",) for d in deco) and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global)) for x in ast.walk(f)):
                    nm = "_%s_body" % f.name.strip("_")
                    doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                    if len(f.body) > len(doc):
                        g = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a.arg) for a in f.args.args], None, [], [], None, []), f.body[len(doc):], [])
                        g.type_params = []
                        f.body = doc + [ast.Return(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in f.args.args], []))]
                        out.append(g)
            out.append(f)
        m.body = out
        return m


class Comp(ast.NodeTransformer):
    """x = [E for v in S] -> x = []; for v in S: x.append(E)"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].ifs and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(v.generators[0].target, ast.Name) and some():
            g = v.generators[0]
            t = n.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(v)) or any(isinstance(x, (ast.Lambda, ast.NamedExpr)) for x in ast.walk(v)):
                return n
            u = g.target.id + "_it"
            for x in ast.walk(v.elt):
                if isinstance(x, ast.Name) and x.id == g.target.id:
                    x.id = u
            return [
                ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())),
                ast.For(ast.Name(u, ast.Store()), g.iter, [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [v.elt], []))], []),
            ]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n


class Lam(ast.NodeTransformer):
    """f(lambda x: E) inside a function statement -> def _fn(x): return E; f(_fn)"""

    def __init__(self):
        self.n = 0

    def stmts(self, body):
        out = []
        for s in body:
            for fld in ("body", "orelse", "finalbody"):
                if hasattr(s, fld) and isinstance(getattr(s, fld), list):
                    setattr(s, fld, self.stmts(getattr(s, fld)) if not isinstance(s, ast.ClassDef) or True else None)
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and self.infn:
                pre = []
                me = self

                class L(ast.NodeTransformer):
                    def visit_ListComp(s2, n):
                        return n

                    visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_ListComp

                    def visit_Lambda(s2, n):
                        if not some():
                            return n
                        me.n += 1
                        nm = "_fn%d" % me.n
                        g = ast.FunctionDef(nm, n.args, [ast.Return(n.body)], [])
                        g.type_params = []
                        pre.append(g)
                        return ast.Name(nm, ast.Load())

                s = L().visit(s)
                out += pre
            out.append(s)
        return out

    infn = False

    def visit_FunctionDef(self, f):
        old, self.infn = self.infn, True
        f.body = self.stmts(f.body)
        self.infn = old
        return f

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n


class Noop(ast.NodeTransformer):
    """a statement that does nothing at the start of every function"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[k:k] = ast.parse("_unused = None").body
        return f


class Early(ast.NodeTransformer):
    """if c: ...return; else: B  ->  if c: ...return;  B"""

    def fix(self, body):
        out = []
        for s in body:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and some():
                out += s.orelse
                s.orelse = []
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, fld, self.fix(b))
        return n


class Swap(ast.NodeTransformer):
    """adjacent independent simple assignments are exchanged"""

    @staticmethod
    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(isinstance(x, (ast.Await, ast.Yield, ast.Lambda)) for x in ast.walk(s)) and all(
            ast.unparse(x.func).startswith(("jnp.", "np.", "math.")) for x in ast.walk(s.value) if isinstance(x, ast.Call)
        )

    def generic_visit(self, n):
        super().generic_visit(n)
        b = getattr(n, "body", None)
        if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
            i = 0
            while i + 1 < len(b):
                p, q = b[i], b[i + 1]
                if self.simple(p) and self.simple(q) and some():
                    pn = {x.id for x in ast.walk(p) if isinstance(x, ast.Name)}
                    qn = {x.id for x in ast.walk(q) if isinstance(x, ast.Name)}
                    if p.targets[0].id not in qn and q.targets[0].id not in pn:
                        b[i], b[i + 1] = q, p
                        i += 1
                i += 1
        return n


T = dict(ret=Ret, flip=Flip, cmp=Cmp, mul=Mul, aug=Aug, tmp=Tmp, ren=Ren, helper=Helper, modhelper=ModHelper, comp=Comp, lam=Lam, noop=Noop, early=Early, swap=Swap)


def main():
    global PROB
    src, dst, ts = sys.argv[1:4]
    if len(sys.argv) > 4:
        RNG.seed(int(sys.argv[4]))
        PROB = 0.5
    shutil.copytree(os.path.join(src, "jax_galsim"), os.path.join(dst, "jax_galsim"), ignore=shutil.ignore_patterns("__pycache__"))
    for d, _, fs in os.walk(os.path.join(dst, "jax_galsim")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                for n in ts.split(","):
                    t = T[n]().visit(t)
                    ast.fix_missing_locations(t)
                open(p, "w").write(ast.unparse(t) + "\n")


main()
