"""Path-partitioned abstract interpreter for the Python subset used by the
analysed repository.  No code of the repository is executed: module sources
are parsed with ``ast`` and evaluated over the abstract values of values.py.
"""
import ast
import glob
import math
import operator
import os
import sys
import threading
import builtins as _bi
from .values import *  # noqa
from .values import _birth
from . import grade as gr

sys.setrecursionlimit(200000)
threading.stack_size(64 << 20)

TRACER_ERR = "ConcretizationTypeError"

EXC_BASES = {
    "BaseException": [],
    "Exception": ["BaseException"],
    "KeyboardInterrupt": ["BaseException"],
    "ArithmeticError": ["Exception"],
    "ZeroDivisionError": ["ArithmeticError"],
    "OverflowError": ["ArithmeticError"],
    "LookupError": ["Exception"],
    "KeyError": ["LookupError"],
    "IndexError": ["LookupError"],
    "AttributeError": ["Exception"],
    "TypeError": ["Exception"],
    "ValueError": ["Exception"],
    "RuntimeError": ["Exception"],
    "NotImplementedError": ["RuntimeError"],
    "AssertionError": ["Exception"],
    "OSError": ["Exception"],
    "IOError": ["Exception"],
    "ImportError": ["Exception"],
    "NameError": ["Exception"],
    "StopIteration": ["Exception"],
    "Warning": ["Exception"],
    "UserWarning": ["Warning"],
    "DeprecationWarning": ["Warning"],
    TRACER_ERR: ["TypeError"],
    "GalSimError": ["RuntimeError"],
    "GalSimRangeError": ["GalSimError", "ValueError"],
    "GalSimValueError": ["GalSimError", "ValueError"],
    "GalSimKeyError": ["GalSimError", "KeyError"],
    "GalSimIndexError": ["GalSimError", "IndexError"],
    "GalSimNotImplementedError": ["GalSimError", "NotImplementedError"],
    "GalSimBoundsError": ["GalSimError", "ValueError"],
    "GalSimUndefinedBoundsError": ["GalSimError"],
    "GalSimImmutableError": ["GalSimError"],
    "GalSimIncompatibleValuesError": ["GalSimError", "ValueError", "TypeError"],
    "GalSimSEDError": ["GalSimError", "TypeError"],
    "GalSimHSMError": ["GalSimError"],
    "GalSimFFTSizeError": ["GalSimError"],
    "GalSimConfigError": ["GalSimError", "ValueError"],
    "GalSimConfigValueError": ["GalSimValueError", "GalSimConfigError"],
    "GalSimWarning": ["UserWarning"],
    "GalSimDeprecationWarning": ["GalSimWarning"],
}


def exc_anc(name):
    out = {name}
    for b in EXC_BASES.get(name, ["Exception"]):
        out |= exc_anc(b)
    return out


class Event:
    __slots__ = ("kind", "msg", "loc", "data", "stack")

    def __init__(self, kind, msg, loc, data, stack):
        self.kind = kind
        self.msg = msg
        self.loc = loc
        self.data = data
        self.stack = stack

    def __repr__(self):
        return "%s: %s [%s]" % (self.kind, self.msg, self.loc)


class Interp:
    MAXSTEPS = 400000
    MAXDEPTH = 180

    def __init__(self, repo, pkgs=("jax_galsim",)):
        self.repo = repo
        self.pkgs = pkgs
        self.mods = {}
        self.stack = []
        self.loading = True
        self.load_containers = {}
        self.journal = []
        self.const_cache = {}
        self.functions_analysed = set()
        self.files = set()
        self.steps = 0
        self.strict_ext = False
        from . import ext

        self.ext = ext.Ext_(self)
        self.reset_path()
        self.loading = True

    # ------------------------------------------------------------------ path
    def reset_path(self):
        for undo in reversed(self.journal):
            undo()
        self.journal = []
        self.intern = {}
        self.shapes = {}
        self.nid = 0 if getattr(self, "loading", True) else 1000000  # ids of module-level values stay distinct
        self.script = []
        self.decisions = []
        self.dpos = 0
        self.memo = {}
        self.events = []
        self.writes = []
        self.calls = []
        self.stack = []
        self.steps = 0
        self.region = []
        self.key_uses = []
        self.approx = False
        self.truthlog = []
        self.extcalls = []

    exact = None  # (iterations, fingerprints, valuations): follow recurrences exactly
    assume = None  # hook term -> bool | None
    config = {}
    trace_calls = None  # hook(fnqual, fn, args, kwargs, result)

    def run_paths(self, harness, max_paths=64, on_path=None):
        """Enumerate the decision tree of harness(self).  Returns list of
        (result | AbsRaise | GiveUp, events, decisions)."""
        out = []
        script = []
        complete = True
        while True:
            self.reset_path()
            self.loading = False
            self.staging = False
            self.script = script
            try:
                try:
                    res = harness(self)
                except AbsRaise as e:
                    res = e
                except GiveUp as e:
                    res = e
                except RecursionError:
                    res = GiveUp("recursion")
                except (Brk, Cont, Ret):
                    res = GiveUp("control")
            finally:
                pass
            rec = PathRec(res, list(self.events), list(self.decisions), list(self.writes), list(self.calls))
            rec.key_uses = list(self.key_uses)
            rec.truthlog = list(self.truthlog)
            rec.approx = self.approx
            if on_path:
                on_path(rec)
            out.append(rec)
            # flip the last unflipped decision
            d = list(self.decisions)
            while d and d[-1][2]:
                d.pop()
            if not d:
                break
            if len(out) >= max_paths:
                complete = False
                break
            k, v, _ = d[-1]
            script = [(k2, v2, f2) for k2, v2, f2 in d[:-1]] + [(k, not v, True)]
        self.reset_path()
        self.complete = complete
        return out

    def decide(self, key, default=True):
        if key in self.memo:
            return self.memo[key]
        if self.dpos < len(self.script):
            k, v, flipped = self.script[self.dpos]
            self.dpos += 1
            self.memo[key] = v
            self.decisions.append((k, v, flipped))
            return v
        self.memo[key] = default
        self.decisions.append((key, default, False))
        self.dpos += 1
        return default

    # ------------------------------------------------------------- locations
    def loc(self):
        for fr in reversed(self.stack):
            if fr.fn is not None or True:
                q = fr.fn.qual if fr.fn is not None else fr.globs.file
                return "%s:%d" % (q, fr.line)
        return "?"

    def fnstack(self):
        return [fr.fn.qual for fr in self.stack if fr.fn is not None]

    def event(self, kind, msg, **data):
        self.events.append(Event(kind, msg, self.loc(), data, self.fnstack()))

    # ----------------------------------------------------------------- terms
    def key(self, v):
        if isinstance(v, Sym):
            return ("s", v.id)
        if isinstance(v, bool) or v is None or isinstance(v, (int, float, complex, str, bytes)):
            return (type(v).__name__, repr(v))
        if v is Ellipsis:
            return ("...",)
        if isinstance(v, Arr):
            return ("A",) + tuple(self.key(x) for x in v.e)
        if isinstance(v, (tuple, list)):
            return ("t",) + tuple(self.key(x) for x in v)
        if isinstance(v, dict):
            return ("d",) + tuple((self.key(k), self.key(x)) for k, x in v.items())
        if isinstance(v, slice):
            return ("sl", self.key(v.start), self.key(v.stop), self.key(v.step))
        if isinstance(v, Ext):
            return ("e", v.path)
        if isinstance(v, FmtStr):
            return ("f",) + tuple(p if isinstance(p, str) else (p[0], self.key(p[1])) for p in v.parts)
        if isinstance(v, (Obj, ExtObj, Fn)):
            return ("o", v.birth)
        if isinstance(v, Bound):
            return ("b", self.key(v.fn), self.key(v.self))
        return ("x", id(v))

    def atom(self, name, grade=None, kind="jax", ndim=0, hint="f", traced=False, w=(), **extra):
        s = self.mk("atom", (name,), grade=grade, kind=kind, ndim=ndim, hint=hint, traced=traced, w=w)
        s.deps = frozenset([name])
        if extra:
            s.extra = extra
        return s

    def mk(self, op, args, grade=None, kind="jax", ndim=None, hint=None, traced=None, w=None, lit=None, nodeps=False):
        k = (op,) + tuple(self.key(a) for a in args)
        if lit is not None:
            k = k + ("lit", repr(lit))
        staged = self.staging and kind == "jax" and op != "atom"
        if staged:
            # inside a jax trace every jax operation yields a tracer
            traced = True
            k = k + ("staged",)
        s = self.intern.get(k)
        if s is not None:
            return s
        s = Sym()
        self.nid += 1
        s.id = self.nid
        s.op = op
        s.args = tuple(args)
        s.grade = grade
        s.kind = kind
        s.ndim = ndim
        s.hint = hint
        s.w = w
        s.lit = lit
        s.extra = None
        deps = set()
        tr = False
        for a in args:
            d, t = self.deps_of(a)
            deps |= d
            tr = tr or t
        s.deps = frozenset(deps)
        s.traced = tr if traced is None else traced
        self.intern[k] = s
        return s

    def deps_of(self, v, seen=None):
        if isinstance(v, Sym):
            return v.deps, v.traced
        if isinstance(v, CONST):
            return frozenset(), False
        if seen is None:
            seen = set()
        if id(v) in seen:
            return frozenset(), False
        seen.add(id(v))
        items = ()
        if isinstance(v, Arr):
            items = v.flat()
        elif isinstance(v, (tuple, list, set)):
            items = v
        elif isinstance(v, dict):
            items = list(v.values()) + [k for k in v if not isinstance(k, CONST)]
        elif isinstance(v, Obj):
            items = v.attrs.values()
        elif isinstance(v, ExtObj):
            items = list(v.args) + list(v.kwargs.values()) + list(v.attrs.values())
        elif isinstance(v, Part):
            items = v.args + list(v.kwargs.values()) + [v.fn]
        elif isinstance(v, Bound):
            items = [v.self]
        elif isinstance(v, At):
            items = [v.x]
        elif isinstance(v, FmtStr):
            items = [p[1] for p in v.parts if not isinstance(p, str)]
        elif isinstance(v, slice):
            items = [v.start, v.stop, v.step]
        else:
            return frozenset(), False
        d, t = set(), False
        for x in items:
            a, b = self.deps_of(x, seen)
            d |= a
            t = t or b
        return frozenset(d), t

    def is_traced(self, v):
        return self.deps_of(v)[1]

    staging = False

    def litval(self, v):
        """python number if v is a known number else None"""
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, complex)):
            return v
        if isinstance(v, Sym) and v.lit is not None:
            return v.lit
        return None

    def litsym(self, val, kind="jax", ndim=0):
        g = gr.ONE
        if isinstance(val, (int, float)) and not isinstance(val, bool):
            if val == 0 or (isinstance(val, float) and (math.isinf(val) or math.isnan(val))):
                g = POLY
        elif isinstance(val, complex) and val == 0:
            g = POLY
        h = "b" if isinstance(val, bool) else "i" if isinstance(val, int) else "f" if isinstance(val, float) else "c"
        return self.mk("lit", (kind, ndim), grade=g, kind=kind, ndim=ndim, hint=h, traced=False, w=(), lit=val)

    def grade(self, v):
        if isinstance(v, Sym):
            return v.grade
        if isinstance(v, (bool,)):
            return gr.ONE
        if isinstance(v, (int, float, complex)):
            if v == 0 or (isinstance(v, float) and (math.isinf(v) or math.isnan(v))):
                return POLY
            return gr.ONE
        if isinstance(v, (Arr,)):
            return self.gjoin([self.grade(x) for x in v.flat()])
        if isinstance(v, (list, tuple)):
            return self.gjoin([self.grade(x) for x in v])
        return None

    def gjoin(self, gs):
        out = POLY
        for g in gs:
            if g is None:
                return None
            if g == POLY:
                continue
            if out == POLY:
                out = g
            elif out != g:
                return None
        return out

    def weight(self, v):
        if isinstance(v, Sym):
            return v.w
        if isinstance(v, (int, float, complex)):
            return ()
        if isinstance(v, Arr):
            ws = {self.weight(x) for x in v.flat()}
            return ws.pop() if len(ws) == 1 else None
        return None

    def kindof(self, *vs):
        ks = set()
        for v in vs:
            if isinstance(v, Sym):
                ks.add(v.kind)
            elif isinstance(v, Arr):
                ks.add("jax")
            elif isinstance(v, int):
                ks.add("pyi")
            elif isinstance(v, (float, complex)):
                ks.add("pyf")
            else:
                ks.add("any")
        for k in ("jax", "np", "any"):
            if k in ks:
                return k
        if ks <= {"pyi", "pyb"}:
            return "pyi"
        return "pyf"

    def ndims(self, *vs):
        n = 0
        for v in vs:
            if isinstance(v, Sym):
                if v.ndim is None:
                    return None
                n = max(n, v.ndim)
            elif isinstance(v, Arr):
                n = max(n, v.nd)
            elif isinstance(v, (int, float, complex)):
                pass
            else:
                return None
        return n

    def hints(self, *vs):
        order = "bifc"
        m = 0
        for v in vs:
            if isinstance(v, Sym):
                h = v.hint
            elif isinstance(v, bool):
                h = "b"
            elif isinstance(v, int):
                h = "i"
            elif isinstance(v, float):
                h = "f"
            elif isinstance(v, complex):
                h = "c"
            elif isinstance(v, Arr):
                h = self.hints(*v.flat())
            else:
                h = None
            if h is None or h not in order:
                return None
            m = max(m, order.index(h))
        return order[m]

    # ------------------------------------------------------- arithmetic core
    def is_lit_nonzero(self, v):
        lv = self.litval(v)
        return lv is not None and self.grade(v) == gr.ONE

    def g_unify(self, a, b, what):
        """grade of a sum/join of a and b; records an event on mismatch"""
        ga, gb = self.grade(a), self.grade(b)
        if ga is None or gb is None:
            return None
        if ga == POLY:
            return gb
        if gb == POLY:
            return ga
        if ga == gb:
            return ga
        pix = self.config.get("pixel_bases")
        if pix:
            for x, g in ((a, gb), (b, ga)):
                if self.is_lit_nonzero(x) and set(k for k, _ in g) <= pix:
                    return g
        if what in ("where", "compare", "select", "minmax") and (self.is_lit_nonzero(a) or self.is_lit_nonzero(b)):
            return gb if self.is_lit_nonzero(a) else ga
        if self.litval(a) is not None and abs(self.litval(a)) < 1e-8:
            return gb
        if self.litval(b) is not None and abs(self.litval(b)) < 1e-8:
            return ga
        self.event("grade", "%s of %s and %s" % (what, gr.show(ga), gr.show(gb)), a=a, b=b, what=what, ga=ga, gb=gb)
        return None

    def mono(self, v):
        """(monomial, coeff) of a weight-0 multiplier"""
        lv = self.litval(v)
        if lv is not None and not isinstance(lv, complex):
            return (), float(lv)
        if isinstance(v, Sym):
            if v.op == "mul":
                m1, c1 = self.mono(v.args[0])
                m2, c2 = self.mono(v.args[1])
                d = dict(m1)
                for t, e in m2:
                    d[t] = d.get(t, 0) + e
                return tuple(sorted((t, e) for t, e in d.items() if e)), c1 * c2
            if v.op == "div":
                m1, c1 = self.mono(v.args[0])
                m2, c2 = self.mono(v.args[1])
                d = dict(m1)
                for t, e in m2:
                    d[t] = d.get(t, 0) - e
                if c2 == 0:
                    return ((v.id, 1),), 1.0
                return tuple(sorted((t, e) for t, e in d.items() if e)), c1 / c2
            if v.op == "neg":
                m, c = self.mono(v.args[0])
                return m, -c
            if v.op in ("asarray", "item"):
                return self.mono(v.args[0])
            return ((v.id, 1),), 1.0
        return ((id(v), 1),), 1.0

    def w_mul(self, a, b):
        wa, wb = self.weight(a), self.weight(b)
        if wa is None or wb is None:
            return None
        if not wa and not wb:
            return ()
        if wa and wb:
            return None
        if wb:
            a, b, wa = b, a, wb
        m, c = self.mono(b)
        return gr.wmono(wa, m, c)

    def arith(self, op, a, b):
        """op in add sub mul div floordiv mod pow matmul"""
        la, lb = self.litval(a), self.litval(b)
        jaxy = isinstance(a, (Sym, Arr)) or isinstance(b, (Sym, Arr))
        if la is not None and lb is not None and op != "matmul":
            f = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "floordiv": operator.floordiv, "mod": operator.mod, "pow": operator.pow}[op]
            try:
                r = f(la, lb)
            except ZeroDivisionError:
                if jaxy:
                    r = float("nan")
                else:
                    raise self.pyexc("ZeroDivisionError", "division by zero")
            except OverflowError:
                raise self.pyexc("OverflowError", "overflow")
            return self.litsym(r, self.kindof(a, b), self.ndims(a, b) or 0) if jaxy else r
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_arith(op, a, b)
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            # numpy broadcasting of python sequences against arrays
            if isinstance(a, (list, tuple)):
                a = self.ext.to_arr(a)
            if isinstance(b, (list, tuple)):
                b = self.ext.to_arr(b)
            return self.arith(op, a, b)
        kind, ndim, hint = self.kindof(a, b), self.ndims(a, b), self.hints(a, b)
        if kind == "pyi" and (op == "div" or op == "pow" and not isinstance(lb, int)):
            kind = "pyf"
        if op == "add":
            if la == 0 and la is not None:
                return self.as_(b, kind, ndim, hint)
            if lb == 0 and lb is not None:
                return self.as_(a, kind, ndim, hint)
            g = self.g_unify(a, b, "sum")
            x, y = (a, b) if self.key(a) <= self.key(b) else (b, a)
            return self.mk("add", (x, y), g, kind, ndim, hint, w=gr.wadd(self.weight(a), self.weight(b)))
        if op == "sub":
            if lb == 0 and lb is not None:
                return self.as_(a, kind, ndim, hint)
            if la == 0 and la is not None:
                return self.neg(b)
            g = self.g_unify(a, b, "difference")
            return self.mk("sub", (a, b), g, kind, ndim, hint, w=gr.wadd(self.weight(a), self.weight(b), -1))
        if op == "mul":
            if la == 1 and la is not None:
                return self.as_(b, kind, ndim, hint)
            if lb == 1 and lb is not None:
                return self.as_(a, kind, ndim, hint)
            if la == -1 and la is not None:
                return self.neg(b)
            if lb == -1 and lb is not None:
                return self.neg(a)
            x, y = (a, b) if self.key(a) <= self.key(b) else (b, a)
            return self.mk("mul", (x, y), gr.gmul(self.grade(a), self.grade(b)), kind, ndim, hint, w=self.w_mul(a, b))
        if op == "div":
            if lb == 1 and lb is not None:
                return self.as_(a, kind, ndim, "f" if hint in ("i", "b") else hint)
            w = None
            wa, wb = self.weight(a), self.weight(b)
            if wb == () and wa is not None:
                if not wa:
                    w = ()
                else:
                    m, c = self.mono(b)
                    w = gr.wmono(wa, m, c, -1) if c else None
            return self.mk("div", (a, b), gr.gdiv(self.grade(a), self.grade(b)), kind, ndim, "f" if hint in ("i", "b") else hint, w=w)
        if op == "pow":
            if lb is not None and not isinstance(lb, complex):
                g = gr.gpow(self.grade(a), lb) if math.isfinite(lb) else None
                if lb == 1:
                    return self.as_(a, kind, ndim, hint)
            else:
                ga, gb = self.grade(a), self.grade(b)
                for nm, gg in (("exponent", gb),):
                    if gg not in (None, POLY, gr.ONE) and any(not k.startswith("~") for k, _ in gg):
                        self.event("grade", "exponent of a power has grade %s" % gr.show(gg), a=a, b=b, what="pow", ga=ga, gb=gb)
                g = gr.ONE if ga in (gr.ONE,) else None
            return self.mk("pow", (a, b), g, kind, ndim, hint, w=() if self.weight(a) == () == self.weight(b) else None)
        if op == "floordiv":
            return self.mk("floordiv", (a, b), gr.gdiv(self.grade(a), self.grade(b)), kind, ndim, hint, w=() if self.weight(a) == () == self.weight(b) else None)
        if op == "mod":
            g = self.g_unify(a, b, "mod")
            return self.mk("mod", (a, b), g, kind, ndim, hint, w=() if self.weight(a) == () == self.weight(b) else None)
        if op == "matmul":
            return self.mk("matmul", (a, b), gr.gmul(self.grade(a), self.grade(b)), kind, ndim, hint)
        raise GiveUp("arith " + op)

    def as_(self, v, kind, ndim, hint):
        """v with the array type of an operation result; same value number"""
        return v if isinstance(v, (Sym, Arr)) else self.litsym(v, kind, ndim or 0) if self.litval(v) is not None and kind in ("jax", "np") else v

    def arr_arith(self, op, a, b):
        r = self.arr_arith_(op, a, b)
        if isinstance(r, Arr) and not r.mut and any(isinstance(x, Arr) for x in (a, b)) and all(x.mut for x in (a, b) if isinstance(x, Arr)) and not any(isinstance(x, Sym) and x.kind == "jax" and x.lit is None for x in (a, b)):
            r.mut = True  # numpy arithmetic makes numpy arrays
        return r

    def arr_arith_(self, op, a, b):
        if op == "matmul":
            return self.ext.dot(a, b)
        if isinstance(a, (list, tuple)):
            a = self.ext.to_arr(a)
        if isinstance(b, (list, tuple)):
            b = self.ext.to_arr(b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.shape == b.shape:
                if a.nd == 1:
                    return Arr([self.arith(op, x, y) for x, y in zip(a.e, b.e)], a.lead or b.lead)
                return Arr([tuple(self.arith(op, x, y) for x, y in zip(r, s)) for r, s in zip(a.e, b.e)], a.lead or b.lead)
            if a.nd == 2 and b.nd == 1 and a.shape[1] == b.shape[0]:
                return Arr([tuple(self.arith(op, x, y) for x, y in zip(r, b.e)) for r in a.e], a.lead)
            if a.nd == 1 and b.nd == 2 and b.shape[1] == a.shape[0]:
                return Arr([tuple(self.arith(op, x, y) for x, y in zip(a.e, r)) for r in b.e], b.lead)
            if a.nd == 2 and b.nd == 2:
                na, ma = a.shape
                nb, mb = b.shape
                if (na == nb or 1 in (na, nb)) and (ma == mb or 1 in (ma, mb)):
                    return Arr(
                        [
                            tuple(
                                self.arith(op, a.e[i if na > 1 else 0][j if ma > 1 else 0], b.e[i if nb > 1 else 0][j if mb > 1 else 0])
                                for j in range(max(ma, mb))
                            )
                            for i in range(max(na, nb))
                        ],
                        a.lead or b.lead,
                    )
            raise GiveUp("array shapes %s %s" % (a.shape, b.shape))
        if isinstance(a, Arr):
            if not a.lead and isinstance(b, Sym) and b.ndim != 0:
                e = self.ext.expand(b)
                if isinstance(e, Arr):
                    return self.arr_arith(op, a, e)
            return a.map(lambda x: self.arith(op, x, b))
        if not b.lead and isinstance(a, Sym) and a.ndim != 0:
            e = self.ext.expand(a)
            if isinstance(e, Arr):
                return self.arr_arith(op, e, b)
        return b.map(lambda y: self.arith(op, a, y))

    def neg(self, a):
        la = self.litval(a)
        if la is not None:
            return self.litsym(-la, a.kind, a.ndim) if isinstance(a, Sym) else -a
        if isinstance(a, Arr):
            return a.map(self.neg)
        if isinstance(a, Sym):
            if a.op == "neg":
                return a.args[0]
            return self.mk("neg", (a,), a.grade, a.kind, a.ndim, a.hint, w=gr.wscale(a.w, -1))
        raise GiveUp("neg")

    def compare(self, op, a, b):
        """op: eq ne lt le gt ge on Sym/const"""
        la, lb = self.litval(a), self.litval(b)
        if la is not None and lb is not None:
            f = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}[op]
            try:
                r = f(la, lb)
            except TypeError:
                raise self.pyexc("TypeError", "compare")
            k = self.kindof(a, b)
            return self.litsym(r, k) if k in ("jax", "np") and (isinstance(a, Sym) or isinstance(b, Sym)) else r
        if isinstance(a, Arr) or isinstance(b, Arr):
            a, b = self.ext.rows_like(a, b), self.ext.rows_like(b, a)
            if isinstance(a, Arr) and isinstance(b, Arr) and a.shape == b.shape:
                if a.nd == 1:
                    return Arr([self.compare(op, x, y) for x, y in zip(a.e, b.e)], a.lead)
                return Arr([tuple(self.compare(op, x, y) for x, y in zip(r, s)) for r, s in zip(a.e, b.e)], a.lead)
            if isinstance(a, Arr) and (isinstance(b, Sym) or lb is not None):
                return a.map(lambda x: self.compare(op, x, b))
            if isinstance(b, Arr) and (isinstance(a, Sym) or la is not None):
                return b.map(lambda x: self.compare(op, a, x))
            if isinstance(a, (list, tuple)):
                return self.compare(op, self.ext.to_arr(a), b)
            if isinstance(b, (list, tuple)):
                return self.compare(op, a, self.ext.to_arr(b))
        num = ("jax", "np", "pyf", "pyi", "pyb")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.kind in num and (isinstance(y, (str, FmtStr)) or y is None or isinstance(y, (Obj, dict, Cls, Ext))):
                if op == "eq":
                    return False
                if op == "ne":
                    return True
        if isinstance(a, Sym) and isinstance(b, Sym) and a is not b and a.kind in num and b.kind in num and self.vbase(a) is self.vbase(b):
            r = op in ("eq", "le", "ge")
            return self.litsym(r, "jax") if "jax" in (a.kind, b.kind) or "np" in (a.kind, b.kind) else r
        if isinstance(a, Sym) and a is b and op in ("eq", "le", "ge") and a.kind != "any":
            return self.litsym(True, "jax" if a.kind == "jax" else "pyb") if a.kind in ("jax", "np") else True
        if isinstance(a, Sym) and a is b and op in ("ne", "lt", "gt") and a.kind != "any":
            return self.litsym(False, "jax") if a.kind in ("jax", "np") else False
        if isinstance(a, Sym) and isinstance(b, (Sym, int)) or isinstance(b, Sym) and isinstance(a, int):
            d = self.intdiff(a, b)
            if d is not None:
                r = {"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[op]
                return self.litsym(r, self.kindof(a, b)) if self.kindof(a, b) in ("jax", "np") else r
        if op in ("lt", "le", "gt", "ge") or (op in ("eq", "ne")):
            ga, gb = self.grade(a), self.grade(b)
            if ga is not None and gb is not None and self.kindof(a) in num and self.kindof(b) in num:
                self.g_unify(a, b, "compare")
                wa, wb = self.weight(a), self.weight(b)
                if wa is not None and wb is not None and wa != wb and self.config.get("torsor"):
                    if la is None and lb is None:
                        self.event("torsor", "comparison of values with different origin dependence", a=a, b=b, wa=wa, wb=wb)
        kind, ndim = self.kindof(a, b), self.ndims(a, b)
        kind = "jax" if kind == "jax" else "np" if kind == "np" else "pyb" if kind in ("pyf", "pyi", "pyb") else "any"
        if op == "ne":
            return self.not_(self.compare("eq", a, b))
        if op == "gt":
            op, a, b = "lt", b, a
        if op == "ge":
            op, a, b = "le", b, a
        if op == "eq":
            a, b = (a, b) if self.key(a) <= self.key(b) else (b, a)
        return self.mk(op, (a, b), gr.ONE, kind, ndim, "b", w=())

    def affine(self, v, d=12):
        """integer-affine form {id: coefficient}, constant of an integral value"""
        if isinstance(v, int):
            return {}, int(v)
        if isinstance(v, Sym) and v.lit is not None and isinstance(v.lit, int):
            return {}, int(v.lit)
        if not isinstance(v, Sym) or d == 0 or v.kind == "any":
            return None
        v = self.vbase(v)
        if isinstance(v, Sym) and v.lit is not None:
            return ({}, int(v.lit)) if self.is_int(v) else None
        if v.op in ("add", "sub") and v.ndim == 0:
            x, y = self.affine(v.args[0], d - 1), self.affine(v.args[1], d - 1)
            if x is None or y is None:
                return None
            s = 1 if v.op == "add" else -1
            t = dict(x[0])
            for k, c in y[0].items():
                t[k] = t.get(k, 0) + s * c
                if t[k] == 0:
                    del t[k]
            return t, x[1] + s * y[1]
        if v.op == "neg" and v.ndim == 0:
            x = self.affine(v.args[0], d - 1)
            return None if x is None else ({k: -c for k, c in x[0].items()}, -x[1])
        if v.op == "mul" and v.ndim == 0 and isinstance(v, Sym):
            for p, q in (v.args, v.args[::-1]):
                n = self.litval(p)
                if type(n) is int:
                    x = self.affine(q, d - 1)
                    return None if x is None else ({k: c * n for k, c in x[0].items() if n}, x[1] * n)
        return ({v.id: 1}, 0) if self.is_int(v) and v.ndim == 0 else None

    def intdiff(self, a, b):
        """a - b when it is a known integer"""
        x = self.affine(a)
        if x is None:
            return None
        y = self.affine(b)
        if y is None or x[0] != y[0]:
            return None
        return x[1] - y[1]

    def vbase(self, v):
        """the number a value denotes, without representation changes"""
        while isinstance(v, Sym) and v.op in ("asarray", "item", "tofloat", "error_if", "astype") and v.args and isinstance(v.args[0], Sym):
            v = v.args[0]
        return v

    def intbase(self, v):
        b = self.vbase(v)
        return b if isinstance(b, Sym) and self.is_int(b) else None

    def is_int(self, v, d=8):
        """the value is known to be integral"""
        if isinstance(v, int):
            return True
        if isinstance(v, float):
            return v == int(v) if math.isfinite(v) else False
        if not isinstance(v, Sym) or d == 0:
            return False
        if v.hint == "i":
            return True
        if v.lit is not None:
            return isinstance(v.lit, (int, float)) and self.is_int(v.lit)
        if v.op in ("asarray", "item", "tofloat", "error_if", "neg", "add", "sub", "mul", "abs", "minimum", "maximum"):
            return all(self.is_int(a, d - 1) for a in (v.args[:1] if v.op in ("asarray", "item", "tofloat", "error_if") else v.args))
        return v.op in ("floordiv", "floor", "ceil", "round", "trunc", "rint")

    def not_(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, Sym):
            if v.lit is not None:
                return self.litsym(not v.lit, v.kind, v.ndim)
            if v.op == "not":
                return v.args[0]
            return self.mk("not", (v,), gr.ONE, v.kind, v.ndim, "b", w=())
        if isinstance(v, Arr):
            return v.map(self.not_)
        return not self.truth(v)

    # ----------------------------------------------------------------- truth
    def tracer_error(self, what, v=None):
        self.event("concretize", what, value=v)
        return self.pyexc(TRACER_ERR, what)

    def truth(self, v):
        if isinstance(v, (Arr,)):
            if len(v.flat()) == 1:
                return self.truth(v.flat()[0])
            raise self.pyexc("ValueError", "truth value of an array")
        if isinstance(v, Sym):
            if v.lit is not None and not v.traced:
                return bool(v.lit)
            if v.op == "not" and v.lit is None:
                return not self.truth(v.args[0])
            if v.traced:
                raise self.tracer_error("bool() of traced value %s" % show_term(v, 3), v)
            if v.op in ("land",):
                return self.truth(v.args[0]) and self.truth(v.args[1])
            if v.op in ("lor",):
                return self.truth(v.args[0]) or self.truth(v.args[1])
            if v.op in ("any", "all", "asarray", "item", "bool") and len(v.args) == 1 and isinstance(v.args[0], Sym) and (v.args[0].ndim == 0 or v.args[0].hint == "b" and v.op not in ("any", "all")):
                return self.truth(v.args[0])
            return self.decide_term(v)
        if isinstance(v, FmtStr):
            return True
        if isinstance(v, (Obj,)):
            m = self.find_method(v, "__bool__")
            if m is not None:
                return self.truth(self.call(m, [], {}))
            m = self.find_method(v, "__len__")
            if m is not None:
                return self.truth(self.call(m, [], {}))
            return True
        if isinstance(v, CONST) or isinstance(v, (list, tuple, dict, set, range)):
            return bool(v)
        return True

    def decide_term(self, v):
        if self.assume is not None:
            r = self.assume(self, v)
            if r is not None:
                return r
        key, val = self.canon_cond(v)
        if val is not None:
            return val
        if key not in self.memo:
            self.truthlog.append((v, None))
            r = self.decide(key)
            self.truthlog[-1] = (v, r)
            return r
        r = self.decide(key)
        self.truthlog.append((v, r))
        return r

    def canon_cond(self, v):
        """(decision key, known truth): conditions over equal values share one
        decision, and an integer comparison whose sides differ by the same
        amount under every valuation is decided"""
        from . import fp

        f = self.__dict__.get("_fp0")
        if f is None or f[0] is not self.intern:
            f = self._fp0 = (self.intern, fp.Fp(self))
        F = f[1]
        if v.op in ("lt", "le", "eq") and len(v.args) == 2:
            a, b = v.args
            va = [F.at(a, k) for k in range(fp.K)]
            vb = [F.at(b, k) for k in range(fp.K)]
            if not any(t or fp.isnan(x) for x, t in va + vb):
                if self.is_int(a) and self.is_int(b):
                    ds = {round(float(x[0]) - float(y[0]), 6) for x, y in zip(va, vb)}
                    if len(ds) == 1:
                        d = ds.pop()
                        return None, {"lt": d < 0, "le": d <= 0, "eq": d == 0}[v.op]
                elif v.op == "eq" and all(fp.close(x[0], y[0]) for x, y in zip(va, vb)):
                    return None, True
                return ("fp", v.op, tuple((fp.rnd(x[0]), fp.rnd(y[0])) for x, y in zip(va, vb))), None
        elif v.op in ("atom", "asarray", "item", "tofloat"):
            b = self.vbase(v)
            return ("t", b.id), None
        return ("t", v.id), None

    # ------------------------------------------------------------ exceptions
    def pyexc(self, name, msg=""):
        return AbsRaise(ExtObj(Ext("builtins." + name), [msg]), self.loc(), msg)

    def exc_names(self, v):
        """all names an exception value is an instance of"""
        if isinstance(v, Obj):
            out = set()
            for c in v.cls.mro:
                if isinstance(c, Cls):
                    out.add(c.name)
                else:
                    out |= exc_anc(c.name)
            return out
        if isinstance(v, ExtObj):
            return exc_anc(v.cls.name)
        if isinstance(v, Ext):
            return exc_anc(v.name)
        if isinstance(v, Cls):
            return {c.name for c in v.mro}
        return {"Exception", "BaseException"}

    # --------------------------------------------------------------- modules
    def modpath(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def is_internal(self, name):
        return name.split(".")[0] in self.pkgs

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.modpath(name)
        if path is None:
            return None
        rel = os.path.relpath(path, self.repo)
        m = Mod(name, rel)
        self.mods[name] = m
        with open(path, encoding="utf-8") as f:
            src = f.read()
        m.src = src
        m.tree = ast.parse(src, rel)
        self.files.add(rel)
        m.ns["__name__"] = name
        m.ns["__file__"] = rel
        m.ispkg = path.endswith("__init__.py")
        fr = Frame(None, m)
        fr.vars = m.ns
        self.stack.append(fr)
        try:
            self.block(m.tree.body, fr)
        finally:
            self.stack.pop()
        m.done = True
        if "." in name:
            par, _, last = name.rpartition(".")
            pm = self.mods.get(par)
            if pm is not None:
                pm.ns.setdefault(last, m)
        return m

    def import_(self, name):
        """import a.b.c, returning module a.b.c"""
        if self.is_internal(name):
            parts = name.split(".")
            m = None
            for i in range(1, len(parts) + 1):
                m = self.load(".".join(parts[:i]))
                if m is None:
                    return None
            return m
        return Ext(self.ext.canon(name))

    def lift_galsim(self, modname, clsname):
        """build a class of the installed GalSim from its source, so that methods
        the repository inherits from it are analysed too"""
        key = "galsim." + modname
        if key in self.mods:
            return self.mods[key].ns.get(clsname)
        path = None
        for d in sorted(glob.glob("/opt/venv/lib/python3*/site-packages/galsim")):
            if os.path.exists(os.path.join(d, modname + ".py")):
                path = os.path.join(d, modname + ".py")
        if path is None:
            return None
        with open(path, encoding="utf-8") as f:
            src = f.read()
        m = Mod(key, "galsim/%s.py" % modname)
        m.src = src
        m.tree = ast.parse(src, m.file)
        m.ispkg = False
        m.ns["__name__"] = key
        self.mods[key] = m
        names = {}
        node = None
        for st in m.tree.body:
            if isinstance(st, ast.Import):
                for al in st.names:
                    names[al.asname or al.name.split(".")[0]] = Ext(self.ext.canon(al.name))
            elif isinstance(st, ast.ImportFrom):
                for al in st.names:
                    pre = ("galsim." + (st.module or "")) if st.level else st.module
                    pre = "galsim" if st.level else pre
                    names[al.asname or al.name] = Ext(self.ext.canon(pre + "." + al.name))
            elif isinstance(st, ast.ClassDef) and st.name == clsname:
                node = st
        m.ns.update(names)
        ident = PyFn(lambda I, a, k: a[0], "lazy_property")
        m.ns["doc_inherit"] = ident
        m.ns["lazy_property"] = PyFn(lambda I, a, k: Prop(a[0], None), "lazy_property")
        fr = Frame(None, m)
        fr.vars = m.ns
        node = ast.ClassDef(node.name, [], [], node.body, [], lineno=node.lineno, col_offset=0)
        self.stack.append(fr)
        try:
            self.stmt(node, fr)
        finally:
            self.stack.pop()
        c = m.ns[clsname]
        c.bases = [Ext("galsim.BaseWCS")]
        c.lifted = True
        c.mro = c._mro()
        m.done = True
        return c

    def s_Import(self, st, fr):
        for al in st.names:
            if al.asname:
                fr_set(self, fr, al.asname, self.import_(al.name))
            else:
                self.import_(al.name)
                top = al.name.split(".")[0]
                fr_set(self, fr, top, self.import_(top))

    def s_ImportFrom(self, st, fr):
        mod = st.module or ""
        if st.level:
            base = fr.globs.name.split(".")
            if not getattr(fr.globs, "ispkg", False):
                base = base[:-1]
            if st.level > 1:
                base = base[: -(st.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if mod == "__future__":
            return
        m = self.import_(mod)
        for al in st.names:
            if al.name == "*":
                if isinstance(m, Mod):
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            fr_set(self, fr, k, v)
                continue
            if isinstance(m, Mod):
                if al.name in m.ns:
                    v = m.ns[al.name]
                else:
                    v = self.import_(mod + "." + al.name)
                    if v is None:
                        raise self.pyexc("ImportError", "cannot import %s from %s" % (al.name, mod))
            elif m is None:
                raise self.pyexc("ImportError", mod)
            else:
                v = self.ext.resolve(Ext(self.ext.canon(m.path + "." + al.name)))
            fr_set(self, fr, al.asname or al.name, v)

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.MAXSTEPS and not self.loading:
            raise GiveUp("step budget")
        fr.line = st.lineno
        getattr(self, "s_" + type(st).__name__)(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.expr(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Global(self, st, fr):
        fr.globals = (fr.globals or set()) | set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.globals = fr.globals or set()
        for n in st.names:
            fr.vars[("nonlocal", n)] = True

    def s_Return(self, st, fr):
        v = self.expr(st.value, fr) if st.value is not None else None
        raise Ret(v, fr)

    def s_Break(self, st, fr):
        raise Brk()

    def s_Continue(self, st, fr):
        raise Cont()

    def s_Assert(self, st, fr):
        if not self.truth(self.expr(st.test, fr)):
            raise self.pyexc("AssertionError", "assert")

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, fr)
                if isinstance(o, Obj):
                    self.note_write(o, t.attr, None)
                    if t.attr not in o.attrs:
                        raise self.pyexc("AttributeError", t.attr)
                    self.jdict(o.attrs)
                    o.attrs.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, fr)
                i = self.index(t.slice, fr)
                if isinstance(o, (dict, list)):
                    self.jcont(o)
                    try:
                        del o[self.hkey(i)]
                    except (KeyError, IndexError) as e:
                        raise self.pyexc(type(e).__name__, str(e))

    def s_If(self, st, fr):
        if self.truth(self.expr(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_While(self, st, fr):
        n = 0
        names = sorted({x.id for y in st.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        before = {x: fr.vars.get(x) for x in names} if fr.fn is not None else {}
        nd = len(self.decisions)

        def widen():
            self.approx = True
            for x in names:
                if x in fr.vars and before.get(x) is not None:
                    fr.vars[x] = self.ext.widen(before[x], fr.vars[x])

        while True:
            t = self.expr(st.test, fr)
            if isinstance(t, Sym) and t.lit is None:
                if n >= 2:
                    return widen()
                if not self.truth(t):
                    break
                self.approx = True
            elif not self.truth(t):
                break
            elif n >= 3 and len(self.decisions) - nd >= 2:
                return widen()
            n += 1
            if n > 200:
                return widen()
            try:
                self.block(st.body, fr)
            except Brk:
                return
            except Cont:
                continue
        self.block(st.orelse, fr)

    def s_For(self, st, fr):
        it = self.expr(st.iter, fr)
        items = self.iterate(it)
        try:
            for x in items:
                self.assign(st.target, x, fr)
                try:
                    self.block(st.body, fr)
                except Cont:
                    continue
        except Brk:
            return
        self.block(st.orelse, fr)

    def s_FunctionDef(self, st, fr):
        fn = self.mkfn(st, fr, st.name)
        v = fn
        for d in reversed(st.decorator_list):
            dec = self.expr(d, fr)
            v = self.decorate(dec, v, fr)
        fr_set(self, fr, st.name, v)

    def decorate(self, dec, v, fr):
        return self.call(dec, [v], {})

    def mkfn(self, node, fr, name):
        a = node.args
        defaults = [self.expr(d, fr) for d in a.defaults]
        kwd = [self.expr(d, fr) if d is not None else NODEF for d in a.kw_defaults]
        env = fr if fr.fn is not None or fr.cls is not None else None
        # class bodies are not enclosing scopes for functions
        e = fr
        while e is not None and e.cls is not None:
            e = e.parent
        cls = fr.cls
        fn = Fn(node, e if (e is not None and (e.fn is not None or e.vars is not e.globs.ns)) else None, fr.globs, defaults, kwd, name, None)
        if cls is not None:
            fr.vars.setdefault("__fns__", []).append(fn)
        return fn

    def s_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.expr(b, fr)
            if isinstance(v, Ext) and v.path == "galsim.BaseWCS":
                v = self.lift_galsim("wcs", "BaseWCS") or v
            bases.append(v)
        if not bases:
            bases = [Ext("builtins.object")]
        cfr = Frame(fr if fr.fn is not None else None, fr.globs)
        cfr.cls = st.name
        cfr.fn = fr.fn
        cfr.line = st.lineno
        self.stack.append(cfr)
        try:
            self.block(st.body, cfr)
        finally:
            self.stack.pop()
        fns = cfr.vars.pop("__fns__", [])
        ann = cfr.vars.pop("__ann__", {})
        c = Cls(st.name, bases, cfr.vars, fr.globs, st)
        c.ns.setdefault("__doc__", ast.get_docstring(st))
        for f in fns:
            f.cls = c
        c.ann = ann
        if any(isinstance(b, Ext) and b.name == "NamedTuple" for b in bases):
            c.flavor = "namedtuple"
            c.fields = [(n, c.ns.get(n, NODEF)) for n in ann]
        for b in c.mro[1:]:
            if isinstance(b, Cls) and b.fields is not None and c.fields is None:
                c.fields, c.flavor = b.fields, b.flavor
        for kw in st.keywords:
            if kw.arg == "metaclass":
                c.meta = self.expr(kw.value, fr)
        v = c
        for d in reversed(st.decorator_list):
            dec = self.expr(d, fr)
            v = self.call(dec, [v], {})
        # __init_subclass__
        for b in c.mro[1:]:
            if isinstance(b, Cls) and "__init_subclass__" in b.ns:
                f = b.ns["__init_subclass__"]
                f = f.fn if isinstance(f, CMeth) else f
                self.call(Bound(f, c), [], {})
                break
        fr_set(self, fr, st.name, v)

    def s_Assign(self, st, fr):
        v = self.expr(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if fr.cls is not None and isinstance(st.target, ast.Name):
            fr.vars.setdefault("__ann__", {})[st.target.id] = ast.unparse(st.annotation)
        if st.value is not None:
            self.assign(st.target, self.expr(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        op = BINOPS[type(st.op)]
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            v = self.augop(op, cur, self.expr(st.value, fr))
            fr_set(self, fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.augop(op, cur, self.expr(st.value, fr))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, fr)
            i = self.index(t.slice, fr)
            cur = self.getitem(o, i)
            v = self.augop(op, cur, self.expr(st.value, fr))
            self.store(t, o, i, v, fr)

    def store(self, t, o, i, v, fr):
        """item assignment; a numpy array built in this function is replaced by
        its updated value (such arrays are not aliased before they are stored)"""
        if isinstance(t.value, (ast.Name, ast.Attribute)):
            n = None
            if isinstance(o, Sym) and o.kind == "np" and self.vbase(o).op not in ("atom", "attr"):
                n = self.ext.np_store(o, i, v)
            elif isinstance(o, Arr) and o.mut and not (o.nd == 1 and isinstance(i, int)):
                n = self.ext.np_store(o, i, v)
            if n is not None:
                self.assign(t.value, n, fr)
                return
        self.setitem(o, i, v)

    def augop(self, op, a, b):
        if isinstance(a, Obj):
            m = self.find_method(a, "__i%s__" % DUNDER[op])
            if m is not None:
                return self.call(m, [b], {})
        if isinstance(a, list) and op == "add":
            self.jcont(a)
            a.extend(self.iterate(b))
            return a
        if isinstance(a, Sym) and a.kind == "np":
            self.note_write(a, "inplace", b)
        return self.binop(op, a, b)

    def s_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur:
                raise AbsRaise(cur[-1].val, cur[-1].loc)
            raise self.pyexc("RuntimeError", "re-raise")
        v = self.expr(st.exc, fr)
        if isinstance(v, (Cls, Ext)):
            try:
                v = self.call(v, [], {})
            except AbsRaise:
                pass
        raise AbsRaise(v, self.loc())

    cur_exc = ()

    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except AbsRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e, self.expr(h.type, fr)):
                        old = self.cur_exc
                        self.cur_exc = tuple(old) + (e,)
                        try:
                            if h.name:
                                fr.vars[h.name] = e.val
                            self.block(h.body, fr)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        finally:
            self.block(st.finalbody, fr)

    def exc_match(self, e, spec):
        names = self.exc_names(e.val)
        specs = spec if isinstance(spec, tuple) else (spec,)
        for s in specs:
            if isinstance(s, (Cls,)) and s.name in names:
                return True
            if isinstance(s, Ext) and (s.name in names or s.name in ("Exception", "BaseException")):
                return True
        return False

    def s_With(self, st, fr):
        self.with_items(st.items, st.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        cm = self.expr(it.context_expr, fr)
        if "ensure_compile_time_eval" in (getattr(cm, "op", None) or getattr(getattr(cm, "cls", None), "path", "") or ""):
            st, self.staging = self.staging, False
            try:
                self.with_items(items[1:], body, fr)
            finally:
                self.staging = st
            return
        if isinstance(cm, Obj) and cm.tag == "ctxmgr":
            fn, args, kwargs = cm.attrs["fn"], cm.attrs["args"], cm.attrs["kwargs"]

            def cb(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                self.with_items(items[1:], body, fr)

            self.call_fn(fn, args, kwargs, yieldcb=cb)
            return
        if isinstance(cm, ExtObj) and cm.cls.path == "contextlib.ExitStack":
            cms = []
            cm.attrs["enter_context"] = PyFn(lambda I, a, k: cms.append(Entered(I, a[0])) or cms[-1].value, "enter_context")
            exc = None
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, cm, fr)
                self.with_items(items[1:], body, fr)
            except BaseException as e:
                exc = e
            while cms:
                exc = cms.pop().leave(exc)
            if exc is not None:
                raise exc
            return
        if isinstance(cm, Obj):
            v = self.call_method(cm, "__enter__", [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            self.with_items(items[1:], body, fr)
            self.call_method(cm, "__exit__", [None, None, None])
            return
        if it.optional_vars is not None:
            self.assign(it.optional_vars, self.ext.opaque("enter", [cm]), fr)
        self.with_items(items[1:], body, fr)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr_set(self, fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                items = self.iterate(v)
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise self.pyexc("ValueError", "unpack")
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, list(items[i : len(items) - after]), fr)
                if after:
                    for x, y in zip(t.elts[i + 1 :], items[-after:]):
                        self.assign(x, y, fr)
                return
            items = self.iterate(v, n=len(t.elts))
            if len(items) != len(t.elts):
                raise self.pyexc("ValueError", "unpack %d into %d" % (len(items), len(t.elts)))
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, fr)
            self.store(t, o, self.index(t.slice, fr), v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise GiveUp("assign")

    def iterate(self, v, n=None):
        if isinstance(v, (list, tuple, set, frozenset)):
            return list(v)
        if isinstance(v, range):
            if len(v) > 5000:
                raise GiveUp("long range")
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            return [Arr(r, v.lead) for r in v.e] if v.nd == 2 else list(v.e)
        if isinstance(v, Obj):
            if v.cls.flavor == "namedtuple":
                return [v.attrs[f] for f, _ in v.cls.fields]
            m = self.find_method(v, "__iter__")
            if m is not None:
                return self.iterate(self.call(m, [], {}))
            m = self.find_method(v, "__len__")
            g = self.find_method(v, "__getitem__")
            if m is not None and g is not None:
                k = self.call(m, [], {})
                if isinstance(k, int):
                    return [self.call(g, [i], {}) for i in range(k)]
        if isinstance(v, Sym):
            if v.ndim == 0 and v.kind in ("jax", "pyf", "np"):
                raise self.pyexc("TypeError", "iteration over a 0-d array")
            if v.kind in ("pyf", "pyi", "pyb"):
                raise self.pyexc("TypeError", "not iterable")
            if n is not None:
                return [self.getitem(v, i) for i in range(n)]
            if v.op in ("tolist", "listelem") and v.kind == "list" and v.ndim:
                self.approx = True
                nd = v.ndim - 1
                return [self.mk("listelem", (v,), v.grade, "list" if nd else "pyi" if v.hint == "i" else "pyb" if v.hint == "b" else "pyf", nd, v.hint, w=v.w)]
            if v.kind == "any" or v.kind == "str":
                self.approx = True
                return [self.mk("iter", (v,), None, "any")]
            self.approx = True
            return [self.getitem(v, self.mk("iteridx", (v,), gr.ONE, "pyi", 0, "i", traced=False, w=()))]
        if isinstance(v, ExtObj) or isinstance(v, Ext):
            self.approx = True
            if n is not None:
                return [self.ext.opaque("item", [v, i]) for i in range(n)]
            return [self.ext.opaque("iter", [v])]
        if isinstance(v, PyIter):
            return v.items
        if v is None or isinstance(v, (int, float)):
            raise self.pyexc("TypeError", "not iterable")
        raise GiveUp("iterate %r" % (v,))

    # ----------------------------------------------------------- expressions
    def expr(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise GiveUp("expr " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.vars and not (f is not fr and f.cls is not None):
                return f.vars[n]
            if f.cls is not None and f is not fr:
                pass
            f = f.parent
        g = fr.globs.ns
        if n in g:
            return g[n]
        return self.ext.builtin(n)

    def e_Name(self, e, fr):
        fr.line = e.lineno
        return self.name(e.id, fr)

    def e_Attribute(self, e, fr):
        o = self.expr(e.value, fr)
        fr.line = e.lineno
        return self.getattr(o, e.attr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        r = self.elts(e.elts, fr)
        self.reg(r)
        return r

    def e_Set(self, e, fr):
        return set(self.hkey(x) for x in self.elts(e.elts, fr))

    def reg(self, c):
        if self.loading:
            self.load_containers[id(c)] = c

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.expr(x.value, fr)))
            else:
                out.append(self.expr(x, fr))
        return out

    def hkey(self, k):
        """dict key"""
        if isinstance(k, Sym):
            if k.lit is not None:
                return k.lit
            if k.traced:
                raise self.tracer_error("hash of traced value", k)
        if isinstance(k, (list, dict, set)):
            raise self.pyexc("TypeError", "unhashable")
        if isinstance(k, Obj):
            h = k.cls.lookup("__hash__")
            if h is not None:
                # value-hashed objects: use hash term as key when it is known
                return ObjKey(self, k)
        if isinstance(k, FmtStr):
            return k
        return k

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.expr(v, fr)
                if not isinstance(o, dict):
                    raise GiveUp("dict **")
                d.update(o)
            else:
                kk = self.hkey(self.expr(k, fr))
                d[kk] = self.expr(v, fr)
        self.reg(d)
        return d

    def e_Lambda(self, e, fr):
        return self.mkfn(e, fr, "<lambda>")

    def e_IfExp(self, e, fr):
        return self.expr(e.body if self.truth(self.expr(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.expr(x, fr)
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Sym) else False if v.hint == "b" else v
            if not isand and t:
                return v if not isinstance(v, Sym) else True if v.hint == "b" else v
        return self.expr(e.values[-1], fr)

    def e_UnaryOp(self, e, fr):
        v = self.expr(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Obj):
                return self.call_method(v, "__neg__", [])
            if isinstance(v, ExtObj):
                return self.ext.opaque("neg", [v])
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, (Sym, Arr)):
                return self.not_(v)
            if isinstance(v, int):
                return ~v
            if isinstance(v, Obj):
                return self.call_method(v, "__invert__", [])
        raise GiveUp("unary")

    def e_BinOp(self, e, fr):
        a = self.expr(e.left, fr)
        b = self.expr(e.right, fr)
        fr.line = e.lineno
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, (str, FmtStr)) and op == "mod":
            return self.ext.percent_format(a, b)
        if isinstance(a, (str, FmtStr)) and isinstance(b, (str, FmtStr)) and op == "add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return FmtStr([a, b])
        if isinstance(a, FmtStr) and isinstance(b, FmtStr) and op == "add":
            return FmtStr([a, b])
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                m = self.find_method(a, "__%s__" % DUNDER[op])
                if m is not None:
                    r = self.call(m, [b], {})
                    if not (isinstance(r, Ext) and r.name == "NotImplemented"):
                        return r
            if isinstance(b, Obj):
                m = self.find_method(b, "__r%s__" % DUNDER[op])
                if m is not None:
                    r = self.call(m, [a], {})
                    if not (isinstance(r, Ext) and r.name == "NotImplemented"):
                        return r
            raise self.pyexc("TypeError", "unsupported operand %s: %s, %s" % (op, show_term(a, 1), show_term(b, 1)))
        if isinstance(a, CONST) and isinstance(b, CONST):
            f = PYOPS.get(op)
            try:
                return f(a, b)
            except (TypeError, ZeroDivisionError, OverflowError, ValueError) as ex:
                raise self.pyexc(type(ex).__name__, str(ex))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b) and op == "add":
            r = a + b
            if isinstance(r, list):
                self.reg(r)
            return r
        if isinstance(a, (list, tuple)) and isinstance(b, int) and op == "mul":
            return a * b
        if isinstance(b, (list, tuple)) and isinstance(a, int) and op == "mul":
            return b * a
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"sub": a.__sub__, "or": a.__or__, "and": a.__and__, "xor": a.__xor__}[op](b)
        if isinstance(a, dict) and isinstance(b, dict) and op == "or":
            return {**a, **b}
        if op in ("and", "or", "xor", "lshift", "rshift") and self.hints(a, b) == "i" and isinstance(a, (Sym, Arr, int)) and isinstance(b, (Sym, Arr, int)):
            la, lb = self.litval(a), self.litval(b)
            if isinstance(la, int) and isinstance(lb, int):
                r = PYOPS[op](la, lb)
                return self.litsym(r, self.kindof(a, b)) if isinstance(a, Sym) or isinstance(b, Sym) else r
            if isinstance(a, Arr) or isinstance(b, Arr):
                if isinstance(a, Arr) and not isinstance(b, Arr):
                    return a.map(lambda x: self.binop(op, x, b))
                if isinstance(b, Arr) and not isinstance(a, Arr):
                    return b.map(lambda x: self.binop(op, a, x))
            return self.mk({"and": "band", "or": "bor", "xor": "bxor"}.get(op, op), (a, b), None, self.kindof(a, b), self.ndims(a, b), "i")
        if op in ("and", "or"):
            return self.logical("land" if op == "and" else "lor", a, b)
        if isinstance(a, (Sym, Arr, int, float, complex, list, tuple)) and isinstance(b, (Sym, Arr, int, float, complex, list, tuple)):
            for x in (a, b):
                if isinstance(x, Sym) and x.kind in ("any", "str") and x.grade is None:
                    return self.mk(op, (a, b), None, "any")
            if op in ("xor", "lshift", "rshift"):
                return self.mk(op, (a, b), None, self.kindof(a, b), self.ndims(a, b), "i")
            return self.arith(op, a, b)
        if isinstance(a, (ExtObj, Ext)) or isinstance(b, (ExtObj, Ext)):
            return self.ext.opaque(op, [a, b])
        if a is None or b is None or isinstance(a, dict) or isinstance(b, dict):
            raise self.pyexc("TypeError", "unsupported operand %s: %s, %s" % (op, show_term(a, 1), show_term(b, 1)))
        if isinstance(a, (str, FmtStr)) or isinstance(b, (str, FmtStr)):
            return FmtStr([a if isinstance(a, (str, FmtStr)) else ("s", a), b if isinstance(b, (str, FmtStr)) else ("s", b)])
        raise GiveUp("binop %s %r %r" % (op, a, b))

    def logical(self, op, a, b):
        la, lb = self.litval(a), self.litval(b)
        if isinstance(la, bool) and isinstance(lb, bool):
            return la and lb if op == "land" else la or lb
        if isinstance(a, Arr) or isinstance(b, Arr):
            a, b = self.ext.rows_like(a, b), self.ext.rows_like(b, a)
            if isinstance(a, Arr) and isinstance(b, Arr) and a.shape == b.shape and a.nd == 2:
                return Arr([tuple(self.logical(op, x, y) for x, y in zip(r, s)) for r, s in zip(a.e, b.e)], a.lead)
            if isinstance(a, Arr) and isinstance(b, Arr) and a.shape == b.shape and a.nd == 1:
                return Arr([self.logical(op, x, y) for x, y in zip(a.e, b.e)], a.lead)
            if isinstance(a, Arr):
                return a.map(lambda x: self.logical(op, x, b))
            return b.map(lambda x: self.logical(op, a, x))
        for x, l in ((a, lb), (b, la)):
            if isinstance(l, bool):
                if op == "land":
                    return x if l else self.litsym(False)
                return self.litsym(True) if l else x
        if isinstance(a, CONST) and isinstance(b, CONST):
            return PYOPS["and" if op == "land" else "or"](a, b)
        x, y = (a, b) if self.key(a) <= self.key(b) else (b, a)
        return self.mk(op, (x, y), gr.ONE, self.kindof(a, b), self.ndims(a, b), "b", w=())

    def e_Compare(self, e, fr):
        left = self.expr(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.expr(r, fr)
            fr.line = e.lineno
            res = self.cmpop(type(op).__name__, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return res
            left = right
        return res

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (Sym, ExtObj)) and isinstance(a, Sym) and a.kind == "any" and (b is None or isinstance(b, bool)):
            return self.decide_term(self.mk("is", (a, b), gr.ONE, "pyb", 0, "b", traced=False))
        if isinstance(a, CONST) and isinstance(b, CONST):
            return type(a) is type(b) and a == b
        if isinstance(a, tuple) and isinstance(b, tuple) and not a and not b:
            return True
        if isinstance(a, ExtObj) and isinstance(b, ExtObj):
            return a is b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return False

    def cmpop(self, op, a, b):
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return not self.is_(a, b)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else self.not_(r)
        o = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[op]
        return self.cmp(o, a, b)

    def cmp(self, o, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            if o in ("eq", "ne"):
                return self.obj_eq(o, a, b)
            for x, y, d in ((a, b, o), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[o])):
                if isinstance(x, Obj):
                    m = self.find_method(x, "__%s__" % d)
                    if m is not None:
                        return self.call(m, [y], {})
            raise self.pyexc("TypeError", "no ordering")
        if isinstance(a, CONST) and isinstance(b, CONST):
            try:
                return {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}[o](a, b)
            except TypeError as ex:
                raise self.pyexc("TypeError", str(ex))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and o in ("eq", "ne"):
            if type(a) is not type(b) or len(a) != len(b):
                r = False
            else:
                r = True
                for x, y in zip(a, b):
                    c = x if False else self.cmp("eq", x, y)
                    if not self.truth(c):
                        r = False
                        break
            return r if o == "eq" else not r
        if isinstance(a, dict) and isinstance(b, dict) and o in ("eq", "ne"):
            r = set(a) == set(b) and all(self.truth(self.cmp("eq", a[k], b[k])) for k in a)
            return r if o == "eq" else not r
        if isinstance(a, set) and isinstance(b, set):
            return {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}[o](a, b)
        if isinstance(a, (Cls, Ext, Mod)) or isinstance(b, (Cls, Ext, Mod)):
            if not isinstance(a, (Sym, ExtObj)) and not isinstance(b, (Sym, ExtObj)):
                r = a is b
                return r if o == "eq" else not r
        if isinstance(a, (FmtStr,)) or isinstance(b, FmtStr):
            if isinstance(a, FmtStr) and isinstance(b, FmtStr) and self.key(a) == self.key(b):
                return o == "eq"
            t = self.mk("eq", (a, b), gr.ONE, "pyb", 0, "b", traced=False, w=())
            return t if o == "eq" else self.not_(t)
        if isinstance(a, (Sym, Arr, int, float, complex)) and isinstance(b, (Sym, Arr, int, float, complex)) or isinstance(a, (Sym,)) or isinstance(b, (Sym,)):
            return self.compare(o, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.compare(o, a, b)
        if isinstance(a, ExtObj) or isinstance(b, ExtObj):
            if a is b:
                return o in ("eq", "le", "ge")
            t = self.mk("eq" if o in ("eq", "ne") else o, (a, b), gr.ONE, "pyb", 0, "b", traced=False, w=())
            return self.not_(t) if o == "ne" else t
        if o in ("eq", "ne"):
            r = a is b
            if isinstance(a, Bound) and isinstance(b, Bound):
                r = a.fn is b.fn and a.self is b.self
            return r if o == "eq" else not r
        raise GiveUp("cmp %s %r %r" % (o, a, b))

    def obj_eq(self, o, a, b):
        x, y = (a, b) if isinstance(a, Obj) else (b, a)
        if o == "ne":
            m = self.find_method(x, "__ne__")
            if m is not None:
                return self.call(m, [y], {})
        m = self.find_method(x, "__eq__")
        if m is not None:
            r = self.call(m, [y], {})
        elif x.cls.flavor in ("dataclass", "namedtuple"):
            if isinstance(y, Obj) and y.cls is x.cls:
                r = all(self.truth(self.cmp("eq", x.attrs[f], y.attrs[f])) for f, _ in x.cls.fields)
            else:
                r = False
        else:
            r = x is y
        return r if o == "eq" else self.not_(r)

    def contains(self, c, x):
        if isinstance(c, dict):
            k = self.hkey(x)
            if isinstance(k, CONST) or isinstance(k, (tuple, Ext, Cls)):
                return k in c
            if isinstance(k, Sym):
                if k in c:
                    return True
                return self.mk("in", (k, tuple(c.keys())), gr.ONE, "pyb", 0, "b", traced=False)
            return k in c
        if isinstance(c, (list, tuple, set, frozenset)):
            for y in c:
                if y is x or self.truth(self.cmp("eq", y, x)):
                    return True
            return False
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            return self.mk("in", (x, c), gr.ONE, "pyb", 0, "b", traced=False)
        if isinstance(c, Obj):
            m = self.find_method(c, "__contains__")
            if m is not None:
                return self.call(m, [x], {})
        return self.mk("in", (x, c), gr.ONE, "pyb", 0, "b", traced=False)

    def e_Subscript(self, e, fr):
        o = self.expr(e.value, fr)
        i = self.index(e.slice, fr)
        fr.line = e.lineno
        return self.getitem(o, i)

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.expr(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.expr(s, fr)

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    def e_Starred(self, e, fr):
        raise GiveUp("starred")

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, fr))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return FmtStr(parts)

    def e_FormattedValue(self, e, fr):
        v = self.expr(e.value, fr)
        conv = {-1: "s", 114: "r", 115: "s", 97: "r"}[e.conversion]
        spec = self.e_JoinedStr(e.format_spec, fr) if e.format_spec is not None else ""
        return self.ext.format_value(v, conv, spec)

    def e_ListComp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.expr(e.elt, f)))
        self.reg(out)
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.hkey(self.expr(e.elt, f))))
        return set(out)

    def e_DictComp(self, e, fr):
        out = {}

        def add(f):
            k = self.hkey(self.expr(e.key, f))
            out[k] = self.expr(e.value, f)

        self.comp(e.generators, fr, add)
        self.reg(out)
        return out

    def comp(self, gens, fr, emit):
        f = Frame(fr, fr.globs, fr.fn)
        f.line = fr.line
        if fr.cls is not None:
            f.vars = dict(fr.vars)
            f.parent = fr.parent

        def rec(i):
            if i == len(gens):
                emit(f)
                return
            g = gens[i]
            for x in self.iterate(self.expr(g.iter, f if i else fr)):
                self.assign(g.target, x, f)
                if all(self.truth(self.expr(c, f)) for c in g.ifs):
                    rec(i + 1)

        rec(0)

    def e_NamedExpr(self, e, fr):
        v = self.expr(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Yield(self, e, fr):
        v = self.expr(e.value, fr) if e.value is not None else None
        f = fr
        while f is not None and f.yieldcb is None and f.yields is None:
            f = f.parent
        if f is None:
            raise GiveUp("yield")
        if f.yieldcb is not None:
            f.yieldcb(v)
        else:
            f.yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.expr(e.value, fr)
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        if f is None:
            raise GiveUp("yield from")
        f.yields.extend(self.iterate(v))

    def e_Call(self, e, fr):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and (f.fn is None or f.fn.cls is None or "__self__" not in f.vars):
                f = f.parent
            if f is None:
                raise GiveUp("super")
            return Super(f.fn.cls, f.vars["__self__"])
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            return {k: v for k, v in fr.vars.items() if isinstance(k, str) and k != "__self__"}
        fn = self.expr(e.func, fr)
        args = self.elts(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.expr(k.value, fr)
            if k.arg is None:
                if isinstance(v, dict):
                    for kk, vv in v.items():
                        if not isinstance(kk, str):
                            raise GiveUp("** keys")
                        kwargs[kk] = vv
                elif isinstance(v, Obj) and v.cls.flavor == "namedtuple":
                    raise self.pyexc("TypeError", "** of tuple")
                else:
                    raise GiveUp("** of unknown")
            else:
                if k.arg in kwargs:
                    raise self.pyexc("TypeError", "multiple values for " + k.arg)
                kwargs[k.arg] = v
        fr.line = e.lineno
        return self.call(fn, args, kwargs)

    # ------------------------------------------------------------------ call
    def call(self, fn, args, kwargs):
        if isinstance(fn, Bound):
            return self.call_target(fn.fn, [fn.self] + list(args), kwargs)
        return self.call_target(fn, list(args), kwargs)

    def call_target(self, fn, args, kwargs):
        if isinstance(fn, Fn):
            return self.call_fn(fn, args, kwargs)
        if isinstance(fn, Bound):
            return self.call_target(fn.fn, [fn.self] + args, kwargs)
        if isinstance(fn, PyFn):
            return fn.f(self, args, kwargs)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, JitFn):
            return self.ext.call_jit(fn, args, kwargs)
        if isinstance(fn, Part):
            return self.call(fn.fn, fn.args + args, {**fn.kwargs, **kwargs})
        if isinstance(fn, Ext):
            return self.ext.call(fn, args, kwargs)
        if isinstance(fn, Obj):
            m = self.find_method(fn, "__call__")
            if m is None:
                raise self.pyexc("TypeError", "not callable: " + fn.cls.name)
            return self.call(m, args, kwargs)
        if isinstance(fn, (SMeth, CMeth)):
            return self.call_target(fn.fn, args, kwargs)
        if isinstance(fn, Sym):
            return self.ext.call_sym(fn, args, kwargs)
        if isinstance(fn, ExtObj):
            return self.ext.opaque("callobj", [fn] + args + list(kwargs.values()))
        if fn is None or isinstance(fn, CONST) or isinstance(fn, (tuple, list, dict)):
            raise self.pyexc("TypeError", "not callable: %r" % (fn,))
        raise GiveUp("call %r" % (fn,))

    def bind(self, fn, args, kwargs):
        """parameter binding; returns dict name->value"""
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vars = {}
        n = len(pos)
        if len(args) > n and a.vararg is None:
            raise self.pyexc("TypeError", "%s() takes %d positional arguments but %d were given" % (fn.name, n, len(args)))
        for p, v in zip(pos, args):
            vars[p] = v
        if a.vararg is not None:
            vars[a.vararg.arg] = tuple(args[n:])
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in vars:
                    raise self.pyexc("TypeError", "%s() got multiple values for argument %r" % (fn.name, k))
                vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise self.pyexc("TypeError", "%s() got an unexpected keyword argument %r" % (fn.name, k))
        if a.kwarg is not None:
            vars[a.kwarg.arg] = extra
        nd = len(fn.defaults)
        for i, p in enumerate(pos):
            if p not in vars:
                j = i - (n - nd)
                if j >= 0:
                    vars[p] = fn.defaults[j]
                else:
                    raise self.pyexc("TypeError", "%s() missing required argument %r" % (fn.name, p))
        for p, d in zip(kwonly, fn.kwdefaults):
            if p not in vars:
                if d is NODEF:
                    raise self.pyexc("TypeError", "%s() missing keyword argument %r" % (fn.name, p))
                vars[p] = d
        return vars

    intercept = None  # hook(interp, fn, args, kwargs) -> NotImplemented or value

    def call_fn(self, fn, args, kwargs, yieldcb=None):
        if self.intercept is not None:
            r = self.intercept(self, fn, args, kwargs)
            if r is not NotImplemented:
                return r
        if len(self.stack) > self.MAXDEPTH:
            raise GiveUp("depth")
        vars = self.bind(fn, args, kwargs)
        if fn.attrs.get("__ctx__") and yieldcb is None:
            o = Obj(CTX, {"fn": fn, "args": args, "kwargs": kwargs})
            o.tag = "ctxmgr"
            return o
        fr = Frame(fn.env, fn.mod, fn)
        fr.vars = vars
        if args:
            vars["__self__"] = args[0]
        if fn.isgen is None:
            fn.isgen = has_yield(fn.node)
        if fn.isgen:
            if yieldcb is not None:
                fr.yieldcb = yieldcb
            else:
                fr.yields = []
        self.functions_analysed.add(fn.qual)
        self.stack.append(fr)
        depth = len(self.stack)
        try:
            if isinstance(fn.node, ast.Lambda):
                fr.line = fn.node.lineno
                res = self.expr(fn.node.body, fr)
            else:
                try:
                    self.block(fn.node.body, fr)
                    res = None
                except Ret as r:
                    if r.frame is not fr and not self.owns(fr, r.frame):
                        raise
                    res = r.v
        finally:
            del self.stack[depth - 1 :]
        if fr.yields is not None:
            res = PyIter(fr.yields)
        if self.trace_calls is not None:
            self.trace_calls(self, fn, vars, res)
        return res

    def owns(self, fr, other):
        f = other
        while f is not None:
            if f is fr:
                return True
            if f.fn is not fr.fn:
                return False
            f = f.parent
        return False

    def instantiate(self, cls, args, kwargs):
        if cls.flavor in ("dataclass", "namedtuple") and cls.lookup("__init__") is None and cls.lookup("__new__") is None:
            o = Obj(cls)
            names = [f for f, _ in cls.fields]
            if len(args) > len(names):
                raise self.pyexc("TypeError", "too many arguments for " + cls.name)
            for n, v in zip(names, args):
                o.attrs[n] = v
            for k, v in kwargs.items():
                if k not in names or k in o.attrs:
                    raise self.pyexc("TypeError", "%s() bad keyword %s" % (cls.name, k))
                o.attrs[k] = v
            for n, d in cls.fields:
                if n not in o.attrs:
                    if d is NODEF:
                        raise self.pyexc("TypeError", "%s() missing %s" % (cls.name, n))
                    o.attrs[n] = d
            o.attrs = {n: o.attrs[n] for n in names}
            m = cls.lookup("__post_init__")
            if m is not None:
                self.call(Bound(m, o), [], {})
            return o
        new = cls.lookup("__new__")
        if new is not None:
            f = new.fn if isinstance(new, (SMeth, CMeth)) else new
            o = self.call_target(f, [cls] + args, kwargs)
            if not (isinstance(o, Obj) and o.cls.issub(cls)):
                return o
        else:
            o = Obj(cls)
        init = cls.lookup("__init__")
        if init is not None:
            self.call_target(init, [o] + args, kwargs)
        elif any(e.name in EXC_BASES for e in cls.extbases):
            o.attrs["args"] = tuple(args)
        elif (args or kwargs) and new is None:
            ex = [e for e in cls.extbases if e.path != "builtins.object"]
            if not ex:
                raise self.pyexc("TypeError", "%s() takes no arguments" % cls.name)
        return o

    def call_method(self, o, name, args, kwargs=None):
        m = self.getattr(o, name)
        return self.call(m, args, kwargs or {})

    def find_method(self, o, name):
        f = o.cls.lookup(name)
        if f is None:
            return None
        if isinstance(f, SMeth):
            return f.fn
        if isinstance(f, CMeth):
            return Bound(f.fn, o.cls)
        if isinstance(f, (Fn, JitFn, PyFn)):
            return Bound(f, o)
        return f

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=AbsRaise):
        try:
            return self.getattr_(o, name)
        except AbsRaise as e:
            if default is not AbsRaise and e.name == "AttributeError":
                return default
            raise

    def getattr_(self, o, name):
        if isinstance(o, Obj):
            d = o.cls.lookup(name)
            if isinstance(d, Prop):
                if d.fget is None:
                    raise self.pyexc("AttributeError", name)
                return self.call(d.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if d is not None:
                return self.bindattr(d, o, o.cls)
            return self.obj_special(o, name)
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            sub = self.import_(o.name + "." + name) if self.modpath(o.name + "." + name) else None
            if sub is not None:
                return sub
            raise self.pyexc("AttributeError", "module %s has no attribute %s" % (o.name, name))
        if isinstance(o, Cls):
            d = o.lookup(name)
            if d is not None:
                if isinstance(d, CMeth):
                    return Bound(d.fn, o)
                if isinstance(d, SMeth):
                    return d.fn
                return d
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__module__":
                return o.mod.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__new__":
                return PyFn(lambda I, a, k: Obj(a[0]), "__new__")
            if name == "__doc__":
                return None
            if name in ("_make",) and o.flavor == "namedtuple":
                return PyFn(lambda I, a, k: I.instantiate(o, I.iterate(a[0]), {}), "_make")
            if name == "_fields":
                return tuple(f for f, _ in o.fields)
            for b in o.extbases:
                if b.path != "builtins.object":
                    return self.ext.resolve(Ext(b.path + "." + name))
            if name == "__init__":
                return PyFn(lambda I, a, k: None, "object.__init__")
            raise self.pyexc("AttributeError", "class %s has no attribute %s" % (o.name, name))
        if isinstance(o, Super):
            return self.super_attr(o, name)
        if isinstance(o, (Fn, JitFn)):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return getattr(o, "name", "fn")
            if name == "__doc__":
                return None
            if name in ("__module__", "__qualname__"):
                return "m"
            if name == "__wrapped__" and isinstance(o, JitFn):
                return o.fn
            if name in ("defjvp", "def_vmap", "defjvps", "def_fwd", "defvjp"):
                def _def(I, a, k, o=o):
                    o.attrs["jvp"] = a[0] if a else None
                    if name == "defvjp":
                        fb = list(a) + [k[n] for n in ("fwd", "bwd") if n in k]
                        o.attrs["fwd"], o.attrs["bwd"] = (fb + [None, None])[:2]
                    return a[0] if a else None

                return PyFn(_def, name)
            raise self.pyexc("AttributeError", "function has no attribute " + name)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.fn
            return self.getattr(o.fn, name)
        if isinstance(o, Part):
            if name == "func":
                return o.fn
        if isinstance(o, Prop):
            if name == "setter":
                return PyFn(lambda I, a, k: Prop(o.fget, a[0]), "setter")
            if name == "fget":
                return o.fget
        if isinstance(o, (Ext, ExtObj, Sym, Arr, At, FmtStr)) or isinstance(o, CONST) or isinstance(o, (list, dict, tuple, set, frozenset, range, PyIter)):
            return self.ext.getattr(o, name)
        raise GiveUp("getattr %r %s" % (o, name))

    def bindattr(self, d, o, cls):
        if isinstance(d, (Fn, JitFn)):
            return Bound(d, o)
        if isinstance(d, CMeth):
            return Bound(d.fn, cls)
        if isinstance(d, SMeth):
            return d.fn
        return d

    def obj_special(self, o, name):
        c = o.cls
        if name == "__init__" and c.flavor == "dataclass":
            def init(I, a, k):
                for n, v in I.instantiate(c, a, k).attrs.items():
                    I.rawset(o, n, v)

            return PyFn(init, "__init__")
        if name == "__class__":
            return c
        if name == "__dict__":
            return o.attrs
        if name == "__doc__":
            return None
        if c.flavor == "namedtuple":
            if name == "_asdict":
                return PyFn(lambda I, a, k: {f: o.attrs[f] for f, _ in c.fields}, name)
            if name == "_replace":

                def rep(I, a, k):
                    n = Obj(c, dict(o.attrs))
                    for kk, vv in k.items():
                        if kk not in n.attrs:
                            raise I.pyexc("ValueError", "unexpected field " + kk)
                        n.attrs[kk] = vv
                    return n

                return PyFn(rep, name)
            if name == "_fields":
                return tuple(f for f, _ in c.fields)
        if name == "__repr__" or name == "__str__":
            return PyFn(lambda I, a, k: FmtStr([("r", o)]), name)
        if name == "__eq__":
            return PyFn(lambda I, a, k: I.obj_eq("eq", o, a[0]), name)
        if name == "__ne__":
            return PyFn(lambda I, a, k: I.obj_eq("ne", o, a[0]), name)
        if name == "__init__":
            return PyFn(lambda I, a, k: None, name)
        if name == "__setattr__":
            return PyFn(lambda I, a, k: I.rawset(o, a[0], a[1]), name)
        g = c.lookup("__getattr__")
        if g is not None:
            return self.call(Bound(g, o), [name], {})
        ex = [e for e in c.extbases if e.path != "builtins.object"]
        for b in ex:
            v = self.ext.ext_method(b, name, o)
            if v is not None:
                return v
        raise self.pyexc("AttributeError", "%s object has no attribute %r" % (c.name, name))

    def super_attr(self, s, name):
        obj = s.obj
        cls = obj.cls if isinstance(obj, Obj) else obj
        if not isinstance(cls, Cls):
            raise GiveUp("super of %r" % (obj,))
        mro = cls.mro
        i = mro.index(s.cls) if s.cls in mro else -1
        for c in mro[i + 1 :]:
            if isinstance(c, Cls) and name in c.ns:
                d = c.ns[name]
                if isinstance(d, Prop):
                    return self.call(d.fget, [obj], {})
                return self.bindattr(d, obj, cls)
        if name == "__new__":
            return PyFn(lambda I, a, k: Obj(a[0]), "__new__")
        if name in ("__init__", "__init_subclass__"):
            return PyFn(lambda I, a, k: None, name)
        if name == "__setattr__":
            return PyFn(lambda I, a, k: I.rawset(obj, a[0], a[1]), name)
        if name == "__eq__":
            return PyFn(lambda I, a, k: obj is a[0], name)
        for c in mro[i + 1 :]:
            if not isinstance(c, Cls) and c.path != "builtins.object":
                v = self.ext.ext_method(c, name, obj)
                if v is not None:
                    return v
        raise self.pyexc("AttributeError", "super object has no attribute " + name)

    def jdict(self, d):
        if not self.loading:
            old = dict(d)

            def undo():
                d.clear()
                d.update(old)

            self.journal.append(undo)

    def jcont(self, c):
        if not self.loading and id(c) in self.load_containers:
            old = c.copy()
            if isinstance(c, list):

                def undo():
                    c[:] = old

            else:

                def undo():
                    c.clear()
                    c.update(old)

            self.journal.append(undo)
            self.writes.append(("global", c, None, self.loc(), self.fnstack()))
        elif not self.loading:
            self.writes.append(("cont", c, None, self.loc(), self.fnstack()))

    def note_write(self, o, name, v):
        if not self.loading:
            self.writes.append(("attr", o, name, self.loc(), self.fnstack()))
            if self.region and isinstance(o, (Obj,)) and o.birth < self.region[-1][1]:
                self.event("region_write", "write to %s.%s of an object created outside the traced region (%s)" % (o.cls.name, name, self.region[-1][0]), obj=o, attr=name)

    def rawset(self, o, name, v):
        self.note_write(o, name, v)
        if o.frozen or not self.loading:
            d = o.attrs
            if name in d:
                old = d[name]
                self.journal.append(lambda: d.__setitem__(name, old))
            else:
                self.journal.append(lambda: d.pop(name, None))
        o.attrs[name] = v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if name == "__class__":
                old = o.cls
                if isinstance(v, Cls):
                    if "__class__" in o.attrs:
                        m = o.attrs.pop("__class__")
                        self.journal.append(lambda: o.attrs.__setitem__("__class__", m))
                    o.cls = v
                    self.journal.append(lambda: setattr(o, "cls", old))
                else:
                    self.rawset(o, name, v)  # masquerades as an instance of an external class
                return
            d = o.cls.lookup(name)
            if isinstance(d, Prop):
                if d.fset is None:
                    raise self.pyexc("AttributeError", "can't set attribute %s of %s" % (name, o.cls.name))
                self.call(d.fset, [o, v], {})
                return
            sa = o.cls.lookup("__setattr__")
            if sa is not None:
                self.call(Bound(sa, o), [name, v], {})
                return
            if o.cls.flavor == "namedtuple" or (o.cls.flavor == "dataclass" and o.cls.frozen):
                raise self.pyexc("AttributeError", "can't set attribute")
            self.rawset(o, name, v)
            return
        if isinstance(o, (Cls, Mod)):
            ns = o.ns
            if not self.loading:
                had = name in ns
                old = ns.get(name)
                self.journal.append((lambda: ns.__setitem__(name, old)) if had else (lambda: ns.pop(name, None)))
                self.writes.append(("global", o, name, self.loc(), self.fnstack()))
            if isinstance(v, Fn) and isinstance(o, Cls) and v.cls is None and self.loading:
                v.cls = o
            ns[name] = v
            return
        if isinstance(o, (Fn, JitFn)):
            o.attrs[name] = v
            return
        if isinstance(o, Bound):
            self.setattr(o.fn, name, v)
            return
        if isinstance(o, ExtObj):
            self.note_write(o, name, v)
            o.attrs[name] = v
            return
        if isinstance(o, (Prop, SMeth, CMeth, PyFn, Part)):
            return
        if isinstance(o, (Sym, Ext)):
            return
        raise self.pyexc("AttributeError", "cannot set %s on %r" % (name, o))

    # ------------------------------------------------------------- subscript
    def getitem(self, o, i):
        if isinstance(i, Sym) and i.lit is not None:
            i = i.lit
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, slice):
                i = slice(*[self.litval(x) if x is not None else None for x in (i.start, i.stop, i.step)])
                return o[i]
            if isinstance(i, (int, bool)):
                try:
                    return o[i]
                except IndexError:
                    raise self.pyexc("IndexError", "index out of range")
            if isinstance(i, Sym):
                if i.traced:
                    raise self.tracer_error("sequence index by traced value", i)
                if len(o) and len({self.key(x) for x in o}) == 1:
                    return o[0]
                if isinstance(o, range):
                    o = list(o)
                return self.mk("seqitem", (tuple(o), i), self.gjoin([self.grade(x) for x in o]) if not isinstance(o, str) else None, "any")
            raise self.pyexc("TypeError", "bad index")
        if isinstance(o, dict):
            k = self.hkey(i)
            if k in o:
                return o[k]
            if isinstance(k, CONST) or isinstance(k, (tuple, Cls, Ext)):
                if all(isinstance(x, (CONST, tuple, Cls, Ext)) for x in o):
                    raise self.pyexc("KeyError", repr(i))
            if isinstance(k, (Sym, FmtStr)):
                for kk, vv in o.items():
                    if self.truth(self.cmp("eq", kk, k)):
                        return vv
                raise self.pyexc("KeyError", repr(i))
            raise self.pyexc("KeyError", repr(i))
        if isinstance(o, Obj):
            if o.cls.flavor == "namedtuple" and o.cls.lookup("__getitem__") is None:
                return self.getitem(tuple(o.attrs[f] for f, _ in o.cls.fields), i)
            m = self.find_method(o, "__getitem__")
            if m is not None:
                return self.call(m, [i], {})
            raise self.pyexc("TypeError", "%s not subscriptable" % o.cls.name)
        return self.ext.getitem(o, i)

    def setitem(self, o, i, v):
        if isinstance(i, Sym) and i.lit is not None:
            i = i.lit
        if isinstance(o, list):
            self.jcont(o)
            if isinstance(i, (int, slice)):
                try:
                    o[i] = v
                    return
                except (IndexError, TypeError) as e:
                    raise self.pyexc(type(e).__name__, str(e))
            raise GiveUp("list setitem")
        if isinstance(o, dict):
            self.jcont(o)
            if isinstance(o, Header) and isinstance(v, tuple):
                v = v[0]  # (value, comment)
            o[self.hkey(i)] = v
            return
        if isinstance(o, Obj):
            m = self.find_method(o, "__setitem__")
            if m is not None:
                self.call(m, [i, v], {})
                return
            raise self.pyexc("TypeError", "item assignment")
        if isinstance(o, (Sym, Arr)):
            if isinstance(o, Arr) and o.mut and o.nd == 1 and isinstance(i, int) and -len(o.e) <= i < len(o.e):
                e = list(o.e)
                e[i] = v
                o.e = tuple(e)
                return
            if isinstance(o, Arr) and o.mut:
                raise GiveUp("numpy item assignment")
            if isinstance(o, Arr) or o.kind == "jax":
                raise self.pyexc("TypeError", "jax arrays are immutable")
            self.note_write(o, "item", v)
            return
        if isinstance(o, ExtObj):
            self.note_write(o, i, v)
            o.attrs[("item", self.key(i))] = v
            return
        raise self.pyexc("TypeError", "item assignment on %r" % (o,))


class Entered:
    """a context manager suspended inside its body (its frame lives on another thread, which runs only while this one waits)"""

    def __init__(self, I, cm):
        self.I, self.value, self.result, self.exc = I, None, None, None
        self.plain = None
        if not (isinstance(cm, Obj) and cm.tag == "ctxmgr"):
            self.plain = cm
            self.value = I.call_method(cm, "__enter__", []) if isinstance(cm, Obj) else I.ext.opaque("enter", [cm])
            return
        self.go, self.back = threading.Event(), threading.Event()
        base = list(I.stack)

        def body(v):
            self.value = v
            self.extra = list(I.stack)
            self.back.set()
            self.go.wait()
            I.stack[:] = self.extra
            if self.exc is not None:
                raise self.exc

        def run():
            try:
                I.call_fn(cm.attrs["fn"], cm.attrs["args"], cm.attrs["kwargs"], yieldcb=body)
                self.exc = None
            except BaseException as e:
                self.exc = e
            self.done = True
            self.back.set()

        self.done = False
        self.thread = threading.Thread(target=run, daemon=True)
        self.thread.start()
        self.back.wait()
        I.stack[:] = base
        if self.done:
            raise self.exc if self.exc is not None else GiveUp("context manager without yield")

    def leave(self, exc):
        if self.plain is not None:
            if isinstance(self.plain, Obj) and not isinstance(exc, GiveUp):
                self.I.call_method(self.plain, "__exit__", [None, None, None])
            return exc
        base = list(self.I.stack)
        self.exc = exc
        self.back.clear()
        self.go.set()
        self.back.wait()
        self.thread.join()
        self.I.stack[:] = base
        return self.exc


class ObjKey:
    """dict key wrapper of an object with user-defined hash"""

    def __init__(self, I, o):
        self.o = o
        self.I = I

    def __hash__(self):
        return hash(self.o.cls.name)

    def __eq__(self, other):
        if not isinstance(other, ObjKey):
            return False
        if self.o is other.o:
            return True
        return self.I.truth(self.I.obj_eq("eq", self.o, other.o))


class PyIter:
    def __init__(self, items):
        self.items = items


class _NoDef:
    def __repr__(self):
        return "NODEF"


NODEF = _NoDef()
CTX = Cls("ContextManager", [Ext("builtins.object")], {}, Mod("builtins", "<builtin>"))


class PathRec:
    def __init__(self, res, events, decisions, writes, calls):
        self.res = res
        self.events = events
        self.decisions = decisions
        self.writes = writes
        self.calls = calls

    @property
    def ok(self):
        return not isinstance(self.res, (AbsRaise, GiveUp))


def has_yield(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def fr_set(I, fr, name, v):
    if fr.globals and name in fr.globals:
        I.setattr(fr.globs, name, v)
        return
    if ("nonlocal", name) in fr.vars:
        f = fr.parent
        while f is not None:
            if name in f.vars:
                f.vars[name] = v
                return
            f = f.parent
    fr.vars[name] = v


BINOPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
    ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift",
}
DUNDER = {"add": "add", "sub": "sub", "mul": "mul", "div": "truediv", "floordiv": "floordiv", "mod": "mod", "pow": "pow", "matmul": "matmul", "and": "and", "or": "or", "xor": "xor", "lshift": "lshift", "rshift": "rshift"}
PYOPS = {
    "add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "floordiv": operator.floordiv, "mod": operator.mod,
    "pow": operator.pow, "and": operator.and_, "or": operator.or_, "xor": operator.xor, "lshift": operator.lshift, "rshift": operator.rshift, "matmul": operator.matmul,
}
