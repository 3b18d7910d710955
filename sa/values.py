"""Abstract values.

Python constants represent themselves.  Everything else is one of the
classes below.  A ``Sym`` is a value number: two Syms with the same operator
and operands are the same object (hash-consed per analysed path).
"""
import ast
import itertools
from .grade import *  # noqa

CONST = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis))
_birth = itertools.count(1)


def born():
    return next(_birth)


class Sym:
    __slots__ = ("op", "args", "id", "grade", "w", "kind", "traced", "deps", "ndim", "lit", "hint", "extra", "__weakref__")

    def __repr__(self):
        return show_term(self)


def show_term(v, d=4):
    if isinstance(v, Sym):
        if v.lit is not None:
            return repr(v.lit)
        if v.op == "atom":
            return str(v.args[0])
        if d == 0:
            return "..."
        return "%s(%s)" % (v.op, ", ".join(show_term(a, d - 1) for a in v.args))
    if isinstance(v, Obj):
        return "<%s>" % v.cls.name
    if isinstance(v, (tuple, list)):
        return "[" + ", ".join(show_term(x, d - 1) for x in v[:6]) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (show_term(k, d - 1), show_term(x, d - 1)) for k, x in list(v.items())[:6]) + "}"
    return repr(v)


class Arr:
    """small structured array: 1-D list of elements or 2-D list of rows"""

    __slots__ = ("e", "lead", "mut", "dt")

    def __init__(self, e, lead=False, mut=False, dt=None):
        self.e = tuple(e)
        self.dt = dt
        self.mut = mut  # a numpy array: element assignment is possible
        self.lead = lead  # elements may carry leading batch axes (stack axis=-1)

    @property
    def nd(self):
        return 2 if self.e and isinstance(self.e[0], tuple) else 1

    @property
    def shape(self):
        return (len(self.e), len(self.e[0])) if self.nd == 2 else (len(self.e),)

    def flat(self):
        return [x for r in self.e for x in r] if self.nd == 2 else list(self.e)

    def map(self, f):
        if self.nd == 2:
            return Arr([tuple(f(x) for x in r) for r in self.e], self.lead, self.mut)
        return Arr([f(x) for x in self.e], self.lead, self.mut)

    def T(self):
        if self.nd == 1:
            return self
        return Arr(list(zip(*self.e)), self.lead)

    def __repr__(self):
        return "Arr%r" % (self.e,)


class Header(dict):
    """a FITS header: a mapping whose items are stored with optional comments"""


class Obj:
    __slots__ = ("cls", "attrs", "birth", "frozen", "tag")

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.birth = born()
        self.frozen = False
        self.tag = None

    def __repr__(self):
        return "<%s %s>" % (self.cls.name, ", ".join("%s=%s" % (k, show_term(v, 2)) for k, v in self.attrs.items()))


class Cls:
    def __init__(self, name, bases, ns, mod, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.mod = mod
        self.node = node
        self.fields = None
        self.flavor = None
        self.frozen = False
        self.registered = False
        self.meta = None
        self.mro = self._mro()

    def _mro(self):
        seqs = []
        for b in self.bases:
            seqs.append(list(b.mro) if isinstance(b, Cls) else [b])
        seqs.append(list(self.bases))
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            out.append(h)
            seqs = [[x for x in s if x is not h and x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name]
        return None

    def owner(self, name):
        for c in self.mro:
            if isinstance(c, Cls) and name in c.ns:
                return c
        return None

    def issub(self, other):
        return any(c is other or c == other for c in self.mro)

    @property
    def extbases(self):
        return [c for c in self.mro if not isinstance(c, Cls)]

    def __repr__(self):
        return "<class %s>" % self.name


class Fn:
    __slots__ = ("node", "env", "mod", "defaults", "kwdefaults", "name", "cls", "attrs", "birth", "isgen", "locals")

    def __init__(self, node, env, mod, defaults, kwdefaults, name, cls=None):
        self.node = node
        self.env = env
        self.mod = mod
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.cls = cls
        self.attrs = {}
        self.birth = born()
        self.locals = None
        self.isgen = None

    @property
    def qual(self):
        return "%s:%s%s" % (self.mod.file, (self.cls.name + ".") if self.cls else "", self.name)

    def __repr__(self):
        return "<fn %s>" % self.name


class Bound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_

    def __repr__(self):
        return "<bound %r>" % (self.fn,)


class Mod:
    def __init__(self, name, file):
        self.name = name
        self.file = file
        self.ns = {}
        self.done = False
        self.tree = None
        self.src = None

    def __repr__(self):
        return "<mod %s>" % self.name


class Ext:
    """dotted name outside the repository"""

    __slots__ = ("path",)
    _cache = {}

    def __new__(cls, path):
        o = cls._cache.get(path)
        if o is None:
            o = object.__new__(cls)
            o.path = path
            cls._cache[path] = o
        return o

    def __repr__(self):
        return "<ext %s>" % self.path

    @property
    def name(self):
        return self.path.rsplit(".", 1)[-1]


class ExtObj:
    """instance of an external class"""

    __slots__ = ("cls", "args", "kwargs", "attrs", "birth", "sym")

    def __init__(self, cls, args=(), kwargs=None, attrs=None):
        self.cls = cls  # Ext
        self.args = list(args)
        self.kwargs = dict(kwargs or {})
        self.attrs = attrs if attrs is not None else {}
        self.birth = born()

    def __repr__(self):
        return "<%s(%s)>" % (self.cls.path, ", ".join([show_term(a, 2) for a in self.args] + ["%s=%s" % (k, show_term(v, 2)) for k, v in self.kwargs.items()]))


class Prop:
    def __init__(self, fget, fset=None, lazy=False):
        self.fget = fget
        self.fset = fset


class SMeth:
    def __init__(self, fn):
        self.fn = fn


class CMeth:
    def __init__(self, fn):
        self.fn = fn


class JitFn:
    """jax.jit(f, ...)"""

    def __init__(self, fn, opts=None, how="jit"):
        self.fn = fn
        self.opts = opts or {}
        self.how = how
        self.attrs = {}


class Part:
    def __init__(self, fn, args, kwargs):
        self.fn = fn
        self.args = list(args)
        self.kwargs = dict(kwargs)


class Super:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class PyFn:
    """engine-implemented callable"""

    def __init__(self, f, name):
        self.f = f
        self.name = name

    def __repr__(self):
        return "<py %s>" % self.name


class At:
    def __init__(self, x, idx=None):
        self.x = x
        self.idx = idx


class FmtStr:
    """string with symbolic holes: parts are str or (conv, value)"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, FmtStr):
                q = p.parts
            else:
                q = [p]
            for x in q:
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != "":
                    out.append(x)
        self.parts = out

    def __repr__(self):
        return "FmtStr(%s)" % "".join(p if isinstance(p, str) else "{%s:%s}" % (show_term(p[1], 1), p[0]) for p in self.parts)


class Frame:
    __slots__ = ("vars", "parent", "fn", "globals", "line", "globs", "yieldcb", "yields", "cls", "node", "site")

    def __init__(self, parent, globs, fn=None):
        self.vars = {}
        self.parent = parent
        self.globs = globs  # Mod
        self.fn = fn
        self.globals = None
        self.line = 0
        self.yieldcb = None
        self.yields = None
        self.cls = None


class Ret(Exception):
    def __init__(self, v, frame):
        self.v = v
        self.frame = frame


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class GiveUp(Exception):
    """the analysis cannot decide this path"""


class AbsRaise(Exception):
    """abstract exception; val: Obj | ExtObj | Ext"""

    def __init__(self, val, loc=None, note=None):
        self.val = val
        self.loc = loc
        self.note = note

    @property
    def name(self):
        v = self.val
        if isinstance(v, Obj):
            return v.cls.name
        if isinstance(v, ExtObj):
            return v.cls.name
        if isinstance(v, Ext):
            return v.name
        return str(v)

    def __str__(self):
        return "%s at %s %s" % (self.name, self.loc, self.note or "")
