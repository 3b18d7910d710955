"""Models (transfer functions) of the external libraries the repository uses."""
import ast
import builtins as _bi
import cmath
import math
import re
from fractions import Fraction
from .values import *  # noqa
from . import elt
from . import grade as gr
from .grade import POLY

CONSTS = {
    "pi": math.pi, "e": math.e, "inf": math.inf, "Inf": math.inf, "infty": math.inf, "nan": math.nan, "NaN": math.nan,
}
NPMODS = ("jax.numpy", "numpy", "math", "jax.lax", "jax.scipy.special", "scipy.special", "jax.nn")

KEEP1 = set(
    """real imag conj conjugate ravel reshape transpose flip flipud fliplr roll squeeze broadcast_to atleast_1d atleast_2d
    moveaxis swapaxes tile repeat sort sum max min mean median cumsum nansum amax amin floor ceil round rint trunc around fix stop_gradient
    copy flatten expand_dims diff take tril triu rot90 fftshift ifftshift nan_to_num block_until_ready ascontiguousarray require
    dynamic_slice expand_dims positive device_put optimization_barrier pad unique view permute_dims rollaxis std diagonal trace""".split()
)
BOOLF = set("isfinite isinf isnan isneginf isposinf iscomplex isreal any all logical_not iscomplexobj array_equal isclose allclose signbit isscalar".split())
ODDF = set("sin tan sinh tanh arcsin arctan arcsinh arctanh asin atan erf".split())
EVENF = set("cos cosh".split())
RANDSIG = {"uniform": ("shape", "dtype", "minval", "maxval"), "normal": ("shape", "dtype"), "bits": ("shape", "dtype"), "bernoulli": ("p", "shape"), "poisson": ("lam", "shape", "dtype"), "gamma": ("a", "shape", "dtype"),
           "chisquare": ("df", "shape", "dtype"), "weibull_min": ("scale", "concentration", "shape", "dtype"), "exponential": ("shape", "dtype"), "randint": ("shape", "minval", "maxval", "dtype"), "binomial": ("n", "p", "shape", "dtype")}
RANDDEF = {"uniform": {"minval": 0.0, "maxval": 1.0}, "bernoulli": {"p": 0.5}}
ELEMENTWISE = ("galsim.bessel.si", "galsim.bessel.kv", "galsim.bessel.j0")
DIMLESS = set("exp exp2 expm1 log1p arccos acos sinc gammaln lgamma gamma digamma erfc erfinv j0 j1 i0 kv kve jv sigmoid bessel_jn factorial polygamma betainc".split())


def pyname(f):
    return f.rsplit(".", 1)[-1]


SCALAR_DTYPES = {"float32": ("f", 4), "float64": ("f", 8), "float16": ("f", 2), "int8": ("i", 1), "int16": ("i", 2), "int32": ("i", 4), "int64": ("i", 8),
                 "uint8": ("u", 1), "uint16": ("u", 2), "uint32": ("u", 4), "uint64": ("u", 8), "complex64": ("c", 8), "complex128": ("c", 16), "bool_": ("b", 1)}


ARR_DUNDERS = set("add radd sub rsub mul rmul truediv rtruediv floordiv mod pow rpow neg pos abs eq ne lt le gt ge hash repr str bool float int complex index len iter getitem array and or xor invert matmul rmatmul round format".split())


SHAPEARG = {n: (0, "shape") for n in ("zeros", "ones", "full", "empty")}
SHAPEARG.update({n: (1, "shape") for n in ("broadcast_to", "reshape")})
SHAPEARG.update({"linspace": (2, "num"), "eye": (0, "N")})


UNARY_SHAPE = {"sqrt", "exp", "log", "sin", "cos", "tan", "sign", "ceil", "trunc", "expm1", "log1p"}


class Ext_:
    def __init__(self, I):
        self.I = I
        self.unmodelled = {}
        self.handlers = {}
        for k in dir(self):
            if k.startswith("b_"):
                self.handlers["builtins." + k[2:]] = getattr(self, k)
        H = self.handlers
        for nm in ("functools.partial", "jax.tree_util.Partial"):
            H[nm] = lambda a, k: Part(a[0], a[1:], k)
        for nm in ("functools.wraps",):
            H[nm] = lambda a, k: PyFn(lambda I, x, kk: x[0], "wraps_id")
        H["functools.lru_cache"] = self.lru_cache
        H["functools.cache"] = lambda a, k: JitFn(a[0], {}, "cache")
        H["jax.jit"] = lambda a, k: self.mkjit(a, k, "jit")
        H["jax.vmap"] = lambda a, k: self.mkjit(a, k, "vmap")
        H["jax.custom_jvp"] = lambda a, k: self.mkjit(a, k, "custom_jvp")
        H["jax.custom_vjp"] = lambda a, k: self.mkjit(a, k, "custom_jvp")
        H["jax.checkpoint"] = lambda a, k: self.mkjit(a, k, "custom_jvp")
        H["jax.grad"] = lambda a, k: self.mkjit(a, k, "grad")
        H["jax.jacfwd"] = H["jax.jacrev"] = H["jax.value_and_grad"] = H["jax.grad"]
        H["numpy.vectorize"] = lambda a, k: self.mkjit(a, {**k, "__np__": True}, "vectorize")
        H["jax.numpy.vectorize"] = lambda a, k: self.mkjit(a, k, "vectorize")
        H["jax.tree_util.register_pytree_node_class"] = self.register
        H["jax.tree_util.register_pytree_node"] = lambda a, k: None
        H["contextlib.contextmanager"] = self.ctxmgr
        H["contextlib.ExitStack"] = lambda a, k: ExtObj(Ext("contextlib.ExitStack"), a, k)
        H["dataclasses.dataclass"] = self.dataclass
        H["dataclasses.replace"] = self.dc_replace
        H["dataclasses.asdict"] = lambda a, k: {f: a[0].attrs[f] for f, _ in a[0].cls.fields}
        H["dataclasses.astuple"] = lambda a, k: tuple(a[0].attrs[f] for f, _ in a[0].cls.fields)
        H["dataclasses.fields"] = lambda a, k: [ExtObj(Ext("dataclasses.Field"), [], {}, {"name": f}) for f, _ in a[0].fields] if isinstance(a[0], Cls) else [ExtObj(Ext("dataclasses.Field"), [], {}, {"name": f}) for f, _ in a[0].cls.fields]
        H["builtins.object.__new__"] = lambda a, k: Obj(a[0]) if isinstance(a[0], Cls) else self.opaque("new", a)
        H["builtins.object.__init__"] = lambda a, k: None
        H["builtins.object.__setattr__"] = lambda a, k: self.I.rawset(a[0], a[1], a[2])
        H["builtins.object.__getattribute__"] = lambda a, k: self.I.getattr(a[0], a[1])
        H["collections.namedtuple"] = self.namedtuple
        H["copy.copy"] = self.copy_copy
        H["copy.deepcopy"] = lambda a, k: self.pytree_copy(a[0])
        H["equinox.error_if"] = self.error_if
        H["jax.lax.cond"] = self.cond
        H["jax.lax.switch"] = self.switch
        H["quadax.quadgk"] = self.quadgk
        H["jax.lax.while_loop"] = self.while_loop
        H["jax.lax.fori_loop"] = self.fori_loop
        H["jax.lax.scan"] = self.scan
        H["jax.lax.map"] = lambda a, k: self.call_jit(JitFn(a[0], {}, "vmap"), a[1:], {})
        H["jax.lax.select"] = lambda a, k: self.where(a, k)
        H["jax.pure_callback"] = lambda a, k: self.opaque("pure_callback", a, "jax")
        H["jax.tree_util.tree_map"] = H["jax.tree.map"] = self.tree_map
        H["jax.tree_util.tree_leaves"] = H["jax.tree.leaves"] = lambda a, k: self.leaves(a[0])
        H["jax.tree_util.tree_flatten"] = H["jax.tree.flatten"] = lambda a, k: (self.leaves(a[0]), self.opaque("treedef", []))
        H["galsim.fits.FitsHeader"] = self.fits_header
        for nm in ("read", "readMulti", "readCube"):
            H["galsim.fits." + nm] = lambda a, k, nm=nm: self.fits_read(nm, a, k)
        for nm in ("write", "writeMulti", "writeCube"):
            H["galsim.fits." + nm] = lambda a, k, nm=nm: self.fits_write(nm, a, k)
        H["sa_model.reads"] = lambda a, k: setattr(self, "fitsval", a[0])
        H["sa_model.asked"] = lambda a, k: self.fitslog[-1]
        H["sa_model.begin"] = self.fits_begin
        H["jax.dtypes.issubdtype"] = lambda a, k: self.n_issubdtype(a, k, "jax")
        H["secrets.randbelow"] = self.entropy
        H["warnings.warn"] = lambda a, k: None
        for nm in ("galsim.errors.galsim_warn", "galsim.utilities.galsim_warn"):
            H[nm] = lambda a, k: None
        H["galsim.utilities.doc_inherit"] = lambda a, k: a[0]
        for nm in ("split", "sub", "findall"):
            H["re." + nm] = lambda a, k, nm=nm: self.re_fold(nm, a, k)
        H["re.compile"] = lambda a, k: ExtObj(Ext("re.Pattern"), a, k)

    def entropy(self, a, k):
        # every call returns a fresh value
        self.nonce = getattr(self, "nonce", 0) + 1
        return self.I.mk("ext:secrets.randbelow", (a[0], self.nonce), None, "any")

    def fits_header(self, a, k):
        h = a[0] if a else k.get("header")
        if h is not None and not isinstance(h, dict):
            return ExtObj(Ext("galsim.fits.FitsHeader"), a, k)
        r = Header()
        for n, v in (h or {}).items():
            r[n] = v[0] if isinstance(v, tuple) else v
        return r

    fitsval = None
    fitslog = ()
    fitsfail = False

    def fits_begin(self, a, k):
        self.fitsval, self.fitslog, self.fitsfail = None, [], bool(a)

    def fits_read(self, nm, a, k):
        """GalSim's readers return the file's images as GalSim objects"""
        if self.fitsval is None:
            self.I.extcalls.append(("galsim.fits." + nm, a, k, self.I.loc()))
            return self.opaque("galsim.fits." + nm, a + list(k.values()))
        self.fitslog.append((nm, tuple(a), dict(k)))
        return self.fitsval

    def fits_write(self, nm, a, k):
        """GalSim's writers see the images as they are at the call"""

        def snap(v):
            if isinstance(v, (list, tuple)):
                return [snap(x) for x in v]
            if isinstance(v, Obj) and "_array" in v.attrs:
                arr = v.attrs["_array"]
                c = v.attrs.get("__class__", v.cls)
                return {"cls": "galsim.Image" if isinstance(c, Ext) else c.name, "kind": "numpy" if not isinstance(arr, Obj) and self.I.kindof(arr) == "np" else "jax", "array": arr, "bounds": v.attrs.get("_bounds"), "wcs": v.attrs.get("wcs"), "obj": v}
            if isinstance(v, ExtObj) and v.cls.name == "Image":
                return {"cls": "galsim.Image", "kind": "numpy", "array": v.attrs.get("array"), "bounds": v.attrs.get("bounds"), "wcs": v.attrs.get("wcs"), "obj": v}
            return {"cls": "array", "kind": self.I.kindof(v), "array": v} if isinstance(v, (Sym, Arr)) else v

        if isinstance(self.fitslog, list):
            self.fitslog.append((nm, [snap(a[0])] + a[1:] if a else [], {n: snap(v) for n, v in k.items()}))
        if self.fitsfail:
            raise self.I.pyexc("OSError", "cannot write")
        return None

    def re_fold(self, nm, a, k):
        import re

        if all(isinstance(x, (str, int)) for x in a) and not k:
            return getattr(re, nm)(*a)
        return self.opaque("re." + nm, a)

    # ------------------------------------------------------------ names
    def canon(self, name):
        parts = name.split(".")
        if parts[0] == "np":
            parts[0] = "numpy"
        name = ".".join(parts)
        name = name.replace("jax._src.", "jax.")
        return name

    def builtin(self, n):
        if n == "NotImplemented":
            return Ext("builtins.NotImplemented")
        if n == "Ellipsis":
            return Ellipsis
        if hasattr(_bi, n):
            return Ext("builtins." + n)
        raise self.I.pyexc("NameError", "name %r is not defined" % n)

    def resolve(self, e):
        head, _, last = e.path.rpartition(".")
        if head in ("jax.numpy", "numpy", "math") and last in CONSTS:
            return CONSTS[last]
        if head in ("jax.numpy", "numpy") and last == "newaxis":
            return None
        if head in ("jax.numpy",) and last == "arry":
            raise self.I.pyexc("AttributeError", "module jax.numpy has no attribute " + last)
        return e

    # ------------------------------------------------------- decorators etc.
    def mkjit(self, a, k, how):
        if not a:
            return PyFn(lambda I, x, kk: self.mkjit(x, {**k, **kk}, how), how)
        return JitFn(a[0], k if len(a) == 1 else {**k, "in_axes": a[1]}, how)

    def lru_cache(self, a, k):
        if a and not isinstance(a[0], (int, type(None))):
            return JitFn(a[0], {}, "cache")
        return PyFn(lambda I, x, kk: JitFn(x[0], {}, "cache"), "lru_cache")

    def ctxmgr(self, a, k):
        f = a[0]
        if isinstance(f, Fn):
            f.attrs["__ctx__"] = True
        return f

    def register(self, a, k):
        if isinstance(a[0], Cls):
            a[0].registered = True
        return a[0]

    def dataclass(self, a, k):
        def deco(c, kk):
            c.flavor = "dataclass"
            c.frozen = bool(kk.get("frozen", False))
            fs = []
            for b in reversed(c.mro):
                if isinstance(b, Cls):
                    for n in getattr(b, "ann", {}):
                        fs = [f for f in fs if f[0] != n]
                        fs.append((n, c.lookup(n) if any(isinstance(x, Cls) and n in x.ns for x in c.mro) else NODEF_()))
            c.fields = fs
            return c

        if a and isinstance(a[0], Cls):
            return deco(a[0], k)
        return PyFn(lambda I, x, kk: deco(x[0], k), "dataclass")

    def dc_replace(self, a, k):
        o = a[0]
        if not isinstance(o, Obj):
            return self.opaque("replace", a + list(k.values()))
        kw = {f: o.attrs[f] for f, _ in o.cls.fields}
        for n, v in k.items():
            if n not in kw:
                raise self.I.pyexc("TypeError", "unexpected field " + n)
            kw[n] = v
        return self.I.instantiate(o.cls, [], kw)

    def namedtuple(self, a, k):
        name, fields = a[0], a[1]
        if isinstance(fields, str):
            fields = fields.replace(",", " ").split()
        fields = list(fields)
        d = list(k.get("defaults", ()) or ())
        c = Cls(name, [Ext("builtins.tuple")], {}, self.I.stack[-1].globs if self.I.stack else None)
        c.flavor = "namedtuple"
        nd = NODEF_()
        c.fields = [(f, d[i - (len(fields) - len(d))] if i >= len(fields) - len(d) else nd) for i, f in enumerate(fields)]
        return c

    def copy_copy(self, a, k):
        o = a[0]
        if isinstance(o, Obj):
            m = self.I.find_method(o, "__copy__")
            if m is not None:
                return self.I.call(m, [], {})
            n = Obj(o.cls, dict(o.attrs))
            return n
        if isinstance(o, (list, dict, set)):
            return o.copy()
        return o

    def error_if(self, a, k):
        self.I.extcalls.append(("equinox.error_if", a, k, self.I.loc()))
        pred = a[1] if len(a) > 1 else k.get("pred")
        lp = self.I.litval(pred)
        if lp is True:
            raise self.I.pyexc("EqxRuntimeError", "error_if")
        if lp is None and isinstance(pred, Sym) and getattr(self.I, "errors", None) and self.I.errors(self.I, pred):
            raise self.I.pyexc("EqxRuntimeError", "error_if")
        v = a[0]
        if isinstance(v, (Obj, list, dict)):
            return self.pytree_copy(v)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return self.I.litsym(v)
        return v

    # --------------------------------------------------------------- pytrees
    def pytree_copy(self, v, memo=None):
        if isinstance(v, Obj):
            if v.cls.flavor == "dataclass" and v.cls.frozen:
                return v
            n = Obj(v.cls)
            n.attrs = {k: self.pytree_copy(x) for k, x in v.attrs.items()}
            return n
        if isinstance(v, list):
            return [self.pytree_copy(x) for x in v]
        if isinstance(v, tuple):
            return tuple(self.pytree_copy(x) for x in v)
        if isinstance(v, dict):
            return {k: self.pytree_copy(x) for k, x in v.items()}
        return v

    def leaves(self, v):
        I = self.I
        if v is None:
            return []
        if isinstance(v, (list, tuple)):
            return [y for x in v for y in self.leaves(x)]
        if isinstance(v, dict):
            return [y for k in v for y in self.leaves(v[k])]
        if isinstance(v, Obj):
            if v.cls.flavor == "namedtuple":
                return [y for f, _ in v.cls.fields for y in self.leaves(v.attrs[f])]
            if v.cls.registered:
                m = I.find_method(v, "tree_flatten")
                ch, aux = I.iterate(I.call(m, [], {}), 2)
                return self.leaves(ch)
        return [v]

    def tree_map(self, a, k):
        I = self.I
        f, v = a[0], a[1]

        def rec(x, rest):
            if x is None:
                return None
            if isinstance(x, list):
                return [rec(y, [r[i] for r in rest]) for i, y in enumerate(x)]
            if isinstance(x, tuple):
                return tuple(rec(y, [r[i] for r in rest]) for i, y in enumerate(x))
            if isinstance(x, dict):
                return {kk: rec(y, [r[kk] for r in rest]) for kk, y in x.items()}
            if isinstance(x, Obj):
                if x.cls.flavor == "namedtuple":
                    return Obj(x.cls, {f_: rec(x.attrs[f_], [r.attrs[f_] for r in rest]) for f_, _ in x.cls.fields})
                if x.cls.registered and not rest:
                    ch, aux = I.iterate(I.call(I.find_method(x, "tree_flatten"), [], {}), 2)
                    return I.call(I.getattr(x.cls, "tree_unflatten"), [aux, rec(ch, rest)], {})
            return I.call(f, [x] + rest, {})

        return rec(v, list(a[2:]))

    # ------------------------------------------------------------------- jit
    def call_jit(self, j, args, kwargs):
        I = self.I
        if j.how == "cache":
            I.event("cached_call", "memoised call", fn=j.fn, args=args, kwargs=kwargs)
            return I.call(j.fn, args, kwargs)
        if j.how == "custom_jvp":
            return I.call(j.fn, args, kwargs)
        if j.how == "grad":
            return self.opaque("grad", [j.fn] + list(args), "jax")
        if j.how == "vectorize":
            if I.staging and j.opts.get("__np__"):
                self.npguard("numpy", "vectorize", list(args), kwargs)
                return self.unstaged(lambda: self.call_jit(j, args, kwargs))
            n = [len(x.e) for x in args if isinstance(x, Arr) and x.nd == 1]
            if n and len(set(n)) == 1 and n[0] <= 16:
                out = [I.call(j.fn, [x.e[i] if isinstance(x, Arr) and x.nd == 1 else x for x in args], kwargs) for i in range(n[0])]
                if all(isinstance(x, (Sym, int, float, complex)) for x in out):
                    return Arr([x if isinstance(x, Sym) else I.litsym(x, "np") for x in out])
            r = I.call(j.fn, args, kwargs)
            sh = elt.bcast(I, [elt.shape_of(I, x) for x in args]) if all(isinstance(x, (Sym, Arr, int, float, complex)) for x in args) else None
            return self.lift(r, ("ve", sh))
        I.region.append((j.how, born()))
        try:
            if j.how == "jit":
                static = j.opts.get("static_argnames", ()) or ()
                if isinstance(static, str):
                    static = (static,)
                static = set(static)
                sn = j.opts.get("static_argnums", ()) or ()
                if isinstance(sn, int):
                    sn = (sn,)
                params = self.params_of(j.fn)
                na = []
                for i, a in enumerate(args):
                    pn = params[i] if i < len(params) else None
                    na.append(a if (i in sn or pn in static) else self.pytree_copy(a))
                nk = {k: (v if k in static else self.pytree_copy(v)) for k, v in kwargs.items()}
                return I.call(j.fn, na, nk)
            # vmap
            axes = j.opts.get("in_axes", 0)
            r = self.unrolled(j, args, axes) if not kwargs else None
            if r is not None:
                return r
            na = []
            for i, a in enumerate(args):
                ax = axes[i] if isinstance(axes, (tuple, list)) and i < len(axes) else axes
                na.append(a if ax is None and not isinstance(axes, int) else self.elem(a))
            nk = {k: self.elem(v) for k, v in kwargs.items()}
            r = I.call(j.fn, na, nk)
            lead = None
            for i, x in enumerate(list(args) + list(kwargs.values())):
                ax = axes[i] if isinstance(axes, (tuple, list)) and i < len(axes) else axes
                if ax is None:
                    continue
                for y in self.leaves(x) if isinstance(x, (Obj, tuple, list, dict)) else [x]:
                    if isinstance(y, (Sym, Arr)):
                        sh = elt.shape_of(I, y)
                        if sh:
                            lead = sh[:1]
                            break
                if lead is not None:
                    break
            return self.lift(r, ("vm", lead))
        finally:
            I.region.pop()

    def unrolled(self, j, args, axes):
        """vmap over known integers: one call per element"""
        I = self.I
        axs = [axes[i] if isinstance(axes, (tuple, list)) and i < len(axes) else axes for i in range(len(args))]
        ls = {i: self.int_list(a) for i, a in enumerate(args) if axs[i] == 0 and axs[i] is not None}
        if any(ax not in (0, None) for ax in axs) or not ls or any(v is None for v in ls.values()) or len({len(v) for v in ls.values()}) != 1:
            return None
        n = len(list(ls.values())[0])
        if not 1 <= n <= 32:
            return None
        rs = [I.call(j.fn, [I.litsym(ls[i][m], "jax") if i in ls else a for i, a in enumerate(args)], {}) for m in range(n)]

        def stack(xs):
            if all(isinstance(x, tuple) and len(x) == len(xs[0]) for x in xs):
                return tuple(stack([x[i] for x in xs]) for i in range(len(xs[0])))
            if not all(isinstance(x, (Sym, Arr, int, float)) for x in xs):
                return None
            ws = {I.weight(x) for x in xs}
            sh = elt.shape_of(I, xs[0])
            s = I.mk("array", tuple(xs), I.gjoin([I.grade(x) for x in xs]), "jax", None if sh is None else len(sh) + 1, I.hints(*xs), w=ws.pop() if len(ws) == 1 else None)
            if sh is not None and s.extra is None:
                s.extra = {"shape": (n,) + tuple(sh)}
            return s

        return stack(rs)

    def params_of(self, f):
        skip = 0
        while not isinstance(f, Fn):
            if isinstance(f, Bound):
                skip += 1
                f = f.fn
            elif isinstance(f, JitFn):
                f = f.fn
            elif isinstance(f, Part):
                skip += len(f.args)
                f = f.fn
            elif isinstance(f, (SMeth, CMeth)):
                f = f.fn
            else:
                return []
        a = f.node.args
        return [p.arg for p in a.posonlyargs + a.args][skip:]

    def elem(self, v):
        I = self.I
        if isinstance(v, Sym):
            if v.ndim == 0:
                return v
            return I.mk("elem", (v,), v.grade, v.kind, None if v.ndim is None else max(v.ndim - 1, 0), v.hint, w=v.w)
        if isinstance(v, Arr):
            if v.nd == 2:
                return Arr([self.elem_join([r[i] for r in v.e]) for i in range(len(v.e[0]))]) if not v.lead else v
            return self.elem_join(v.e)
        if isinstance(v, (tuple,)):
            return tuple(self.elem(x) for x in v)
        if isinstance(v, list):
            return [self.elem(x) for x in v]
        if isinstance(v, dict):
            return {k: self.elem(x) for k, x in v.items()}
        if isinstance(v, Obj):
            n = Obj(v.cls)
            n.attrs = {k: self.elem(x) if not (isinstance(x, Obj) and x.cls.flavor == "dataclass") else x for k, x in v.attrs.items()}
            return n
        return v

    def elem_join(self, xs):
        I = self.I
        ks = {I.key(x) for x in xs}
        if len(ks) == 1:
            return xs[0]
        ws = {I.weight(x) for x in xs}
        return I.mk("elem", (Arr(xs),), I.gjoin([I.grade(x) for x in xs]), "jax", 0, I.hints(*xs), w=ws.pop() if len(ws) == 1 else None)

    def lift(self, v, args=()):
        I = self.I
        if isinstance(v, Sym) or isinstance(v, (int, float)) and not isinstance(v, bool):
            sh = None
            if args and args[1] is not None:
                sv = elt.shape_of(I, v)
                if args[0] == "ve":
                    sh = args[1]
                elif sv is not None:
                    sh = tuple(args[1]) + sv
            if args and args[0] == "ve" and sh == () and isinstance(v, Sym):
                return v
            nd = len(sh) if sh is not None else None
            if isinstance(v, Sym):
                s = I.mk("vmapped", (v,), v.grade, "jax" if v.kind != "key" else "key", nd, v.hint, w=v.w)
            else:
                s = I.mk("vmapped", (v,), I.grade(v), "jax", nd, "f", w=())
            if sh is not None and s.extra is None:
                s.extra = {"shape": sh}
            if args and args[0] == "vm":
                s.extra = {**(s.extra or {}), "vm": True}
            return s
        if isinstance(v, Arr):
            return v.map(lambda x: self.lift(x, args))
        if isinstance(v, tuple):
            return tuple(self.lift(x, args) for x in v)
        if isinstance(v, list):
            return [self.lift(x, args) for x in v]
        if isinstance(v, dict):
            return {k: self.lift(x, args) for k, x in v.items()}
        if isinstance(v, Obj) and not (v.cls.flavor == "dataclass"):
            n = Obj(v.cls)
            n.attrs = {k: self.lift(x, args) for k, x in v.attrs.items()}
            return n
        return v

    # --------------------------------------------------------- lax control
    def region_call(self, how, f, args):
        I = self.I
        I.region.append((how, born()))
        try:
            return I.call(f, args, {})
        finally:
            I.region.pop()

    def cond(self, a, k):
        I = self.I
        a = list(a)
        pred = a[0] if a else k.get("pred")
        tf = a[1] if len(a) > 1 else k.get("true_fun")
        ff = a[2] if len(a) > 2 else k.get("false_fun")
        ops = a[3:]
        if "operand" in k:
            ops = ops + [k["operand"]]
        if not callable_(tf) and len(a) == 5:
            raise GiveUp("old cond")
        lv = I.litval(pred)
        if isinstance(pred, Arr):
            pred = pred.flat()[0]
        if lv is not None or isinstance(pred, bool):
            c = bool(lv)
        elif I.exact and isinstance(pred, Sym):
            # the two branches are joined value by value
            rt, rf = [self.region_call("cond", f, [self.pytree_copy(o) for o in ops]) for f in (tf, ff)]
            return self.joined(pred, rt, rf)
        else:
            base, inv = pred, False
            while isinstance(base, Sym) and base.op == "not":
                base, inv = base.args[0], not inv
            if isinstance(base, Sym):
                c = I.decide_term(base)
            else:
                c = I.decide(("t", id(base)))
            if inv:
                c = not c
        I.calls.append(("cond", pred, tf, ff, ops, I.loc()))
        return self.region_call("cond", tf if c else ff, [self.pytree_copy(o) for o in ops])

    def joined(self, c, x, y):
        """value of a region that yields x where c holds and y elsewhere"""
        I = self.I
        if x is y:
            return x
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and len(x) == len(y):
            return type(x)([self.joined(c, p, q) for p, q in zip(x, y)])
        if isinstance(x, dict) and isinstance(y, dict) and set(x) == set(y):
            return {k: self.joined(c, x[k], y[k]) for k in x}
        num = (Sym, Arr, bool, int, float, complex)
        if isinstance(x, num) and isinstance(y, num):
            return self.where([c, x, y], {})
        if isinstance(x, Obj) and isinstance(y, Obj) and x.cls is y.cls and set(x.attrs) == set(y.attrs):
            n = Obj(x.cls)
            n.attrs = {k: self.joined(c, x.attrs[k], y.attrs[k]) for k in x.attrs}
            return n
        if I.key(x) == I.key(y):
            return x
        raise GiveUp("branches of different structure")

    def switch(self, a, k):
        I = self.I
        idx, branches = a[0], I.iterate(a[1])
        lv = I.litval(idx)
        if lv is not None:
            i = max(0, min(int(lv), len(branches) - 1))
        else:
            i = len(branches) - 1
            for j in range(len(branches) - 1):
                if I.decide(("switch", idx.id, j)):
                    i = j
                    break
        return self.region_call("switch", branches[i], [self.pytree_copy(o) for o in a[2:]])

    def widen(self, x, y):
        I = self.I
        if I.key(x) == I.key(y):
            return x
        if isinstance(x, (tuple, list)) and type(x) is type(y) and len(x) == len(y):
            r = [self.widen(p, q) for p, q in zip(x, y)]
            return tuple(r) if isinstance(x, tuple) else r
        if isinstance(x, dict) and isinstance(y, dict) and set(x) == set(y):
            return {k: self.widen(x[k], y[k]) for k in x}
        if isinstance(x, Obj) and isinstance(y, Obj) and x.cls is y.cls and set(x.attrs) == set(y.attrs):
            n = Obj(x.cls)
            n.attrs = {k: self.widen(x.attrs[k], y.attrs[k]) for k in x.attrs}
            return n
        if isinstance(x, Arr) and isinstance(y, Arr) and x.shape == y.shape:
            if x.nd == 1:
                return Arr([self.widen(p, q) for p, q in zip(x.e, y.e)], x.lead)
            return Arr([tuple(self.widen(p, q) for p, q in zip(r, s)) for r, s in zip(x.e, y.e)], x.lead)
        if isinstance(x, Sym) and x.kind == "key" or isinstance(y, Sym) and y.kind == "key":
            return I.mk("loopkey", (x, y), None, "key", None)
        num = (Sym, int, float, complex, Arr)
        if isinstance(x, num) and isinstance(y, num):
            g = I.g_unify(x, y, "loop-carried join")
            wx, wy = I.weight(x), I.weight(y)
            py = ("pyf", "pyi", "pyb", "int", "float")
            kx, ky = [v.kind if isinstance(v, Sym) else type(v).__name__ for v in (x, y)]
            return I.mk("loop", (x, y), g, "pyf" if kx in py and ky in py else "jax", I.ndims(x, y), I.hints(x, y), w=wx if wx == wy else None)
        return y

    def loop(self, body, init, extra=lambda i: ()):
        """two abstract iterations"""
        c0 = self.pytree_copy(init)
        c1 = body(c0, 0)
        c1 = self.widen(init, c1)
        c2 = body(self.pytree_copy(c1), 1)
        return self.widen(c1, c2)

    def quadgk(self, a, k):
        """adaptive quadrature, summarised by a fixed rule on the interval"""
        I = self.I
        f, iv = a[0], I.iterate(a[1])
        if len(iv) != 2:
            raise GiveUp("quadgk with breakpoints")
        lo, hi = iv
        def limit(x):
            v = I.litval(x)
            if v is None and I.exact:
                vs = {I.exact[1].at(x, k)[0] for k in range(I.exact[2])}
                v = vs.pop() if len(vs) == 1 else None
            return v

        lim = [limit(x) for x in iv]
        inf = [v in (math.inf, -math.inf) for v in lim]
        if any(inf):
            m = I.arith
            sg = [1.0 if not x else (1.0 if v > 0 else -1.0) for x, v in zip(inf, lim)]
            h, tot = 0.05, 0.0
            for i in range(-90, 91):
                t = h * i
                if all(inf):
                    # x = sinh(t)
                    if sg[0] == sg[1]:
                        raise GiveUp("quadgk interval")
                    x, w = math.sinh(t), h * math.cosh(t) * sg[1]
                    if abs(x) > 12:
                        continue
                    y = I.call(f, [I.litsym(x, "jax")], {})
                else:
                    # x = c + s exp(t - exp(-t))
                    u = math.exp(t - math.exp(-t)) if t > -4 else 0.0
                    w = h * u * (1 + math.exp(-t)) if u else 0.0
                    if u < 1e-12 or u > 12:
                        continue
                    c, s = (lo, sg[1]) if inf[1] else (hi, sg[0])
                    y = I.call(f, [m("add", c, I.litsym(s * u, "jax"))], {})
                    w *= s if inf[1] else -s
                tot = m("add", tot, m("mul", w, y))
        else:
            xs = (0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717)
            ws = (0.2955242247147529, 0.2692667193099963, 0.2190863625159821, 0.1494513491505806, 0.0666713443086881)
            m = I.arith
            c, d, tot = m("div", m("add", lo, hi), 2.0), m("div", m("sub", hi, lo), 2.0), 0.0
            for x, w in zip(xs, ws):
                for q in (x, -x):
                    tot = m("add", tot, m("mul", w, I.call(f, [m("add", c, m("mul", d, q))], {})))
            tot = m("mul", d, tot)
        info = ExtObj(Ext("quadax.info"), list(a))
        n = sum(c[0] == "quadax.quadgk" for c in I.extcalls)
        st = I.atom("quadstatus%d" % n, gr.ONE, "jax", 0, "i")
        I.extcalls.append(("quadax.quadgk", [st, lim], k, I.loc()))
        info.attrs["status"] = st
        info.attrs["err"] = I.atom("quaderr%d" % n, gr.ONE, "jax", 0, "f")
        return (tot, info)

    def while_loop(self, a, k):
        I = self.I
        cf = a[0] if a else k["cond_fun"]
        bf = a[1] if len(a) > 1 else k["body_fun"]
        init = a[2] if len(a) > 2 else k["init_val"]
        if I.exact:
            # the recurrence is followed until its condition fails at every valuation
            cap, F, n = I.exact
            c = self.pytree_copy(init)
            for i in range(cap):
                t = self.region_call("while", cf, [c])
                if I.litval(t) is not None:
                    vs = [bool(I.litval(t))]
                else:
                    vs = [F.at(t, k) for k in range(n)]
                    if any(tx or x != x for x, tx in vs):
                        vs = [bool(x) for x, tx in vs if not tx and x == x] or [None]
                    else:
                        vs = [bool(x) for x, tx in vs]
                if vs == [None]:
                    break
                if not any(vs):
                    return c
                c2 = self.region_call("while", bf, [self.pytree_copy(c)])
                c = c2 if all(vs) else self.joined(t, c2, c)
            raise GiveUp("loop not decided in %d iterations" % cap)
        I.approx = True

        def body(c, i):
            t = self.region_call("while", cf, [c])
            return self.region_call("while", bf, [c])

        return self.loop(body, init)

    def fori_loop(self, a, k):
        I = self.I
        lo, hi, bf, init = (list(a) + [None] * 4)[:4]
        if init is None:
            init = k.get("init_val")
        if type(lo) is int and type(hi) is int and hi - lo <= (I.exact[0] if I.exact else 12):
            # constant trip count: the recurrence is followed exactly
            c = init
            for i in range(lo, hi):
                c = self.region_call("fori", bf, [I.litsym(i), c])
            return c
        I.approx = True

        def body(c, i):
            ix = I.mk("loopidx", (lo, hi), gr.ONE, "jax", 0, "i", w=())
            return self.region_call("fori", bf, [ix, c])

        return self.loop(body, init)

    def scan(self, a, k):
        I = self.I
        f = a[0] if a else k["f"]
        init = a[1] if len(a) > 1 else k.get("init")
        xs = a[2] if len(a) > 2 else k.get("xs")
        if isinstance(xs, Arr) and not xs.lead and len(xs.e) <= 12 and not k.get("reverse"):
            # rows are known: the recurrence is followed exactly
            c, ys = init, []
            for e in xs.e:
                c, y = I.iterate(self.region_call("scan", f, [c, Arr(e) if isinstance(e, tuple) else e]), 2)
                ys.append(y)
            return (c, self.to_arr(ys) if ys and all(isinstance(y, (Sym, Arr)) for y in ys) else None)
        n = self.scan_len(xs, k.get("length", a[3] if len(a) > 3 else None))
        if n is not None and n <= 16:
            c, ys = init, {}
            for i in reversed(range(n)) if k.get("reverse") else range(n):
                c, y = I.iterate(self.region_call("scan", f, [c, self.tree_map([PyFn(lambda I, a, k, i=i: self.getitem(a[0], i), "row"), xs], {}) if xs is not None else None]), 2)
                ys[i] = y
            ys = [ys[i] for i in sorted(ys)]
            if not ys or all(y is None for y in ys):
                return (c, None)
            if all(isinstance(y, (Sym, Arr)) for y in ys):
                return (c, self.npcall("jax.numpy", "stack", [ys], {}))
        I.approx = True
        ys = []

        def body(c, i):
            r = self.region_call("scan", f, [c, self.elem(xs)])
            c2, y = I.iterate(r, 2)
            ys.append(y)
            return c2

        c = self.loop(body, init)
        return (c, self.lift(self.widen(ys[0], ys[1])) if len(ys) > 1 else None)

    def scan_len(self, xs, length):
        """literal trip count of a scan, if known"""
        if isinstance(length, int):
            return length
        if isinstance(length, Sym):
            n = self.dimval(length)
            if n is not None:
                return n
        if xs is None:
            return None
        for x in self.leaves(xs):
            sh = elt.shape_of(self.I, x) if isinstance(x, (Sym, Arr)) else None
            if sh and elt.isint(sh[0]):
                return int(sh[0])
        return None

    def dimval(self, d):
        """literal value of an array dimension, if known"""
        if isinstance(d, int):
            return d
        if isinstance(d, Sym):
            if isinstance(d.lit, int):
                return d.lit
            if d.op == "dim" and isinstance(d.args[1], int):
                sh = elt.shape_of(self.I, d.args[0])
                if sh is not None and -len(sh) <= d.args[1] < len(sh) and elt.isint(sh[d.args[1]]):
                    return int(sh[d.args[1]])
        return None

    # -------------------------------------------------------------- opaque
    def opaque(self, name, args, kind="any"):
        if self.I.staging and kind == "any" and name.startswith("galsim."):
            kind = "np"
        if name in ELEMENTWISE and len(args) <= 2 and all(isinstance(x, (Sym, int, float)) for x in args):
            return self.I.mk("ext:" + name, tuple(args), None, "jax", self.I.ndims(*args), "f")
        return self.I.mk("ext:" + name, tuple(args), None, kind)

    def call_sym(self, f, args, kwargs):
        return self.opaque("call", [f] + list(args) + [(k, v) for k, v in kwargs.items()])

    # ------------------------------------------------------------- arrays
    def to_arr(self, x, lead=False, top=8):
        I = self.I
        if isinstance(x, (Sym, Arr)):
            return x
        if isinstance(x, (int, float, complex)):
            return I.litsym(x)
        x = I.iterate(x)
        if len(x) == 0:
            return I.mk("empty", (), POLY, "jax", 1, "f", w=())
        xs = []
        for e in x:
            if isinstance(e, (list, tuple)):
                e = self.to_arr(e)
            xs.append(e)
        if any(e is None for e in xs):
            raise I.pyexc("TypeError", "None in array")
        if any(isinstance(e, (Obj, ExtObj, str)) for e in xs):
            return I.mk("objarray", tuple(xs), None, "np" if False else "any")
        if len(xs) <= top:
            if all(isinstance(e, Arr) and e.nd == 1 for e in xs) and len({len(e.e) for e in xs}) == 1:
                return Arr([e.e for e in xs])
            shs = [elt.shape_of(I, e) for e in xs]
            if shs[0] and len(shs[0]) == 1 and all(s == shs[0] for s in shs) and elt.isint(shs[0][0]) and shs[0][0] <= 8:
                # rows of known small length
                return Arr([e.e if isinstance(e, Arr) else tuple(self.getitem(e, i) for i in range(shs[0][0])) for e in xs])
            if all(isinstance(e, (int, float, complex)) or (isinstance(e, Sym)) for e in xs):
                return Arr([I.litsym(e) if not isinstance(e, Sym) else e for e in xs])
        g = I.gjoin([I.grade(e) for e in xs])
        ws = {I.weight(e) for e in xs}
        return I.mk("array", tuple(xs), g, "jax", None, I.hints(*xs), w=ws.pop() if len(ws) == 1 else None)

    def unlist(self, x):
        """array(list-of-all-elements of a.tolist()) is a"""

        def rec(v):
            if isinstance(v, (list, tuple)) and len(v) == 1:
                r = rec(v[0])
                return r.args[0] if isinstance(r, Sym) and r.op == "listelem" else None
            return v if isinstance(v, Sym) and v.op in ("listelem", "tolist") else None

        if isinstance(x, (list, tuple)) and len(x) == 1 and isinstance(x[0], Sym) and x[0].op == "tolist":
            return x[0].args[0]
        r = rec(x)
        return r.args[0] if isinstance(r, Sym) and r.op == "tolist" else None

    def asarray(self, x, kind="jax", dtype=None):
        I = self.I
        if I.staging and kind == "np":
            return self.unstaged(lambda: self.asarray(x, kind, dtype))
        if isinstance(x, Obj):
            m = I.find_method(x, "__array__") or I.find_method(x, "__jax_array__")
            if m is not None:
                return I.call(m, [], {})
            raise I.pyexc("TypeError", "not a valid array: " + x.cls.name)
        if x is None:
            raise I.pyexc("TypeError", "None is not a valid array")
        if isinstance(x, Sym) and x.kind == "list":
            x = self.unlist([x]) or x
        if isinstance(x, (list, tuple)):
            u = self.unlist(x)
            if u is not None:
                return self.cast(u, dtype)
            r = self.to_arr(x, top=64 if kind == "np" else 8)
            if isinstance(r, Arr) and kind == "np":
                for e in r.flat():
                    if isinstance(e, Sym) and e.traced:
                        raise I.tracer_error("numpy array from traced value", e)
                r = self.cast(r, dtype)
                return Arr(r.e, r.lead, True) if isinstance(r, Arr) else r
            return self.cast(r, dtype)
        if isinstance(x, bool) or isinstance(x, (int, float, complex)):
            return self.cast(I.litsym(x, kind), dtype)
        if isinstance(x, str):
            raise I.pyexc("TypeError", "string array")
        if isinstance(x, Sym):
            if kind == "np" and x.traced:
                raise I.tracer_error("numpy array from traced value", x)
            if x.kind != kind:
                if x.lit is not None:
                    x = I.litsym(x.lit, kind, x.ndim)
                else:
                    x = I.mk("asarray", (x,), x.grade, kind, x.ndim, x.hint, w=x.w)
            return self.cast(x, dtype)
        if isinstance(x, Arr):
            return self.cast(x, dtype)
        return self.opaque("array", [x], kind)

    def dtclass(self, dt):
        if dt is None:
            return None
        if isinstance(dt, Ext):
            n = dt.name
            if n.startswith(("float", "floating", "double", "single")):
                return "f"
            if n.startswith(("int", "uint")):
                return "i"
            if n.startswith("complex"):
                return "c"
            if n.startswith("bool"):
                return "b"
        if isinstance(dt, str):
            return {"f": "f", "i": "i", "u": "i", "c": "c", "b": "b"}.get(dt[0])
        return None

    def cast(self, x, dt):
        r = self.cast_(x, dt)
        if isinstance(r, Sym) and r is not x and r.op in ("tofloat", "toint", "toc") and r.ndim != 0 and isinstance(dt, Ext):
            d = self.canon_dtype(dt)
            if r.extra and "dtype" in r.extra and self.canon_dtype(r.extra["dtype"]) is not d:
                d = None  # the same values in different precisions
            r.extra = {**(r.extra or {}), "dtype": d}
        return r

    def cast_(self, x, dt):
        I = self.I
        if dt is None:
            return x
        c = self.dtclass(dt)
        if isinstance(x, Arr):
            r = x.map(lambda e: self.cast(e, dt))
            r.dt = self.canon_dtype(dt)
            return r
        if not isinstance(x, Sym):
            x = I.litsym(x)
        if x.lit is not None and c in ("i", "f", "b", "c"):
            try:
                v = {"i": int, "f": float, "b": bool, "c": complex}[c](x.lit)
                return I.litsym(v, x.kind, x.ndim)
            except (TypeError, ValueError, OverflowError):
                pass
        if c is not None and x.hint == c:
            if x.ndim == 2 and x.kind == "jax":
                if self.dtype_exact(x) is not None and self.dtype_exact(x) is self.canon_dtype(dt):
                    return x
                return I.mk("astype", (x, self.canon_dtype(dt)), x.grade, x.kind, x.ndim, x.hint, w=x.w)
            return x
        if c == "f" and x.hint in ("i", "b", None):
            return I.mk("tofloat", (x,), x.grade, x.kind if x.kind in ("jax", "np") else "jax", x.ndim, "f", w=x.w)
        if c == "i":
            b = I.intbase(x)
            if b is not None:
                return b if b.kind == x.kind else I.mk("asarray", (b,), b.grade, x.kind if x.kind in ("jax", "np") else "jax", x.ndim, "i", w=b.w)
            return I.mk("toint", (x,), x.grade, x.kind if x.kind in ("jax", "np") else "jax", x.ndim, "i", w=x.w)
        if c is not None:
            return I.mk("to" + c, (x,), x.grade, x.kind if x.kind in ("jax", "np") else "jax", x.ndim, c, w=x.w)
        return I.mk("astype", (x, dt), x.grade, x.kind if x.kind in ("jax", "np") else "jax", x.ndim, None if not isinstance(dt, Sym) else x.hint, w=x.w)

    def dot(self, a, b):
        I = self.I
        a, b = self.to_arr(a), self.to_arr(b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            def ip(u, v):
                r = I.arith("mul", u[0], v[0])
                for p, q in zip(u[1:], v[1:]):
                    r = I.arith("add", r, I.arith("mul", p, q))
                return r

            if a.nd == 1 and b.nd == 1:
                if len(a.e) != len(b.e):
                    raise I.pyexc("TypeError", "dot shapes")
                return ip(a.e, b.e)
            if a.nd == 2 and b.nd == 1:
                return Arr([ip(r, b.e) for r in a.e], b.lead)
            if a.nd == 1 and b.nd == 2:
                cols = list(zip(*b.e))
                return Arr([ip(a.e, c) for c in cols], a.lead)
            cols = list(zip(*b.e))
            return Arr([tuple(ip(r, c) for c in cols) for r in a.e])
        if (isinstance(a, Arr) and not a.lead) != (isinstance(b, Arr) and not b.lead):
            a2, b2 = self.expand(a), self.expand(b)
            if isinstance(a2, Arr) and isinstance(b2, Arr) and not a2.lead and not b2.lead:
                return self.dot(a2, b2)
        if isinstance(a, Arr) or isinstance(b, Arr):
            xs = a.flat() if isinstance(a, Arr) else b.flat()
            o = b if isinstance(a, Arr) else a
            gs = [gr.gmul(I.grade(x), I.grade(o)) for x in xs]
            return I.mk("dot", (a, b), I.gjoin(gs), "jax", None, I.hints(a, b), w=None)
        return I.mk("dot", (a, b), gr.gmul(I.grade(a), I.grade(b)), I.kindof(a, b), None, I.hints(a, b), w=() if I.weight(a) == () == I.weight(b) else None)

    def expand(self, v):
        """a term of small literal shape as a structured array"""
        if not isinstance(v, Sym):
            return v
        sh = elt.shape_of(self.I, v)
        if sh and all(elt.isint(d) and 0 < d <= 8 for d in sh):
            if len(sh) == 1:
                return Arr([self.getitem(v, i) for i in range(sh[0])])
            if len(sh) == 2:
                return Arr([tuple(self.getitem(v, (i, j)) for j in range(sh[1])) for i in range(sh[0])])
        return v

    def det2(self, m):
        I = self.I
        (a, b), (c, d) = m.e
        return I.arith("sub", I.arith("mul", a, d), I.arith("mul", b, c))

    def inv2(self, m):
        I = self.I
        (a, b), (c, d) = m.e
        D = self.det2(m)
        q = lambda x: I.arith("div", x, D)
        return Arr([(q(d), I.neg(q(b))), (I.neg(q(c)), q(a))])

    # ------------------------------------------------------------ getattr
    def getattr(self, o, name):
        I = self.I
        if isinstance(o, Ext):
            if o.path.startswith("jax.numpy.") and name == "dtype":
                return o
            if o.name in SCALAR_DTYPES and o.path.split(".")[0] in ("jax", "numpy"):
                if name in ("type", "dtype"):
                    return o
                if name == "isnative":
                    return True
                if name == "name":
                    return {"bool_": "bool"}.get(o.name, o.name)
                if name == "kind":
                    return SCALAR_DTYPES[o.name][0]
                if name == "itemsize":
                    return SCALAR_DTYPES[o.name][1]
            if name in ("__doc__",):
                return None
            if name == "__name__":
                return o.name
            if o.path in ("builtins.dict", "builtins.str", "builtins.int", "builtins.float", "builtins.object") and name not in ("__new__", "__setattr__", "__init__", "fromkeys", "join", "__eq__", "__getattribute__", "__hash__"):
                raise I.pyexc("AttributeError", name)
            if o.path in ("math", "functools", "warnings", "copy", "contextlib", "itertools"):
                import importlib

                if not hasattr(importlib.import_module(o.path), name):
                    raise I.pyexc("AttributeError", "module %s has no attribute %s" % (o.path, name))
            return self.resolve(Ext(self.canon(o.path + "." + name)))
        if isinstance(o, ExtObj):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return o.cls
            if name in o.kwargs:
                return o.kwargs[name]
            v = self.ext_attr(o, name)
            o.attrs[name] = v
            return v
        if isinstance(o, FmtStr) or isinstance(o, str):
            return self.str_attr(o, name)
        if isinstance(o, At):
            if name in ("set", "add", "multiply", "mul", "min", "max", "divide", "power", "subtract", "get"):
                return PyFn(lambda I, a, k: self.at_op(o, name, a, k), "at." + name)
            raise I.pyexc("AttributeError", name)
        if isinstance(o, (list, dict, tuple, set, frozenset)):
            return self.cont_attr(o, name)
        if isinstance(o, (Sym, Arr)) or isinstance(o, (int, float, complex, bool)):
            return self.num_attr(o, name)
        if o is None:
            raise I.pyexc("AttributeError", "None has no attribute " + name)
        if isinstance(o, range) and name in ("start", "stop", "step"):
            return getattr(o, name)
        raise GiveUp("ext getattr %r %s" % (o, name))

    def ext_attr(self, o, name):
        s = self.I.mk("attr", (o, name), None, "any")
        s.deps = s.deps | frozenset(["%s.%s" % (o.cls.name, name)])
        return s

    def ext_method(self, b, name, o):
        return None

    def str_attr(self, s, name):
        I = self.I
        if name not in dir(str):
            raise I.pyexc("AttributeError", "str has no attribute " + name)

        def f(I, a, k):
            if isinstance(s, str) and all(isinstance(x, CONST) or isinstance(x, (tuple, list)) and all(isinstance(y, str) for y in x) for x in a) and all(isinstance(x, CONST) for x in k.values()):
                try:
                    return getattr(s, name)(*a, **k)
                except (ValueError, TypeError, IndexError, KeyError) as e:
                    raise I.pyexc(type(e).__name__, str(e))
            if name == "join":
                parts = []
                for i, x in enumerate(I.iterate(a[0])):
                    if i:
                        parts.append(s)
                    parts.append(x if isinstance(x, (str, FmtStr)) else ("s", x))
                return FmtStr(parts)
            if name == "format" and isinstance(s, str):
                return self.str_format(s, a, k)
            if name in ("startswith", "endswith", "isdigit"):
                return I.mk("str." + name, (s,) + tuple(a), gr.ONE, "pyb", 0, "b", traced=False)
            if name in ("strip", "lstrip", "rstrip", "lower", "upper"):
                if isinstance(s, FmtStr):
                    return s
            return I.mk("str." + name, (s,) + tuple(a), None, "str" if name not in ("split", "splitlines") else "any")

        return PyFn(f, "str." + name)

    def str_format(self, s, a, k):
        import string

        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            m = re.match(r"^([A-Za-z_0-9]*)(.*)$", field)
            head, rest = m.group(1), m.group(2)
            if head == "":
                v = a[auto]
                auto += 1
            elif head.isdigit():
                v = a[int(head)]
            else:
                v = k[head]
            for at in re.findall(r"\.(\w+)", rest):
                v = self.I.getattr(v, at)
            parts.append(self.format_value(v, conv or "s", spec or ""))
        return FmtStr(parts) if any(not isinstance(p, str) for p in parts) else "".join(parts)

    def cont_attr(self, o, name):
        I = self.I
        t = type(o)
        if name not in dir(t):
            raise I.pyexc("AttributeError", "%s has no attribute %s" % (t.__name__, name))

        def f(I, a, k):
            if t is list:
                if name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"):
                    I.jcont(o)
                if name == "append":
                    o.append(a[0])
                    return None
                if name == "extend":
                    o.extend(I.iterate(a[0]))
                    return None
                if name == "insert":
                    o.insert(a[0], a[1])
                    return None
                if name == "pop":
                    try:
                        return o.pop(*a)
                    except IndexError:
                        raise I.pyexc("IndexError", "pop")
                if name == "copy":
                    return list(o)
                if name == "clear":
                    o.clear()
                    return None
                if name == "reverse":
                    o.reverse()
                    return None
                if name == "index":
                    for i, x in enumerate(o):
                        if I.truth(I.cmp("eq", x, a[0])):
                            return i
                    raise I.pyexc("ValueError", "index")
                if name == "sort":
                    return None
            if t is tuple:
                if name == "index":
                    for i, x in enumerate(o):
                        if I.truth(I.cmp("eq", x, a[0])):
                            return i
                    raise I.pyexc("ValueError", "index")
                if name == "count":
                    return sum(1 for x in o if I.truth(I.cmp("eq", x, a[0])))
            if t in (dict, Header):
                if name == "get":
                    kk = I.hkey(a[0])
                    if kk in o:
                        return o[kk]
                    d = a[1] if len(a) > 1 else k.get("default")
                    if isinstance(kk, (Sym, FmtStr)):
                        for k2, v2 in o.items():
                            if I.truth(I.cmp("eq", k2, kk)):
                                return v2
                    return d
                if name == "keys":
                    return list(o.keys())
                if name == "values":
                    return list(o.values())
                if name == "items":
                    return [(x, y) for x, y in o.items()]
                if name == "copy":
                    return dict(o)
                if name == "pop":
                    I.jcont(o)
                    kk = I.hkey(a[0])
                    if kk in o:
                        return o.pop(kk)
                    if len(a) > 1:
                        return a[1]
                    raise I.pyexc("KeyError", repr(kk))
                if name == "update":
                    I.jcont(o)
                    if a:
                        src = a[0]
                        if isinstance(src, dict):
                            o.update(src)
                        else:
                            for p in I.iterate(src):
                                x, y = I.iterate(p)
                                o[I.hkey(x)] = y
                    o.update(k)
                    return None
                if name == "setdefault":
                    I.jcont(o)
                    return o.setdefault(I.hkey(a[0]), a[1] if len(a) > 1 else None)
                if name == "clear":
                    I.jcont(o)
                    o.clear()
                    return None
            if t in (set, frozenset):
                if name in ("add", "discard", "remove", "update"):
                    I.jcont(o)
                return getattr(o, name)(*[set(I.iterate(x)) if isinstance(x, (list, dict, set, tuple)) and name not in ("add", "discard", "remove") else I.hkey(x) for x in a])
            raise GiveUp("%s.%s" % (t.__name__, name))

        return PyFn(f, "%s.%s" % (t.__name__, name))

    def dims_shape(self, v):
        if isinstance(v, Arr):
            return tuple(v.shape)
        return None

    def num_attr(self, v, name):
        I = self.I
        if isinstance(v, Sym) and v.kind == "any" and v.grade is None and name not in ("dtype", "shape", "ndim", "size", "at"):
            if name in ("astype", "sum", "any", "all", "tolist", "item", "copy", "ravel", "flatten", "reshape", "min", "max", "mean", "T", "real", "imag"):
                pass
            else:
                s = I.mk("attr", (v, name), None, "any")
                return s
        if isinstance(v, Sym) and v.kind == "str":
            return self.str_attr(v, name)
        jaxy = isinstance(v, (Sym, Arr))
        if isinstance(v, Sym) and v.kind in ("pyf", "pyi", "pyb"):
            if name in ("real",):
                return v
            if name == "imag":
                return 0.0
            if name in ("conjugate", "is_integer", "as_integer_ratio", "__class__"):
                return PyFn(lambda I, a, k: v, name)
            raise I.pyexc("AttributeError", "float has no attribute " + name)
        if not jaxy:
            if hasattr(v, name) and name in ("real", "imag"):
                return getattr(v, name)
            if name in ("conjugate", "is_integer", "bit_length"):
                return PyFn(lambda I, a, k: getattr(v, name)(), name)
            raise I.pyexc("AttributeError", "%s has no attribute %s" % (type(v).__name__, name))
        if name == "shape":
            sh = self.dims_shape(v)
            if sh is not None and not v.lead:
                return sh
            if isinstance(v, Sym):
                if v.ndim == 0:
                    return ()
                if v.extra and "shape" in v.extra:
                    return v.extra["shape"]
                sh = elt.shape_of(I, v)
                if sh is not None:
                    return tuple(sh)
                if v.ndim is not None:
                    return tuple(I.mk("dim", (self.shape_core(v), i), gr.ONE, "pyi", 0, "i", traced=False, w=()) for i in range(v.ndim))
            return I.mk("shape", (self.shape_core(v),), None, "any", traced=False)
        if name == "ndim":
            if isinstance(v, Arr) and not v.lead:
                return v.nd
            if isinstance(v, Sym) and v.ndim is not None:
                return v.ndim
            sh = elt.shape_of(I, v) if isinstance(v, Sym) else None
            if sh is not None:
                return len(sh)
            return I.mk("ndim", (self.shape_core(v),), gr.ONE, "pyi", 0, "i", traced=False, w=())
        if name == "size":
            if isinstance(v, Arr) and not v.lead:
                return len(v.flat())
            if isinstance(v, Sym) and v.ndim == 0:
                return 1
            sh = elt.shape_of(I, v) if isinstance(v, Sym) else None
            if sh is not None and all(isinstance(d, int) for d in sh):
                return math.prod(sh)
            return I.mk("size", (self.shape_core(v),), gr.ONE, "pyi", 0, "i", traced=False, w=())
        if name == "dtype":
            return self.dtype_of(v)
        if name in ("T", "mT"):
            if isinstance(v, Arr):
                return v.T()
            if v.ndim in (0, 1):
                return v
            return I.mk("transpose", (v,), v.grade, v.kind, v.ndim, v.hint, w=v.w)
        if name in ("real", "imag"):
            return self.fn1(name, v)
        if name == "at":
            return At(v)
        if name == "__class__":
            return Ext("jax.Array")
        if name in ("flat",):
            return v
        if name in ("device", "sharding", "devices", "flags", "aval", "weak_type", "nbytes", "itemsize", "strides", "_trace", "__array_priority__", "base"):
            return I.mk("attr." + name, (v,), None, "any", traced=False)
        if name in ("_npgen", "__galsim_wrapped__", "__len__x"):
            raise I.pyexc("AttributeError", name)
        if name in ("item", "tolist", "astype", "sum", "any", "all", "min", "max", "mean", "ravel", "flatten", "reshape", "copy", "squeeze", "transpose", "conj", "conjugate", "dot", "round", "cumsum", "argsort", "argmax", "argmin", "sort", "repeat", "block_until_ready", "view", "prod", "std", "var", "clip", "fill", "setflags", "newbyteorder", "swapaxes", "take", "nonzero", "byteswap", "is_fully_replicated", "__len__", "__iter__", "__getitem__", "__array__", "get", "index"):
            return PyFn(lambda I, a, k: self.method(v, name, a, k), "array." + name)
        if name.startswith("__") and name.endswith("__") and (isinstance(v, Sym) and v.kind == "any" or name.strip("_") in ARR_DUNDERS):
            return PyFn(lambda I, a, k: self.opaque(name, [v] + a), name)
        if isinstance(v, Sym) and v.kind == "any":
            return I.mk("attr", (v, name), None, "any")
        raise I.pyexc("AttributeError", "array has no attribute " + name)

    def shape_core(self, v):
        """strip elementwise wrappers for shape queries"""
        for _ in range(60):
            if not isinstance(v, Sym) or not v.args:
                break
            if v.op in ("asarray", "tofloat", "toint", "astype", "neg", "abs", "error_if", "real", "imag", "conj", "toc", "not", "at_set", "at_add", "at_mul", "stopgrad", "round", "floor"):
                v = v.args[0]
            elif v.op == "clip" and all(not isinstance(b, Arr) and (not isinstance(b, Sym) or b.ndim == 0) for b in v.args[1:]):
                v = v.args[0]
            elif v.op in UNARY_SHAPE and len(v.args) == 1:
                v = v.args[0]
            elif v.op in ("add", "sub", "mul", "div", "pow", "floordiv", "mod", "band", "bor", "bxor", "maximum", "minimum") and len(v.args) == 2:
                x, y = [self.shape_core(a) if isinstance(a, Sym) else a for a in v.args]
                sx, sy = [(not isinstance(q, Sym) and not isinstance(q, Arr)) or (isinstance(q, Sym) and q.ndim == 0) for q in (x, y)]
                if sy and not sx or x is y:
                    v = x
                elif sx and not sy:
                    v = y
                else:
                    break
            else:
                break
        return v

    RANK = ["bool_", "uint16", "int16", "uint32", "int32", "float32", "float64", "complex64", "complex128"]

    def canon_dtype(self, d):
        if isinstance(d, Ext):
            n = {"int": "int32", "float": "float64", "complex": "complex128", "bool": "bool_", "float_": "float64", "int_": "int32", "int64": "int32"}.get(d.name, d.name)
            if n in SCALAR_DTYPES:
                return Ext("jax.numpy." + n)
        return d

    def dtype_exact(self, v, d=30):
        """dtype of an array value, or None when it is not known"""
        if isinstance(v, Arr):
            if v.dt is not None:
                return v.dt
            v = v.flat()[0]
        if not isinstance(v, Sym) or d == 0:
            return None
        if v.extra and v.extra.get("dtype") is not None:
            return self.canon_dtype(v.extra["dtype"])
        if v.op == "concatenate":
            ds = [self.dtype_exact(x, d - 1) for x in v.args[0]]
            return ds[0] if ds and all(x is ds[0] for x in ds) else None
        if v.op in ("vmapped", "elem") and isinstance(v.args[0], Sym):
            return self.dtype_exact(v.args[0], d - 1)
        if v.op == "astype":
            return self.canon_dtype(v.args[1])
        if v.op == "asarray" and v.kind in ("np", "jax") and isinstance(v.args[0], Sym) and v.args[0].kind in ("np", "jax"):
            return self.dtype_exact(v.args[0], d - 1)
        if v.op.startswith("at_") and v.args:
            return self.dtype_exact(v.args[0], d - 1)
        if v.op in ("fftshift", "ifftshift", "dus", "dynamic_slice", "around", "round", "floor", "ceil", "pad", "roll", "reshape", "ravel", "neg", "stopgrad", "error_if", "abs", "view", "transpose", "flip", "conj", "slice", "getitem", "dynslice", "rot90") and v.args:
            r = self.dtype_exact(v.args[0], d - 1)
            if v.op == "abs" and isinstance(r, Ext) and r.name.startswith("complex"):
                return None
            return r
        if v.op in ("real", "imag") and v.args:
            r = self.dtype_exact(v.args[0], d - 1)
            if isinstance(r, Ext):
                return Ext("jax.numpy." + {"complex64": "float32", "complex128": "float64"}.get(r.name, r.name))
            return None
        if v.op in ("lt", "le", "eq", "not", "land", "lor"):
            return Ext("jax.numpy.bool_")
        if v.op in ("add", "sub", "mul", "pow", "mod", "floordiv", "maximum", "minimum", "div", "band", "bor", "bxor"):
            out = None
            for a in v.args:
                if not isinstance(a, (Sym, Arr)) or isinstance(a, Sym) and (a.kind in ("pyf", "pyi", "pyb") or a.lit is not None):
                    h = self.I.hints(a)
                    if h == "f" or h == "c":
                        weak = h
                        if out is not None and out.name[0] in "iub":
                            return None
                    continue
                r = self.dtype_exact(a, d - 1)
                if not isinstance(r, Ext):
                    if isinstance(a, Sym) and a.ndim == 0:
                        continue
                    return None if out is None or r is not out else out
                if out is None or out is r:
                    out = r
                elif r.name in self.RANK and out.name in self.RANK:
                    out = r if self.RANK.index(r.name) > self.RANK.index(out.name) else out
                else:
                    return None
            if v.op == "div" and out is not None and out.name[0] in "iub":
                return None
            if out is not None and v.hint and SCALAR_DTYPES[out.name][0].replace("u", "i") != v.hint:
                return None
            return out
        return None

    def dtype_of(self, v):
        I = self.I
        r = self.dtype_exact(v)
        if r is not None:
            return r
        if isinstance(v, Arr):
            v = v.flat()[0]
        h = I.hints(v)
        if h in ("f", "i", "c", "b"):
            return Ext("jax.numpy." + {"f": "float64", "i": "int32", "c": "complex128", "b": "bool_"}[h])
        return I.mk("dtype", (v,), None, "any", traced=False)

    def method(self, v, name, a, k):
        I = self.I
        if name in ("item", "tolist"):
            if I.is_traced(v):
                raise I.tracer_error(".%s() of traced value" % name, v)
            if isinstance(v, Arr):
                return [list(map(self.item, r)) if isinstance(r, tuple) else self.item(r) for r in v.e]
            return self.item(v, name)
        if name == "astype":
            return self.cast(v, a[0] if a else k.get("dtype"))
        if name == "copy":
            return v
        if name == "dot":
            return self.dot(v, a[0])
        if name == "fill" or name == "setflags":
            I.note_write(v, name, a[0] if a else None)
            return None
        if name == "__len__":
            return self.b_len([v], {})
        if name == "__array__":
            return self.asarray(v, "np")
        if name == "view" and not a:
            return v
        if name == "view":
            return I.mk("view", (v,) + tuple(a), v.grade if isinstance(v, Sym) else None, "jax", None)
        if name in ("conj", "conjugate"):
            return self.fn1("conj", v)
        return self.npcall("jax.numpy" if not (isinstance(v, Sym) and v.kind == "np") else "numpy", name, [v] + list(a), k)

    def item(self, v, name="item"):
        I = self.I
        if isinstance(v, Sym):
            if v.traced:
                raise I.tracer_error(".%s() of traced value" % name, v)
            if v.lit is not None:
                return v.lit
            k = {"i": "pyi", "b": "pyb", "f": "pyf"}.get(v.hint, "pyf")
            if v.kind in ("pyf", "pyi", "pyb"):
                return v
            if name == "tolist" and v.ndim not in (0,):
                return I.mk("tolist", (v,), v.grade, "any" if v.ndim is None else "list", v.ndim, v.hint, w=v.w)
            return I.mk("item", (v,), v.grade, k, 0, v.hint, w=v.w)
        return v

    def np_store(self, o, i, v):
        I = self.I
        if isinstance(o, Arr) and o.nd == 2 and not o.lead:
            n, m = o.shape
            ij = i if isinstance(i, tuple) else (i, slice(None))
            if len(ij) == 2 and all(isinstance(x, int) or isinstance(x, slice) and all(y is None or isinstance(y, int) for y in (x.start, x.stop, x.step)) for x in ij):
                rs = range(n)[ij[0]] if isinstance(ij[0], slice) else [range(n)[ij[0]]]
                cs = range(m)[ij[1]] if isinstance(ij[1], slice) else [range(m)[ij[1]]]
                e = [list(r) for r in o.e]
                for a, r in enumerate(rs):
                    for b, c in enumerate(cs):
                        w = v
                        if isinstance(v, Arr):
                            if v.nd == 2:
                                w = v.e[a][b]
                            else:
                                w = v.e[b] if isinstance(ij[1], slice) else v.e[a]
                        elif isinstance(v, Sym) and v.ndim != 0:
                            w = self.getitem(v, b if isinstance(ij[1], slice) else a)
                        e[r][c] = w if isinstance(w, Sym) else I.litsym(w)
                return Arr([tuple(r) for r in e], mut=True)
        if isinstance(i, Sym) and i.hint == "b" and i.ndim != 0:
            w = self.decompress(v, i)
            if w is None:
                raise GiveUp("assignment through a boolean mask")
            r = self.n_where([i, w, o], {}, "np")
            return I.mk("asarray", (r,), r.grade, "np", r.ndim, r.hint, w=r.w)
        r = self.at_op(At(o, i), "set", [v], {})
        if isinstance(r, Arr):
            return Arr(r.e, r.lead, True)
        return I.mk("asarray", (r,), r.grade, "np", r.ndim, r.hint, w=r.w)

    def decompress(self, v, m):
        """the full-size array whose masked entries are v, if v is built
        element by element from entries selected by the same mask"""
        I = self.I
        if not isinstance(v, Sym):
            return v if isinstance(v, (int, float, complex, bool)) else None
        if v.op == "getitem" and isinstance(v.args[1], Sym) and (v.args[1] is m or I.key(v.args[1]) == I.key(m)):
            return v.args[0]
        if v.ndim == 0:
            return v
        if v.op in ("add", "sub", "mul", "div", "pow"):
            a = [self.decompress(x, m) for x in v.args]
            return None if any(x is None for x in a) else I.arith(v.op, *a)
        if v.op == "neg":
            a = self.decompress(v.args[0], m)
            return None if a is None else I.neg(a)
        return None

    def at_op(self, o, name, a, k):
        I = self.I
        v = a[0] if a else None
        x = o.x
        if name == "get":
            return self.getitem(x, o.idx)
        if name == "set" and x is v and isinstance(x, Sym) and x.op == "getitem" and x.args[1] is o.idx and isinstance(o.idx, Sym) and o.idx.op == "argsort":
            return x.args[0]  # undoing a permutation
        if isinstance(x, Arr) and isinstance(o.idx, int) and x.nd == 1 and name == "set" and not isinstance(v, Arr):
            e = list(x.e)
            e[o.idx] = v if isinstance(v, Sym) else I.litsym(v)
            return Arr(e, x.lead)
        if isinstance(x, Arr) and isinstance(o.idx, tuple) and len(o.idx) == 2 and all(isinstance(i, int) for i in o.idx) and x.nd == 2 and name == "set":
            e = [list(r) for r in x.e]
            e[o.idx[0]][o.idx[1]] = v if isinstance(v, Sym) else I.litsym(v)
            return Arr([tuple(r) for r in e])
        if name == "set" and (o.idx is Ellipsis or o.idx == slice(None)) and isinstance(x, Sym) and isinstance(v, Sym) and x.ndim is not None and x.ndim == v.ndim and x.ndim > 0 and x.kind == "jax":
            # whole-array replacement
            I.g_unify(x, v, "at_set")
            dt = self.dtype_exact(x)
            return self.cast(v, dt) if dt is not None else v
        if (o.idx is Ellipsis or o.idx == slice(None)) and name in ("add", "subtract", "multiply", "mul", "divide", "power") and isinstance(x, Sym) and x.kind == "jax":
            dt = self.dtype_exact(x)
            w = self.cast(v, dt) if dt is not None and isinstance(v, Sym) else v
            r = I.arith({"multiply": "mul", "divide": "div", "power": "pow", "subtract": "sub"}.get(name, name), x, w)
            return self.cast(r, dt) if dt is not None else r
        if name in ("multiply", "mul"):
            g = gr.gmul(I.grade(x), I.grade(v))
        elif name == "power":
            g = None
        elif name == "divide":
            g = gr.gdiv(I.grade(x), I.grade(v))
        else:
            g = I.g_unify(x, v, "at_" + name)
        I.events.append(None) if False else None
        wx, wv = I.weight(x), I.weight(v)
        hint = x.hint if isinstance(x, Sym) else I.hints(x)
        s = I.mk("at_" + name, (x, o.idx, v), g, "jax", x.ndim if isinstance(x, Sym) else x.nd if isinstance(x, Arr) else None, hint, w=wx if wx == wv else None)
        if isinstance(x, Sym) and x.extra:
            s.extra = dict(x.extra)
        return s

    # ------------------------------------------------------------ getitem
    def getitem(self, o, i):
        I = self.I
        if isinstance(o, At):
            return At(o.x, i)
        if isinstance(o, Arr):
            if isinstance(i, int):
                try:
                    r = o.e[i]
                except IndexError:
                    raise I.pyexc("IndexError", "array index")
                return Arr(r, o.lead) if isinstance(r, tuple) else r
            if isinstance(i, tuple):
                j = [x for x in i if x is not Ellipsis]
                if len(j) == 1 and len(i) == 2 and i[0] is Ellipsis:
                    if o.nd == 1:
                        return self.getitem(o, j[0])
                    if isinstance(j[0], int):
                        return Arr([r[j[0]] for r in o.e], o.lead)
                if o.nd == 2 and len(j) == 2 and all(isinstance(x, int) for x in j):
                    try:
                        return o.e[j[0]][j[1]]
                    except IndexError:
                        raise I.pyexc("IndexError", "array index")
                if o.nd == 2 and len(j) == 2 and isinstance(j[0], slice) and j[0] == slice(None) and isinstance(j[1], int):
                    return Arr([r[j[1]] for r in o.e], o.lead)
                if o.nd == 2 and len(j) == 2 and isinstance(j[1], slice) and j[1] == slice(None) and isinstance(j[0], int):
                    return Arr(o.e[j[0]], o.lead)
                if o.nd == 2 and len(j) == 2 and not o.lead and all(isinstance(x, slice) and all(q is None or I.litval(q) is not None for q in (x.start, x.stop, x.step)) for x in j):
                    s0, s1 = [slice(*[I.litval(q) if q is not None else None for q in (x.start, x.stop, x.step)]) for x in j]
                    rows = [r[s1] for r in o.e[s0]]
                    if rows and rows[0]:
                        return Arr(rows)
                if o.nd == 2 and len(j) == 2 and not o.lead and isinstance(j[0], int) and isinstance(j[1], slice):
                    return self.getitem(Arr(o.e[j[0]], False, o.mut), j[1])
                if o.nd == 2 and len(j) == 2 and not o.lead and isinstance(j[1], int) and isinstance(j[0], slice):
                    return self.getitem(Arr([r[j[1]] for r in o.e], False, o.mut), j[0])
                if o.nd == 1 and o.lead and isinstance(j[-1], int):
                    return self.getitem(o, j[-1])
                if o.nd == 1 and not o.lead and len(j) == 2 and j[0] == slice(None) and j[1] is None:
                    return Arr([(e,) for e in o.e])
                if o.nd == 1 and not o.lead and len(j) == 2 and j[1] == slice(None) and j[0] is None:
                    return Arr([tuple(o.e)])
                if all(x is None or x == slice(None) for x in j):
                    return o
            if isinstance(i, slice):
                sl = slice(*[I.litval(x) if x is not None else None for x in (i.start, i.stop, i.step)])
                return Arr(o.e[sl], o.lead)
            if i is None or i is Ellipsis:
                return o
            return I.mk("getitem", (o, i), I.grade(o), "jax", None, I.hints(o), w=I.weight(o))
        if isinstance(o, Sym):
            if o.op == "lit":
                return o
            if o.kind == "any" and o.op in ("shape",):
                return I.mk("dim", (o.args[0], i), gr.ONE, "pyi", 0, "i", traced=False, w=()) if not isinstance(i, slice) else I.mk("getitem", (o, i), None, "any", traced=False)
            if o.kind == "key" or o.op == "split":
                return I.mk("subkey", (o, i), None, "key", 0)
            if o.op == "array" and len(o.args) and (isinstance(i, int) or isinstance(i, tuple) and i and isinstance(i[0], int)):
                j = i if isinstance(i, int) else i[0]
                if not -len(o.args) <= j < len(o.args):
                    raise I.pyexc("IndexError", "array index")
                r = o.args[j]
                if isinstance(i, tuple) and len(i) > 1:
                    return self.getitem(r, i[1] if len(i) == 2 else i[1:])
                if isinstance(r, (Sym, Arr)):
                    return r
            if o.op == "stack_rows" and isinstance(i, int) and i < len(o.args):
                return o.args[i]
            if o.kind in ("jax", "np"):
                if o.ndim == 0 and not (i is None or i is Ellipsis or isinstance(i, tuple)):
                    raise I.pyexc("IndexError", "too many indices")
                nd = o.ndim
                idx = i if isinstance(i, tuple) else (i,)
                if nd is not None:
                    for x in idx:
                        if x is None:
                            nd += 1
                        elif isinstance(x, int) or (isinstance(x, Sym) and x.ndim == 0 and x.hint == "i"):
                            nd -= 1
                        elif isinstance(x, slice) or x is Ellipsis:
                            pass
                        else:
                            nd = None
                            break
                if all(x is None or x is Ellipsis or (isinstance(x, slice) and x == slice(None)) for x in idx):
                    return I.mk("reshape", (o, "idx", tuple(idx)), o.grade, o.kind, nd, o.hint, w=o.w)
                return I.mk("getitem", (o, i), o.grade, o.kind, nd, o.hint, w=o.w)
            if o.kind in ("pyf", "pyi", "pyb"):
                raise I.pyexc("TypeError", "not subscriptable")
            return I.mk("getitem", (o, i), o.grade, "any" if o.kind != "list" else "any", None, o.hint, w=o.w)
        if isinstance(o, ExtObj):
            kk = ("item", I.key(i))
            if kk in o.attrs:
                return o.attrs[kk]
            s = I.mk("item", (o, i), None, "any")
            return s
        if isinstance(o, Ext):
            return o
        if isinstance(o, FmtStr):
            return self.opaque("str.getitem", [o, i], "str")
        if isinstance(o, Cls):
            return o
        raise I.pyexc("TypeError", "not subscriptable: %r" % (o,))

    # --------------------------------------------------------------- call
    def record(self, n, args, kwargs):
        """instance of a GalSim class whose constructor arguments are its attributes"""
        names, dflt = RECORDS[n]
        if len(args) > len(names) or any(k not in names or k in names[: len(args)] for k in kwargs):
            return ExtObj(Ext("galsim." + n), args, kwargs)
        d = dict(zip(names, args))
        d.update(kwargs)
        given = bool(d)
        for k in names:
            if k not in d and k in dflt:
                v = dflt[k]
                d[k] = self.record(v[0], list(v[1:]), {}) if isinstance(v, tuple) else v
            elif k in ("origin", "world_origin") and d.get(k, 0) is None:
                d[k] = self.record("PositionD", [0.0, 0.0], {})
        if n.startswith("Bounds"):
            d["isDefined"] = PyFn(lambda I, a, k: given, "isDefined")
        elif n == "Angle":
            v = d.pop("theta")
            d.update(_rad=v, rad=v)
        elif n == "GSParams":
            d["_minimum_fft_size"] = d["minimum_fft_size"]
        elif n == "GSFitsWCS" and isinstance(d.get("_data"), (list, tuple)) and len(d["_data"]) == 7:
            d.update(zip(("wcs_type", "crpix", "cd", "center", "pv", "ab", "abp"), d["_data"]))
        return ExtObj(Ext("galsim." + n), args, kwargs, d)

    def call(self, f, args, kwargs):
        I = self.I
        p = f.path
        h = self.handlers.get(p)
        if h is not None:
            return h(list(args), kwargs)
        head, _, last = p.rpartition(".")
        if head == "builtins" and (last in _EXC or last.endswith(("Error", "Warning", "Exception"))):
            return ExtObj(f, args, kwargs)
        if head in NPMODS or head.startswith(("jax.numpy.", "numpy.")):
            return self.npcall(head, last, list(args), kwargs)
        if head in ("jax.random", "jax.extend.random"):
            return self.random(last, list(args), kwargs)
        if p.startswith("galsim.") and last.lstrip("_") in RECORDS:
            return self.record(last.lstrip("_"), args, kwargs)
        if last[:1].isupper() and (last.endswith(("Error", "Warning", "Exception")) or p.startswith(("galsim.", "coord."))):
            return ExtObj(f, args, kwargs)
        if p.startswith("galsim.") and last == "from_name":
            return self.opaque(p, args)
        if head == "copy":
            return self.copy_copy(args, kwargs)
        self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
        I.extcalls.append((p, args, kwargs, I.loc()))
        if last[:1].isupper():
            return ExtObj(f, args, kwargs)
        return self.opaque(p, list(args) + [v for v in kwargs.values()])

    # ------------------------------------------------------------- numeric
    def npguard(self, mod, name, args, kwargs):
        I = self.I
        if mod.split(".")[0] in ("numpy", "math", "scipy"):
            for a in list(args) + list(kwargs.values()):
                if I.is_traced(a):
                    if name in ("shape", "ndim", "size", "isscalar", "issubdtype", "result_type", "dtype"):
                        continue
                    if name == "any" or name == "all" or True:
                        if mod == "numpy" and name in NP_DISPATCH and isinstance(a, (Sym, Arr)):
                            # numpy functions dispatching to a same-named method of the array
                            continue
                        raise I.tracer_error("%s.%s on traced value" % (mod, name), a)

    def unstaged(self, f):
        """numpy code inside a jax trace computes concrete values"""
        I = self.I
        I.staging = False
        try:
            r = f()
        finally:
            I.staging = True
        return self.unjax(r)

    def unjax(self, r):
        if isinstance(r, Sym) and r.kind == "jax" and not r.traced:
            return self.I.mk("asarray", (r,), r.grade, "np", r.ndim, r.hint, w=r.w)
        if isinstance(r, Arr):
            return r.map(self.unjax)
        if isinstance(r, (list, tuple)) and not hasattr(r, "_fields"):
            return type(r)(self.unjax(x) for x in r)
        return r

    def npcall(self, mod, name, a, k):
        I = self.I
        self.npguard(mod, name, a, k)
        if name in SHAPEARG:
            i, kw = SHAPEARG[name]
            sh = k.get(kw, a[i] if len(a) > i else None)
            for x in sh if isinstance(sh, (tuple, list)) else [sh]:
                if isinstance(x, Sym) and x.traced:
                    raise I.tracer_error("shape of %s from traced value" % name, x)
        if I.staging and mod.split(".")[0] in ("numpy", "math", "scipy"):
            return self.unstaged(lambda: self.npcall(mod, name, a, k))
        kind = "np" if mod.split(".")[0] in ("numpy", "scipy") else "pyf" if mod == "math" else "jax"
        h = getattr(self, "n_" + name, None)
        if h is not None:
            return h(a, k, kind)
        if name in KEEP1:
            return self.fn1(name, a[0] if a else next(iter(k.values())), a[1:], k, kind)
        if name in BOOLF:
            return self.boolf(name, a, k, kind)
        if name in ODDF or name in EVENF or name in DIMLESS:
            return self.trans(name, a, k, kind)
        if name in ("float64", "float32", "int32", "int64", "int16", "uint16", "uint32", "complex64", "complex128", "int_", "float_", "bool_", "int8", "uint8", "uint64"):
            if not a:
                return I.litsym(0)
            return self.cast(self.asarray(a[0], kind), Ext("numpy." + name))
        if mod == "jax.lax" and name in ("mul", "add", "sub", "div"):
            return I.arith(name, a[0], a[1])
        p = mod + "." + name
        self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
        nd = None
        return I.mk("np." + name, tuple(a) + tuple((x, y) for x, y in k.items()), None, kind if kind != "pyf" else "pyf", nd)

    def fn1(self, name, v, rest=(), k=None, kind=None):
        I = self.I
        k = k or {}
        if isinstance(v, (list, tuple)):
            v = self.asarray(v, "jax" if kind != "np" else "np")
        if isinstance(v, (int, float)) and not isinstance(v, bool) and name in ("floor", "ceil", "round", "trunc", "rint", "around"):
            try:
                r = {"floor": math.floor, "ceil": math.ceil, "round": round, "trunc": math.trunc, "rint": round, "around": round}[name](v)
            except (ValueError, OverflowError):
                r = v
            return float(r) if kind != "pyf" else r
        if isinstance(v, (int, float, complex)):
            v = I.litsym(v, kind if kind in ("jax", "np") else "jax")
        if isinstance(v, Arr):
            if name in ("real", "imag", "conj", "floor", "ceil", "round", "rint", "trunc", "around", "stop_gradient", "positive", "copy", "block_until_ready", "nan_to_num", "ascontiguousarray"):
                return v.map(lambda e: self.fn1(name, e, rest, k, kind))
            if name in ("sum", "max", "min", "mean", "median", "amax", "amin", "std"):
                ax = k.get("axis", rest[0] if rest else None)
                if v.nd == 1 and not v.lead and ax in (None, 0, -1) or (v.lead and ax == -1 and v.nd == 1):
                    r = v.e[0]
                    for e in v.e[1:]:
                        if name == "sum":
                            r = I.arith("add", r, e)
                        else:
                            r = I.mk(name, (r, e), I.g_unify(r, e, "minmax"), "jax", I.ndims(r, e), I.hints(r, e), w=I.weight(r) if I.weight(r) == I.weight(e) else None)
                    return r
                g = I.grade(v)
                return I.mk(name, (v,), g, "jax", None, I.hints(v), w=I.weight(v) if name != "sum" else None)
            if name in ("transpose",) and v.nd == 2 and not rest:
                return v.T()
            if name in ("ravel", "flatten", "reshape"):
                fl = v.flat()
                shp = rest[0] if len(rest) == 1 else tuple(rest) if rest else k.get("shape", k.get("newshape"))
                if name != "reshape" or shp == -1 or shp == (-1,):
                    return Arr(fl, v.lead)
                if isinstance(shp, (tuple, list)) and len(shp) == 2 and all(isinstance(s, int) for s in shp) and not v.lead:
                    r_, c_ = shp
                    if r_ == -1:
                        r_ = len(fl) // c_
                    if c_ == -1:
                        c_ = len(fl) // r_
                    if r_ * c_ == len(fl):
                        return Arr([tuple(fl[i * c_ : (i + 1) * c_]) for i in range(r_)], mut=v.mut)
                return I.mk("reshape", (v, shp), I.grade(v), "jax", None, I.hints(v), w=I.weight(v))
            if name in ("atleast_1d", "squeeze", "broadcast_to", "device_put"):
                return v
            if name == "cumsum" and v.nd == 1:
                out = [v.e[0]]
                for e in v.e[1:]:
                    out.append(I.arith("add", out[-1], e))
                return Arr(out)
            if name in ("flip", "sort") and v.nd == 1 and name == "flip":
                return Arr(v.e[::-1])
            if name in ("tril", "triu") and v.nd == 2 and not rest and not k:
                z = I.litsym(0.0)
                return Arr([tuple(e if (j <= i if name == "tril" else j >= i) else z for j, e in enumerate(r)) for i, r in enumerate(v.e)])
            return I.mk(name, (v,) + tuple(rest), I.grade(v), "jax", None, I.hints(v), w=I.weight(v))
        if not isinstance(v, Sym):
            return self.opaque("np." + name, [v] + list(rest), "jax")
        nk = v.kind if v.kind in ("jax", "np") else ("jax" if kind in (None, "jax") else kind)
        if name in ("copy", "block_until_ready", "device_put", "ascontiguousarray", "positive", "require", "optimization_barrier"):
            return v if v.kind == nk else I.mk("asarray", (v,), v.grade, nk, v.ndim, v.hint, w=v.w)
        if name == "stop_gradient":
            I.event("stop_gradient", "stop_gradient", value=v)
            return I.mk("stopgrad", (v,), v.grade, nk, v.ndim, v.hint, w=v.w)
        if name in ("conj", "conjugate"):
            if v.hint in ("f", "i", "b"):
                return v
            return I.mk("conj", (v,), v.grade, nk, v.ndim, v.hint, w=v.w)
        if name == "real":
            if v.hint in ("f", "i", "b"):
                return v
            return I.mk("real", (v,), v.grade, nk, v.ndim, "f", w=v.w)
        if name == "imag":
            if v.hint in ("f", "i", "b"):
                return I.litsym(0.0, nk) if v.ndim == 0 else self.like("zeros_like", [v], 0.0, kind)
            return I.mk("imag", (v,), v.grade, nk, v.ndim, "f", w=v.w)
        w = v.w
        if name in ("sum", "cumsum", "nansum", "diff", "std", "trace"):
            w = () if v.w == () or name in ("diff", "std") else None
        if name in ("max", "min", "mean", "median", "sum", "amax", "amin") and v.ndim == 0 and not rest:
            return v
        nd = v.ndim
        if name in ("max", "min", "mean", "median", "sum", "amax", "amin", "nansum", "std"):
            nd = 0 if not rest and "axis" not in k else None
        elif name in ("ravel", "flatten"):
            nd = 1
        elif name in ("reshape", "squeeze", "broadcast_to", "expand_dims", "moveaxis", "atleast_1d", "atleast_2d", "tile", "repeat", "take"):
            nd = None
            if name == "atleast_1d" and v.ndim is not None:
                nd = max(1, v.ndim)
            if name == "reshape":
                sh = rest[0] if len(rest) == 1 else tuple(rest)
                if isinstance(sh, (tuple, list)):
                    nd = len(sh)
                    vs = elt.shape_of(I, v) if nd == 0 else None
                    if vs and all(elt.isint(d) and d == 1 for d in vs):
                        return self.getitem(v, tuple([0] * len(vs)))
                elif isinstance(sh, int):
                    nd = 1
                if nd == 2 and tuple(sh) in ((2, 2),) and v.op in ("ravel",) and False:
                    pass
        elif name in ("floor", "ceil", "round", "rint", "trunc", "around", "fix"):
            if I.intbase(v) is not None:
                return v
            # rounding: translation by integers keeps it, so keep the weight
            pass
        if v.lit is not None and name in ("floor", "ceil", "round", "rint", "trunc", "around", "ravel", "sum", "max", "min"):
            if name in ("floor", "ceil", "trunc") and isinstance(v.lit, (int, float)) and math.isfinite(v.lit):
                return I.litsym(float({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[name](v.lit)), nk)
        return I.mk({"amax": "max", "amin": "min"}.get(name, name), (v,) + tuple(rest) + tuple((x, y) for x, y in k.items()), v.grade, nk, nd, v.hint, w=w)

    def boolf(self, name, a, k, kind):
        I = self.I
        v = a[0]
        if name == "isscalar":
            if isinstance(v, (int, float, complex, str)):
                return True
            if isinstance(v, Sym):
                return v.kind in ("pyf", "pyi", "pyb")
            return False
        if name == "logical_not":
            return I.not_(v)
        if name in ("iscomplexobj", "iscomplex"):
            if isinstance(v, complex):
                return True
            if isinstance(v, (int, float)):
                return False
            if isinstance(v, Sym) and v.hint in ("f", "i", "b", "c"):
                r = v.hint == "c"
                return r if name == "iscomplexobj" else (I.litsym(False) if not r else I.mk(name, (v,), gr.ONE, "jax", v.ndim, "b", w=()))
            if isinstance(v, Arr):
                return self.boolf(name, [v.flat()[0]], k, kind)
            return I.mk(name, tuple(a), gr.ONE, "pyb", 0, "b", traced=False, w=())
        if name in ("isnan", "isfinite", "isinf"):
            lv = I.litval(v)
            if lv is not None and not isinstance(lv, complex):
                r = {"isnan": math.isnan, "isfinite": math.isfinite, "isinf": math.isinf}[name](lv)
                return r if not isinstance(v, Sym) else I.litsym(r, v.kind)
            if not isinstance(v, (Sym, Arr)):
                raise I.pyexc("TypeError", name + " of non-number")
            if isinstance(v, Sym) and v.kind in ("any", "str") and v.grade is None and v.hint is None and v.op.startswith(("attr", "ext:")) is False and v.kind == "str":
                raise I.pyexc("TypeError", name)
        if name in ("any", "all"):
            if isinstance(v, (list, tuple)):
                v = self.asarray(v, kind)
            if isinstance(v, Arr):
                r = None
                for e in v.flat():
                    r = e if r is None else I.logical("lor" if name == "any" else "land", r, e)
                if isinstance(r, bool):
                    r = I.litsym(r, "np" if kind == "np" else "jax")
                return r
            if isinstance(v, bool):
                return I.litsym(v, "np" if kind == "np" else "jax")
            if isinstance(v, Sym) and v.ndim == 0:
                return v
            if isinstance(v, Sym) and v.lit is not None:
                return I.litsym(bool(v.lit), v.kind)
        if name == "array_equal":
            if isinstance(a[0], (Sym, Arr)) and isinstance(a[1], (Sym, Arr)) and I.key(a[0]) == I.key(a[1]):
                f = a[0].args[1] if isinstance(a[0], Sym) and a[0].op == "full" and len(a[0].args) > 1 else None
                lv = I.litval(f) if f is not None else None
                return I.litsym(k.get("equal_nan") is True or lv is None or lv == lv)
            if all(isinstance(x, Sym) and x.ndim == 0 or isinstance(x, (int, float)) for x in a[:2]):
                return I.compare("eq", a[0], a[1])
            sa, sb = [elt.shape_of(I, x) if isinstance(x, (Sym, Arr)) else None for x in a[:2]]
            if sa and sb and all(elt.isint(d) for d in sa + sb):
                if tuple(map(int, sa)) != tuple(map(int, sb)):
                    return I.litsym(False)
                r = I.compare("eq", a[0], a[1])
                if k.get("equal_nan") is True:
                    r = I.logical("lor", r, I.logical("land", self.boolf("isnan", [a[0]], {}, kind), self.boolf("isnan", [a[1]], {}, kind)))
                return self.npcall("jax.numpy", "all", [r], {})
        kk = "jax" if kind == "jax" else "np" if kind == "np" else "pyb"
        scalar = name in ("array_equal", "allclose") or (name in ("any", "all") and "axis" not in k and len(a) < 2)
        return I.mk(name, tuple(a) + tuple((x, y) for x, y in k.items()), gr.ONE, kk, 0 if scalar else I.ndims(*[x for x in a if isinstance(x, (Sym, Arr, int, float))]), "b", w=())

    def trans(self, name, a, k, kind):
        I = self.I
        v = a[-1] if name in ("kv", "kve", "jv") and len(a) > 1 else a[0]
        if isinstance(v, (list, tuple)):
            v = self.asarray(v)
            a = [v]
        if isinstance(v, Arr) and len(a) == 1:
            return v.map(lambda e: self.trans(name, [e], k, kind))
        lv = I.litval(v)
        if lv is not None and len(a) == 1:
            r = fold(name, lv)
            if r is not None:
                return r if not isinstance(v, Sym) and kind == "pyf" else I.litsym(r, kind if kind != "pyf" else "jax") if kind != "pyf" else r
        if not isinstance(v, (Sym, int, float, complex)):
            return self.opaque("np." + name, a, "jax")
        g = I.grade(v)
        res = gr.ONE
        if name in ("exp",) and isinstance(v, Sym) and v.op == "log":
            x = v.args[0]
            return I.mk("abs", (x,), gr.even(I.grade(x)), "jax", I.ndims(x), "f", w=None)
        if g is None:
            # exp of a sum of logs etc. stays unknown
            res = None if name in ("exp",) else gr.ONE
            if name in ODDF or name in EVENF:
                res = None
        elif g == POLY:
            res = POLY if name in ODDF else gr.ONE
        else:
            ang = I.config.get("angle_base")
            L = tuple((b, e) for b, e in g if not b.startswith("~"))
            if ang:
                if name in ("sin", "cos", "tan"):
                    if L not in ((), ((ang, Fraction(1)),)):
                        I.event("grade", "%s of grade %s" % (name, gr.show(g)), a=v, what="trig", ga=g)
                        return I.mk(name, tuple(a), None, kind if kind != "pyf" else "jax", I.ndims(v), "f")
                    if L == () and I.config.get("angle_strict") and not I.is_lit_nonzero(v):
                        I.event("grade", "%s of a value without angle unit" % name, a=v, what="trig", ga=g)
                    L = ()
            if L:
                I.event("grade", "%s of grade %s" % (name, gr.show(g)), a=v, what="transcendental", ga=g)
                res = None
            else:
                par = tuple((b, e) for b, e in g if b.startswith("~"))
                if name in ODDF:
                    res = par
                elif name in EVENF or name in ("sinc", "j0", "i0"):
                    res = gr.ONE
                else:
                    res = gr.ONE if not par else None
                if ang and name in ("arcsin", "arctan", "arccos", "asin", "acos", "atan") and res is not None:
                    res = gr.gmul(res, gr.G(**{ang: 1}))
        kk = "jax" if I.kindof(v) in ("jax", "any") or kind == "jax" else "np" if kind == "np" else "pyf"
        return I.mk(name, tuple(a), res, kk, I.ndims(v), "c" if I.hints(v) == "c" else "f", w=() if I.weight(v) == () else None)

    # individual numeric functions -----------------------------------------
    def n_array(self, a, k, kind):
        x = a[0] if a else k.get("object")
        dt = a[1] if len(a) > 1 else k.get("dtype")
        return self.asarray(x, "jax" if kind == "jax" else "np", dt)

    n_asarray = n_array
    n_ascontiguousarray = n_array

    def n_astype(self, a, k, kind):
        x = a[0]
        if isinstance(x, (Sym, Arr)) and (not isinstance(x, Sym) or x.kind in ("jax", "np", "any")):
            return self.cast(x, a[1] if len(a) > 1 else k.get("dtype"))
        if kind == "jax" and (isinstance(x, (bool, int, float, complex)) or isinstance(x, Sym) and x.kind.startswith("py")):
            return self.cast(self.npcall("jax.numpy", "asarray", [x], {}), a[1] if len(a) > 1 else k.get("dtype"))
        if isinstance(x, (int, float, str)) or x is None or isinstance(x, (Obj, ExtObj, list, tuple)) or (isinstance(x, Sym)):
            raise self.I.pyexc("TypeError", "astype requires an array")
        return self.cast(x, a[1])

    def n_abs(self, a, k, kind):
        I = self.I
        v = a[0]
        if isinstance(v, (list, tuple)):
            v = self.asarray(v)
        if isinstance(v, Arr):
            return v.map(lambda e: self.n_abs([e], k, kind))
        lv = I.litval(v)
        if lv is not None:
            return abs(lv) if not isinstance(v, Sym) else I.litsym(abs(lv), v.kind)
        if not isinstance(v, Sym):
            return self.opaque("abs", a)
        if v.op == "neg":
            v = v.args[0]
        return I.mk("abs", (v,), gr.even(v.grade), "jax" if kind == "jax" else v.kind if v.kind in ("jax", "np") else kind, v.ndim, "f" if v.hint == "c" else v.hint, w=() if v.w == () else None)

    n_absolute = n_fabs = n_abs

    def n_sqrt(self, a, k, kind):
        I = self.I
        v = a[0]
        if isinstance(v, Arr):
            return v.map(lambda e: self.n_sqrt([e], k, kind))
        lv = I.litval(v)
        if lv is not None and not isinstance(lv, complex):
            r = math.sqrt(lv) if lv >= 0 else math.nan
            return r if not isinstance(v, Sym) and kind == "pyf" else I.litsym(r, "jax" if kind == "jax" else kind)
        if not isinstance(v, Sym):
            return self.opaque("sqrt", a, "jax")
        return I.mk("sqrt", (v,), gr.gpow(I.grade(v), Fraction(1, 2)) if I.grade(v) is not None else None, "jax" if kind == "jax" else v.kind, I.ndims(v), "f" if I.hints(v) != "c" else "c", w=() if I.weight(v) == () else None)

    def n_square(self, a, k, kind):
        return self.I.arith("mul", a[0], a[0])

    def n_cbrt(self, a, k, kind):
        return self.I.arith("pow", a[0], 1.0 / 3)

    def n_power(self, a, k, kind):
        return self.I.arith("pow", a[0], a[1])

    n_pow = n_float_power = n_power

    def n_multiply(self, a, k, kind):
        return self.I.arith("mul", a[0], a[1])

    def n_add(self, a, k, kind):
        return self.I.arith("add", a[0], a[1])

    def n_subtract(self, a, k, kind):
        return self.I.arith("sub", a[0], a[1])

    def n_divide(self, a, k, kind):
        return self.I.arith("div", a[0], a[1])

    n_true_divide = n_divide

    def n_floor_divide(self, a, k, kind):
        return self.I.arith("floordiv", a[0], a[1])

    def n_mod(self, a, k, kind):
        return self.I.arith("mod", a[0], a[1])

    n_remainder = n_fmod = n_mod

    def n_negative(self, a, k, kind):
        return self.I.neg(a[0])

    def n_reciprocal(self, a, k, kind):
        return self.I.arith("div", 1.0, a[0])

    def n_log(self, a, k, kind):
        I = self.I
        v = a[0]
        lv = I.litval(v)
        if lv is not None and not isinstance(lv, complex) and len(a) == 1:
            r = math.log(lv) if lv > 0 else -math.inf if lv == 0 else math.nan
            return r if not isinstance(v, Sym) and kind == "pyf" else I.litsym(r)
        if isinstance(v, Arr):
            return v.map(lambda e: self.n_log([e], k, kind))
        g = I.grade(v)
        return I.mk("log", tuple(a), gr.ONE if g in (gr.ONE, POLY) else None, "jax" if kind == "jax" else I.kindof(v), I.ndims(v), "f", w=() if I.weight(v) == () else None)

    def n_log10(self, a, k, kind):
        g = self.I.grade(a[0])
        return self.I.mk("log10", tuple(a), gr.ONE if g in (gr.ONE, POLY) else None, kind, self.I.ndims(a[0]), "f", w=None)

    n_log2 = n_log10

    def n_sign(self, a, k, kind):
        I = self.I
        v = a[0]
        if isinstance(v, Arr):
            return v.map(lambda e: self.n_sign([e], k, kind))
        g = I.grade(v)
        if g not in (None, POLY):
            g = tuple((b, e) for b, e in g if b.startswith("~"))
        elif g == POLY:
            g = POLY
        return I.mk("sign", (v,), g, kind, I.ndims(v), I.hints(v), w=() if I.weight(v) == () else None)

    def n_copysign(self, a, k, kind):
        return self.I.mk("copysign", tuple(a), None, kind, None, "f")

    def n_arctan2(self, a, k, kind):
        I = self.I
        y, x = a[0], a[1]
        gy, gx = I.grade(y), I.grade(x)
        ly = lambda g: g if g in (None, POLY) else tuple((b, e) for b, e in g if not b.startswith("~"))
        py = lambda g: None if g is None else () if g == POLY else tuple((b, e) for b, e in g if b.startswith("~"))
        if gy not in (None, POLY) and gx not in (None, POLY) and ly(gy) != ly(gx):
            I.event("grade", "arctan2 of %s and %s" % (gr.show(gy), gr.show(gx)), a=y, b=x, what="arctan2", ga=gy, gb=gx)
        g = None
        if gy is not None and gx is not None:
            if py(gx) == ():
                g = py(gy)
        ang = I.config.get("angle_base")
        if ang:
            g = gr.gmul(gr.ONE if g is None else g, gr.G(**{ang: 1}))
        return I.mk("arctan2", (y, x), g, kind, I.ndims(y, x), "f", w=() if I.weight(y) == () == I.weight(x) else None)

    n_atan2 = n_arctan2

    def n_angle(self, a, k, kind):
        I = self.I
        ang = I.config.get("angle_base")
        return I.mk("angle", (a[0],), gr.G(**{ang: 1}) if ang else None, kind, I.ndims(a[0]), "f")

    def n_hypot(self, a, k, kind):
        I = self.I
        x = I.arith("mul", a[0], a[0])
        y = I.arith("mul", a[1], a[1])
        return self.n_sqrt([I.arith("add", x, y)], {}, kind)

    def rows_like(self, v, shp):
        """the array term v as explicit elements when it has the shape of `shp`"""
        I = self.I
        if isinstance(v, Sym) and v.ndim != 0 and isinstance(shp, Arr) and not shp.lead:
            sh = elt.shape_of(I, v)
            if sh and tuple(I.litval(d) if isinstance(d, Sym) else d for d in sh) == tuple(shp.shape):
                if shp.nd == 1:
                    return Arr([self.getitem(v, i) for i in range(shp.shape[0])])
                return Arr([tuple(self.getitem(v, (i, j)) for j in range(shp.shape[1])) for i in range(shp.shape[0])])
        return v

    def minmax(self, name, a, k, kind):
        I = self.I
        x, y = a[0], a[1]
        if isinstance(x, (list, tuple)):
            x = self.asarray(x)
        if isinstance(y, (list, tuple)):
            y = self.asarray(y)
        lx, ly = I.litval(x), I.litval(y)
        if lx is not None and ly is not None and not isinstance(lx, complex):
            return I.litsym((max if name == "maximum" else min)(lx, ly))
        if isinstance(x, Arr) or isinstance(y, Arr):
            x, y = self.rows_like(x, y), self.rows_like(y, x)
            if isinstance(x, Arr) and isinstance(y, Arr) and x.shape == y.shape and x.nd == 2:
                return Arr([tuple(self.minmax(name, [p, q], k, kind) for p, q in zip(u, v)) for u, v in zip(x.e, y.e)], x.lead)
            if isinstance(x, Arr) and isinstance(y, Arr) and x.shape == y.shape and x.nd == 1:
                return Arr([self.minmax(name, [p, q], k, kind) for p, q in zip(x.e, y.e)], x.lead)
            if isinstance(x, Arr):
                return x.map(lambda e: self.minmax(name, [e, y], k, kind))
            return y.map(lambda e: self.minmax(name, [x, e], k, kind))
        if I.key(x) == I.key(y):
            return x
        g = I.g_unify(x, y, "minmax")
        if g is not None:
            ge = gr.even(g)
            if ge != g:
                g = None
        wx, wy = I.weight(x), I.weight(y)
        if I.config.get("torsor") and wx is not None and wy is not None and wx != wy and not I.is_lit_nonzero(x) and not I.is_lit_nonzero(y) and lx is None and ly is None:
            I.event("torsor", "%s of values with different origin dependence" % name, a=x, b=y, wa=wx, wb=wy)
        x, y = (x, y) if I.key(x) <= I.key(y) else (y, x)
        return I.mk(name, (x, y), g, I.kindof(x, y) if kind != "jax" else "jax", I.ndims(x, y), I.hints(x, y), w=wx if wx == wy else None)

    def n_maximum(self, a, k, kind):
        return self.minmax("maximum", a, k, kind)

    def n_minimum(self, a, k, kind):
        return self.minmax("minimum", a, k, kind)

    n_fmax = n_maximum
    n_fmin = n_minimum

    def n_clip(self, a, k, kind):
        I = self.I
        x = a[0]
        lo = a[1] if len(a) > 1 else k.get("min", k.get("a_min"))
        hi = a[2] if len(a) > 2 else k.get("max", k.get("a_max"))
        if isinstance(x, Arr) and not (lo is not None and hi is not None):
            return self.minmax("maximum" if hi is None else "minimum", [x, lo if hi is None else hi], {}, kind)
        if isinstance(x, Arr):
            lo, hi = self.rows_like(lo, x), self.rows_like(hi, x)
            if any(isinstance(b, Arr) for b in (lo, hi)):
                return self.minmax("minimum", [self.minmax("maximum", [x, lo], {}, kind), hi], {}, kind)
            return x.map(lambda e: self.n_clip([e, lo, hi], {}, kind))
        if isinstance(x, Sym) and x.kind == "jax" and (lo is None) != (hi is None):
            return self.minmax("maximum" if hi is None else "minimum", [x, lo if hi is None else hi], {}, kind)
        for b in (lo, hi):
            if b is not None:
                I.g_unify(x, b, "minmax")
        return I.mk("clip", (x, lo, hi), I.grade(x), "jax", None if any(I.ndims(b) is None for b in (x,)) else I.ndims(x), I.hints(x), w=I.weight(x))

    def where(self, a, k):
        I = self.I
        if len(a) == 1:
            return (self.opaque("where", a, "jax"),)
        c, x, y = a[0], a[1], a[2]
        if isinstance(x, (list, tuple)):
            x = self.asarray(x)
        if isinstance(y, (list, tuple)):
            y = self.asarray(y)
        lc = I.litval(c)
        if isinstance(lc, (bool, int)) and lc is not None:
            r = x if lc else y
            return r if isinstance(r, (Sym, Arr)) else I.litsym(r)
        if isinstance(c, Arr) or isinstance(x, Arr) or isinstance(y, Arr):
            shp = next(v for v in (c, x, y) if isinstance(v, Arr))
            if all(not isinstance(v, Arr) or v.shape == shp.shape for v in (c, x, y)):
                if not shp.lead:
                    # array operands of the same shape are taken element by element
                    c, x, y = [self.rows_like(v, shp) for v in (c, x, y)]
                if shp.nd == 1:
                    g = lambda v, i: v.e[i] if isinstance(v, Arr) else v
                    return Arr([self.where([g(c, i), g(x, i), g(y, i)], {}) for i in range(len(shp.e))], shp.lead)
                g2 = lambda v, i, j: v.e[i][j] if isinstance(v, Arr) else v
                return Arr([tuple(self.where([g2(c, i, j), g2(x, i, j), g2(y, i, j)], {}) for j in range(shp.shape[1])) for i in range(shp.shape[0])], shp.lead)
            raise GiveUp("where shapes")
        if I.key(x) == I.key(y):
            return x if isinstance(x, (Sym,)) else I.litsym(x) if isinstance(x, (int, float, complex, bool)) else x
        if isinstance(x, (Obj, ExtObj)) or isinstance(y, (Obj, ExtObj)):
            raise I.pyexc("TypeError", "where on object")
        g = I.g_unify(x, y, "where")
        wx, wy = I.weight(x), I.weight(y)
        w = wx if wx == wy else None
        if w is None and (I.litval(x) is not None or I.litval(y) is not None):
            w = wy if I.litval(x) is not None else wx
        elif w is None and wx is not None and wy is not None and I.config.get("torsor"):
            I.event("torsor", "where() joins values with different origin dependence", a=x, b=y, wa=wx, wb=wy)
        if isinstance(c, Sym) and c.op == "not":
            c, x, y = c.args[0], y, x
        return I.mk("where", (c, x, y), g, "jax", I.ndims(c, x, y) if not isinstance(c, bool) else I.ndims(x, y), I.hints(x, y), w=w)

    def n_where(self, a, k, kind):
        return self.where(a, k)

    def n_select(self, a, k, kind):
        I = self.I
        if len(a) == 3 and not isinstance(a[0], (list, tuple)):
            return self.where(a, k)
        conds, vals = I.iterate(a[0]), I.iterate(a[1])
        d = a[2] if len(a) > 2 else k.get("default", 0.0)
        r = d
        for c, v in reversed(list(zip(conds, vals))):
            r = self.where([c, v, r], {})
        return r

    def n_piecewise(self, a, k, kind):
        I = self.I
        x, conds, fns = a[0], I.iterate(a[1]), I.iterate(a[2])
        vals = [I.call(f, [x] + list(a[3:]), {}) if callable_(f) else f for f in fns]
        r = vals[-1] if len(vals) > len(conds) else 0.0
        for c, v in reversed(list(zip(conds, vals))):
            r = self.where([c, v, r], {})
        return r

    def n_dot(self, a, k, kind):
        r = self.dot(a[0], a[1])
        return Arr(r.e, r.lead, True) if kind == "np" and isinstance(r, Arr) else r

    n_matmul = n_vdot = n_inner = n_dot

    def n_einsum(self, a, k, kind):
        I = self.I
        g = gr.ONE
        for x in a[1:]:
            g = gr.gmul(g, I.grade(x))
        r = elt.ein(I, a[0], [elt.shape_of(I, x) for x in a[1:]]) if a and isinstance(a[0], str) else None
        return I.mk("einsum", tuple(a), g, "jax", None if r is None else len(r[1]), None, w=() if all(I.weight(x) == () for x in a[1:]) else None)

    n_tensordot = lambda self, a, k, kind: self.n_einsum(["td"] + a[:2], k, kind)
    n_outer = lambda self, a, k, kind: self.n_einsum(["outer"] + a[:2], k, kind)

    def n_convolve(self, a, k, kind):
        return self.n_einsum(["convolve"] + a[:2], k, kind)

    def n_inv(self, a, k, kind):
        I = self.I
        m = a[0]
        if isinstance(m, Arr) and m.shape == (2, 2):
            return self.inv2(m)
        return I.mk("inv", (m,), gr.ginv(I.grade(m)) if I.grade(m) not in (None, POLY) else None, "jax", 2, "f", w=() if I.weight(m) == () else None)

    def n_det(self, a, k, kind):
        m = a[0]
        if isinstance(m, Arr) and m.shape == (2, 2):
            return self.det2(m)
        if isinstance(m, Arr) and m.shape == (3, 3):
            A = self.I.arith
            r = None
            for i, (j, l) in enumerate(((1, 2), (2, 0), (0, 1))):
                t = A("mul", m.e[0][i], A("sub", A("mul", m.e[1][j], m.e[2][l]), A("mul", m.e[1][l], m.e[2][j])))
                r = t if r is None else A("add", r, t)
            return r
        return self.I.mk("det", (m,), gr.gpow(self.I.grade(m), 2), "jax", 0, "f", w=() if self.I.weight(m) == () else None)

    def n_slogdet(self, a, k, kind):
        d = self.n_det(a, k, kind)
        return (self.n_sign([d], {}, "jax"), self.n_log([self.n_abs([d], {}, "jax")], {}, "jax"))

    def n_solve(self, a, k, kind):
        return self.dot(self.n_inv([a[0]], {}, kind), a[1])

    def n_eigvalsh(self, a, k, kind):
        return self.I.mk("eig", tuple(a), self.I.grade(a[0]), "jax", 1, "f")

    def n_svd(self, a, k, kind):
        return self.opaque("svd", a, "jax")

    def filled(self, name, a, k, kind, val):
        I = self.I
        shape = a[0] if a else k.get("shape")
        dt = k.get("dtype", a[1] if len(a) > 1 else None)
        if isinstance(shape, int) and 0 < shape <= (8 if kind == "np" else 4):
            return Arr([self.cast(I.litsym(val, kind), dt) for _ in range(shape)], mut=kind == "np", dt=self.canon_dtype(dt) if isinstance(dt, Ext) else None)
        if isinstance(shape, (tuple, list)) and len(shape) == 2 and all(isinstance(s, int) and s <= 4 for s in shape) and shape[0] * shape[1] > 0:
            return Arr([tuple(self.cast(I.litsym(val), dt) for _ in range(shape[1])) for _ in range(shape[0])], mut=kind == "np", dt=self.canon_dtype(dt) if isinstance(dt, Ext) else None)
        nd = len(shape) if isinstance(shape, (tuple, list)) else 1 if isinstance(shape, (int,)) or (isinstance(shape, Sym) and shape.kind == "pyi") else None
        s = I.mk(name, (shape, dt), POLY if val == 0 else gr.ONE, "jax" if kind == "jax" else "np", nd, self.dtclass(dt) or ("f" if dt is None else None), traced=False, w=())
        if isinstance(shape, (tuple, list)):
            s.extra = {"shape": tuple(shape)}
        if dt is not None and not isinstance(dt, str):
            s.extra = {**(s.extra or {}), "dtype": dt}
        return s

    def n_zeros(self, a, k, kind):
        return self.filled("zeros", a, k, kind, 0.0)

    def n_ones(self, a, k, kind):
        return self.filled("ones", a, k, kind, 1.0)

    def n_empty(self, a, k, kind):
        return self.filled("zeros", a, k, kind, 0.0)

    def n_full(self, a, k, kind):
        I = self.I
        v = a[1] if len(a) > 1 else k.get("fill_value")
        if isinstance(v, (Obj, ExtObj)) or v is None:
            raise I.pyexc("TypeError", "full of object")
        if isinstance(v, Arr):
            v = v.flat()[0]
        s = I.mk("full", (a[0], v), I.grade(v), "jax" if kind == "jax" else "np", 1 if not isinstance(a[0], (tuple, list)) else len(a[0]), I.hints(v), w=I.weight(v))
        if isinstance(a[0], (tuple, list)):
            s.extra = {"shape": tuple(a[0])}
        return s

    def like(self, name, a, val, kind="jax"):
        I = self.I
        kind = "np" if kind == "np" else "jax"
        v = a[0]
        if isinstance(v, Arr):
            return v.map(lambda e: I.litsym(val, kind))
        if isinstance(v, (int, float)):
            return I.litsym(val)
        return I.mk(name, (I.ext.shape_core(v) if isinstance(v, Sym) else v,), POLY if val == 0 else gr.ONE, kind, v.ndim if isinstance(v, Sym) else None, v.hint if isinstance(v, Sym) else "f", traced=False, w=())

    def n_zeros_like(self, a, k, kind):
        return self.like("zeros_like", a, 0.0, kind)

    def n_ones_like(self, a, k, kind):
        return self.like("ones_like", a, 1.0, kind)

    def n_full_like(self, a, k, kind):
        I = self.I
        v = a[1]
        return I.mk("full_like", (a[0], v), I.grade(v), "jax", I.ndims(a[0]), I.hints(v), w=I.weight(v))

    n_empty_like = n_zeros_like

    def n_eye(self, a, k, kind):
        I = self.I
        n = a[0]
        if isinstance(n, int) and n <= 3:
            return Arr([tuple(I.litsym(1.0 if i == j else 0.0) for j in range(n)) for i in range(n)])
        return I.mk("eye", (n,), gr.ONE, "jax", 2, "f", w=())

    n_identity = n_eye

    def n_diag(self, a, k, kind):
        I = self.I
        v = a[0]
        if isinstance(v, (list, tuple)):
            v = self.asarray(v)
        if isinstance(v, Arr) and v.nd == 1:
            n = len(v.e)
            return Arr([tuple(v.e[i] if i == j else I.litsym(0.0) for j in range(n)) for i in range(n)])
        return I.mk("diag", (v,), I.grade(v), "jax", None, None, w=None)

    def n_arange(self, a, k, kind):
        I = self.I
        xs = [x for x in a]
        if kind == "np" and all(isinstance(x, int) for x in xs) and len(range(*xs)) <= 8 and not k:
            return Arr([I.litsym(i, "np") for i in range(*xs)])
        g = I.gjoin([I.grade(x) for x in xs])
        if g is None:
            gs = [I.grade(x) for x in xs if not I.is_lit_nonzero(x)]
            g = I.gjoin(gs) if gs else None
        start = xs[0] if len(xs) > 1 else 0
        if all(isinstance(x, int) for x in xs):
            g = gr.ONE
        for x in xs:
            if I.is_traced(x):
                raise I.tracer_error("arange of traced value", x)
        if g == POLY:
            g = gr.ONE
        return I.mk("arange", tuple(a), g, "jax" if kind == "jax" else "np", 1, "i" if I.hints(*xs) == "i" else None, w=I.weight(start))

    def n_linspace(self, a, k, kind):
        I = self.I
        x, y = a[0], a[1]
        g = I.g_unify(x, y, "where")
        wx, wy = I.weight(x), I.weight(y)
        r = I.mk("linspace", tuple(a) + tuple((n, k[n]) for n in ("num", "endpoint") if n in k), g, "jax" if kind == "jax" else "np", 1, "f", w=wx if wx == wy else None)
        return (r, I.opaque) if k.get("retstep") is True else r

    def n_logspace(self, a, k, kind):
        return self.I.mk("logspace", tuple(a), gr.ONE, kind, 1, "f", w=())

    def n_meshgrid(self, a, k, kind):
        I = self.I
        how = k.get("indexing", "xy")
        out = []
        for i, x in enumerate(a):
            if isinstance(x, Sym):
                out.append(I.mk("mesh", (x, i, how, tuple(a)), x.grade, "jax", len(a), x.hint, w=x.w, traced=I.is_traced(x)))
            elif isinstance(x, Arr):
                out.append(I.mk("mesh", (x, i, how, tuple(a)), I.grade(x), "jax", len(a), I.hints(x), w=I.weight(x), traced=I.is_traced(x)))
            else:
                out.append(x)
        return tuple(out)

    def n_stack(self, a, k, kind):
        I = self.I
        xs = I.iterate(a[0])
        ax = k.get("axis", a[1] if len(a) > 1 else 0)
        if len(xs) <= 6:
            if all(isinstance(x, Arr) and x.nd == 1 for x in xs):
                m = Arr([x.e for x in xs])
                return m if ax == 0 else m.T()
            ys = [x if isinstance(x, Sym) else I.litsym(x) if isinstance(x, (int, float, complex)) else None for x in xs]
            if all(y is not None for y in ys):
                return Arr(ys, lead=ax in (-1,))
        return self.n_concatenate(a, k, kind, True)

    def n_column_stack(self, a, k, kind):
        return self.n_stack(a, {"axis": -1}, kind)

    def n_concatenate(self, a, k, kind, stack=False):
        I = self.I
        xs = I.iterate(a[0])
        if all(isinstance(x, Arr) and x.nd == 1 and not x.lead for x in xs) and sum(len(x.e) for x in xs) <= 8:
            return Arr([e for x in xs for e in x.e])
        g = I.gjoin([I.grade(x) for x in xs])
        gs = [I.grade(x) for x in xs]
        if g is None and all(x is not None for x in gs):
            base = None
            for x in xs:
                if I.grade(x) not in (POLY,) and not I.is_lit_nonzero(x):
                    base = x
                    break
            for x in xs:
                if base is not None and x is not base:
                    I.g_unify(base, x, "concatenate")
        ws = {I.weight(x) for x in xs}
        nds = {x.ndim if isinstance(x, Sym) else x.nd if isinstance(x, Arr) else None for x in xs}
        ax = k.get("axis", a[1] if len(a) > 1 else 0)
        if stack:
            return I.mk("stack", (tuple(xs), ax), g, "jax" if kind == "jax" else "np", None, I.hints(*xs), w=ws.pop() if len(ws) == 1 else None)
        return I.mk("concatenate", (tuple(xs), ax), g, "jax" if kind == "jax" else "np", nds.pop() if len(nds) == 1 else None, I.hints(*xs), w=ws.pop() if len(ws) == 1 else None)

    n_hstack = n_append = n_concatenate

    def n_vstack(self, a, k, kind):
        return self.n_concatenate(a, k, kind, True)

    def n_array_split(self, a, k, kind):
        return self.opaque("split", a)

    def n_broadcast_arrays(self, a, k, kind):
        return list(a)

    def n_broadcast_shapes(self, a, k, kind):
        if all(isinstance(x, (tuple, list)) for x in a):
            n = max([len(x) for x in a] or [0])
            out = []
            for j in range(n):
                ds = {}
                for x in a:
                    if j - n + len(x) >= 0:
                        d = x[j - n + len(x)]
                        if not (self.I.litval(d) == 1):
                            ds[self.I.key(d)] = d
                if len(ds) > 1:
                    break
                out.append(list(ds.values())[0] if ds else 1)
            else:
                return tuple(out)
        return self.I.mk("broadcast_shapes", tuple(a), None, "any", traced=False)

    def n_interp(self, a, k, kind):
        I = self.I
        x, xp, fp = a[:3]
        I.g_unify(x, xp, "interp abscissa")
        return I.mk("interp", tuple(a), I.grade(fp), "jax", I.ndims(x), "f", w=I.weight(fp))

    def n_searchsorted(self, a, k, kind):
        I = self.I
        I.g_unify(a[0], a[1], "searchsorted")
        return I.mk("searchsorted", tuple(a), gr.ONE, "jax", I.ndims(a[1]), "i", w=())

    def n_argsort(self, a, k, kind):
        return self.I.mk("argsort", tuple(a), gr.ONE, "jax", None, "i", w=())

    def n_argmin(self, a, k, kind):
        return self.I.mk("argmin", tuple(a), gr.ONE, "jax", 0, "i", w=())

    def n_argmax(self, a, k, kind):
        return self.I.mk("argmax", tuple(a), gr.ONE, "jax", 0, "i", w=())

    def n_polyval(self, a, k, kind):
        I = self.I
        g = I.grade(a[1])
        gc = I.grade(a[0])
        if isinstance(a[0], Arr) and a[0].nd == 1 and not a[0].lead and isinstance(a[1], Sym):
            r = a[0].e[0]
            for c in a[0].e[1:]:
                r = I.arith("add", I.arith("mul", r, a[1]), c)
            return r
        return I.mk("polyval", tuple(a), gc if g in (gr.ONE, POLY) else None, "jax", I.ndims(a[1]), "f", w=None)

    def n_prod(self, a, k, kind):
        I = self.I
        v = a[0]
        if isinstance(v, (list, tuple)):
            v = self.asarray(v)
        if isinstance(v, Arr) and v.nd == 1:
            r = v.e[0]
            for e in v.e[1:]:
                r = I.arith("mul", r, e)
            return r
        g = I.grade(v)
        rest = tuple(a[1:]) + tuple((x, y) for x, y in k.items())
        return I.mk("prod", (v,) + rest, gr.ONE if g == gr.ONE else None, "jax" if kind == "jax" else kind, 0 if not rest else None, I.hints(v), w=())

    def n_ndim(self, a, k, kind):
        v = a[0]
        if isinstance(v, (int, float, complex)):
            return 0
        if isinstance(v, (list, tuple)):
            v = self.asarray(v)
        if isinstance(v, (Sym, Arr)):
            if isinstance(v, Sym) and v.kind in ("pyf", "pyi", "pyb"):
                return 0
            return self.getattr(v, "ndim") if not (isinstance(v, Sym) and v.kind == "any") else self.I.mk("ndim", (v,), gr.ONE, "pyi", 0, "i", traced=False)
        return self.opaque("ndim", a)

    def n_shape(self, a, k, kind):
        v = a[0]
        if isinstance(v, (int, float, complex)):
            return ()
        if isinstance(v, (list, tuple)):
            v = self.asarray(v)
        if isinstance(v, Sym) and v.kind in ("pyf", "pyi", "pyb"):
            return ()
        return self.getattr(v, "shape")

    def n_size(self, a, k, kind):
        return self.getattr(a[0], "size") if isinstance(a[0], (Sym, Arr)) else 1

    def n_issubdtype(self, a, k, kind):
        I = self.I
        c = self.dtclass(a[0])
        d = a[1]
        if isinstance(d, Ext) and d.name == "prng_key" and c:
            return False
        if isinstance(d, Ext) and d.name == "prng_key" and isinstance(a[0], Sym) and a[0].op == "dtype" and isinstance(a[0].args[0], (Sym, Arr)):
            x = a[0].args[0]
            if isinstance(x, Sym) and x.kind == "key":
                return True
            if I.hints(x) in ("i", "f", "c", "b"):
                return False
        if isinstance(d, Ext):
            n = d.name
            want = {"integer": "i", "floating": "f", "complexfloating": "c", "inexact": "fc", "number": "ifc", "bool_": "b", "signedinteger": "i", "unsignedinteger": "i"}.get(n)
            if want is None and self.dtclass(d):
                want = self.dtclass(d)
            if isinstance(a[0], Sym) and a[0].op == "dtype" and isinstance(a[0].args[0], Sym) and a[0].args[0].hint:
                c = a[0].args[0].hint
            if c and want:
                return c in want
        return I.mk("issubdtype", tuple(a), gr.ONE, "pyb", 0, "b", traced=False)

    def n_result_type(self, a, k, kind):
        return self.I.mk("result_type", tuple(a), None, "any", traced=False)

    n_promote_types = n_result_type

    def n_finfo(self, a, k, kind):
        o = ExtObj(Ext("numpy.finfo"), list(a))
        for n in ("eps", "tiny", "max", "min", "resolution", "smallest_normal"):
            o.attrs[n] = self.I.mk("finfo." + n, tuple(a), gr.ONE, "np", 0, "f", traced=False, w=())
        return o

    n_iinfo = n_finfo

    def n_dtype(self, a, k, kind):
        return a[0]

    def fft(self, name, a, k, kind):
        rest = tuple(a[1:]) + tuple((x, y) for x, y in k.items())
        return self.I.mk(name, tuple(a[:1]) + rest, self.I.grade(a[0]), kind, None, "f" if name.startswith("irfft") else "c", w=None)

    n_fft = lambda self, a, k, kind: self.fft("fft", a, k, kind)
    n_ifft = lambda self, a, k, kind: self.fft("ifft", a, k, kind)
    n_fft2 = lambda self, a, k, kind: self.fft("fft2", a, k, kind)
    n_ifft2 = lambda self, a, k, kind: self.fft("ifft2", a, k, kind)
    n_rfft2 = lambda self, a, k, kind: self.fft("rfft2", a, k, kind)
    n_rfft = lambda self, a, k, kind: self.fft("rfft", a, k, kind)
    n_irfft = lambda self, a, k, kind: self.fft("irfft", a, k, kind)
    n_irfft2 = lambda self, a, k, kind: self.fft("irfft2", a, k, kind)
    n_ihfft = lambda self, a, k, kind: self.fft("ihfft", a, k, kind)

    def n_rfftfreq(self, a, k, kind):
        return self.n_fftfreq(a, k, kind, "rfftfreq")

    def n_fftfreq(self, a, k, kind, name="fftfreq"):
        I = self.I
        d = a[1] if len(a) > 1 else k.get("d", 1.0)
        return I.mk(name, tuple(a) + ((d,) if len(a) < 2 else ()), gr.ginv(I.grade(d)) if I.grade(d) not in (None, POLY) else None, kind, 1, "f", w=())


    def n_vectorize(self, a, k, kind):
        return JitFn(a[0], {}, "vectorize")

    def n_dynamic_update_slice(self, a, k, kind):
        I = self.I
        g = I.g_unify(a[0], a[1], "update")
        s = I.mk("dus", tuple(a), g, "jax", a[0].ndim if isinstance(a[0], Sym) else None, I.hints(a[0]), w=None)
        return s

    def n_isin(self, a, k, kind):
        return self.I.mk("isin", tuple(a), gr.ONE, "jax", None, "b", w=())

    def n_logical_and(self, a, k, kind):
        return self.I.logical("land", a[0], a[1])

    def n_logical_or(self, a, k, kind):
        return self.I.logical("lor", a[0], a[1])

    n_bitwise_and = n_logical_and
    n_bitwise_or = n_logical_or

    def n_equal(self, a, k, kind):
        return self.I.compare("eq", a[0], a[1])

    def n_not_equal(self, a, k, kind):
        return self.I.compare("ne", a[0], a[1])

    def n_less(self, a, k, kind):
        return self.I.compare("lt", a[0], a[1])

    def n_greater(self, a, k, kind):
        return self.I.compare("gt", a[0], a[1])

    def n_less_equal(self, a, k, kind):
        return self.I.compare("le", a[0], a[1])

    def n_greater_equal(self, a, k, kind):
        return self.I.compare("ge", a[0], a[1])

    def n_deg2rad(self, a, k, kind):
        return self.I.arith("mul", a[0], math.pi / 180.0)

    n_radians = n_deg2rad

    def n_rad2deg(self, a, k, kind):
        return self.I.arith("mul", a[0], 180.0 / math.pi)

    n_degrees = n_rad2deg

    def int_list(self, v):
        """python integers of a 1-d array of known integers, or None"""
        I = self.I
        if isinstance(v, Sym) and v.op == "arange" and all(isinstance(x, int) for x in v.args):
            r = list(range(*v.args))
            return r if len(r) <= 64 else None
        if isinstance(v, Arr) and v.nd == 1 and not v.lead:
            r = [I.litval(x) for x in v.e]
            if all(isinstance(x, (int, float)) and x == int(x) for x in r):
                return [int(x) for x in r]
        return None

    def n_repeat(self, a, k, kind):
        if len(a) == 2 and not k:
            v, n = self.int_list(a[0]), self.int_list(a[1])
            if v is not None and n is not None and len(n) == len(v) and min(n) >= 0 and sum(n) <= 64:
                return Arr([self.I.litsym(x, kind) for x, m in zip(v, n) for _ in range(m)])
        return self.fn1("repeat", a[0], a[1:], k, kind)

    def n_unravel_index(self, a, k, kind):
        I = self.I
        v = self.int_list(a[0])
        if v is not None and len(a) == 2 and isinstance(a[1], tuple) and len(a[1]) == 2 and all(isinstance(x, int) for x in a[1]):
            return tuple(Arr([I.litsym(f(x), kind) for x in v]) for f in (lambda x: x // a[1][1], lambda x: x % a[1][1]))
        return tuple(I.mk("unravel", (a[0], i), gr.ONE, "jax", 0, "i", w=()) for i in range(2))

    def n_trapezoid(self, a, k, kind):
        I = self.I
        g = gr.gmul(I.grade(a[0]), I.grade(a[1])) if len(a) > 1 else I.grade(a[0])
        return I.mk("trapezoid", tuple(a), g, "jax", 0, "f")

    n_trapz = n_trapezoid

    def n_fsum(self, a, k, kind):
        return self.b_sum(a, k)

    def n_isqrt(self, a, k, kind):
        return math.isqrt(a[0]) if isinstance(a[0], int) else self.opaque("isqrt", a)

    # --------------------------------------------------------------- random
    def random(self, name, a, k):
        I = self.I
        if name in ("key", "PRNGKey"):
            return I.mk("newkey", (a[0] if a else k.get("seed"),), None, "key", 0)
        if name in ("key_data",):
            r = I.mk("key_data", tuple(a), None, "jax", 1, "i")
            r.extra = dict(r.extra or {}, shape=(2,))
            return r
        if name in ("wrap_key_data",):
            x = I.vbase(a[0]) if isinstance(a[0], Sym) else a[0]
            while isinstance(x, Sym) and x.op in ("toint", "asarray", "astype"):
                x = x.args[0]
            if isinstance(x, Sym) and x.op == "key_data":
                return x.args[0]
            return I.mk("wrap_key", tuple(a), None, "key", 0)
        if name == "key_impl":
            return "impl"
        key = a[0] if a else k.get("key")
        if name == "fold_in":
            return I.mk("fold_in", tuple(a), None, "key", 0)
        if isinstance(key, Sym):
            I.key_uses.append((key, name, I.loc(), tuple(I.fnstack()), tuple(a[1:]) + tuple(k.items())))
        if name == "split":
            s = I.mk("split", (key, a[1] if len(a) > 1 else k.get("num", 2)), None, "key", 1)
            return s
        if name == "clone":
            return key
        sig = RANDSIG.get(name)
        sh = None
        if sig is not None:
            b = dict(zip(("key",) + sig, a))
            b.update(k)
            b.pop("dtype", None)
            b.pop("key", None)
            sh = b.pop("shape", None)
            dv = RANDDEF.get(name, {})
            b = {n: x for n, x in b.items() if not (isinstance(x, (int, float)) and x == dv.get(n))}
            if sh is None:
                sh = elt.bcast(I, [elt.shape_of(I, x) for x in b.values()]) if b else ()
            elif isinstance(sh, int):
                sh = (sh,)
            a, k = [key] + [b[n] for n in sig if n in b], {}
            if any(n not in sig for n in b):
                sh = None
            if sh is not None and tuple(sh) != ():
                a.append(tuple(sh))
        kw = None
        if name in ("permutation", "choice"):
            sig = {"permutation": ("x", "axis", "independent"), "choice": ("a", "shape", "replace", "p", "axis")}[name]
            kw = dict(zip(sig, a[1:]))
            kw.update(k)
            x = kw.get("x", kw.get("a"))
            xs = elt.shape_of(I, x) if isinstance(x, (Sym, Arr)) else ()
            sh = kw.get("shape") if name == "choice" else xs if xs else (x,)
            if name == "choice" and xs is not None and len(xs) > 1:
                sh = None
            if sh is not None:
                sh = tuple(sh) if isinstance(sh, (tuple, list)) else (sh,)
        prm = [x for x in a[1:]] + [v for kk, v in k.items() if kk not in ("dtype",)]
        g = gr.ONE
        if name in ("permutation", "choice"):
            g = I.grade(a[1]) if len(a) > 1 else None
        if name == "uniform":
            g = gr.ONE
        r = I.mk("rand." + name, (key,) + tuple(prm), g, "jax", None if sh is None else len(sh), "i" if name in ("poisson", "bits", "randint") else "b" if name == "bernoulli" else "f", w=())
        if sh is not None and tuple(sh) and isinstance(r, Sym):
            r.extra = dict(r.extra or {}, shape=tuple(sh))
        if kw is not None and isinstance(r, Sym):
            r.extra = dict(r.extra or {}, kw=tuple(kw.items()))
        return r

    # ----------------------------------------------------------- formatting
    def format_value(self, v, conv, spec):
        I = self.I
        if isinstance(v, CONST) and isinstance(spec, str):
            if conv == "r":
                return repr(v)
            try:
                return format(v, spec) if not (v is None and spec == "") else "None"
            except (TypeError, ValueError) as e:
                raise I.pyexc(type(e).__name__, str(e))
        if isinstance(v, FmtStr):
            if conv == "r":
                return FmtStr([("rs", v)])
            return v
        if isinstance(v, Obj):
            m = None
            if conv == "s":
                m = I.find_method(v, "__str__")
            if m is None:
                m = I.find_method(v, "__repr__")
            if m is not None:
                r = I.call(m, [], {})
                return r if isinstance(r, (str, FmtStr)) else FmtStr([("s", r)])
            if v.cls.flavor in ("dataclass", "namedtuple"):
                parts = [v.cls.name + "("]
                for i, (f, _) in enumerate(v.cls.fields):
                    if i:
                        parts.append(", ")
                    parts.append(f + "=")
                    parts.append(self.format_value(v.attrs[f], "r", ""))
                parts.append(")")
                return FmtStr(parts)
            return FmtStr([("o", v)])
        if isinstance(v, (list, tuple)):
            op, cl = ("[", "]") if isinstance(v, list) else ("(", ")")
            parts = [op]
            for i, x in enumerate(v):
                if i:
                    parts.append(", ")
                parts.append(self.format_value(x, "r", ""))
            if isinstance(v, tuple) and len(v) == 1:
                parts.append(",")
            parts.append(cl)
            r = FmtStr(parts)
            return r.parts[0] if len(r.parts) == 1 and isinstance(r.parts[0], str) else r
        if isinstance(v, dict):
            parts = ["{"]
            for i, (kk, x) in enumerate(v.items()):
                if i:
                    parts.append(", ")
                parts.append(self.format_value(kk, "r", ""))
                parts.append(": ")
                parts.append(self.format_value(x, "r", ""))
            parts.append("}")
            r = FmtStr(parts)
            return r.parts[0] if len(r.parts) == 1 and isinstance(r.parts[0], str) else r
        if isinstance(v, (Cls,)):
            return "<class '%s'>" % v.name
        if isinstance(v, Sym) and v.lit is not None and v.kind not in ("jax", "np") and isinstance(spec, str):
            return self.format_value(v.lit, conv, spec)
        return FmtStr([(conv + (":" + spec if isinstance(spec, str) and spec else ""), v)])

    def percent_format(self, fmt, arg):
        I = self.I
        if isinstance(fmt, FmtStr):
            return FmtStr([fmt, ("s", arg)])
        vals = list(arg) if isinstance(arg, tuple) else [arg]
        if isinstance(arg, dict):
            vals = [arg]
        parts = []
        pos = 0
        i = 0
        for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+|\*))?([diouxXeEfFgGcrsa%])", fmt):
            parts.append(fmt[pos : m.start()])
            pos = m.end()
            c = m.group(5)
            if c == "%":
                parts.append("%")
                continue
            width, prec = m.group(3), m.group(4)
            if width == "*" and i < len(vals):
                width, i = I.litval(vals[i]), i + 1
            if prec == "*" and i < len(vals):
                prec, i = I.litval(vals[i]), i + 1
            if width is not None and not str(width).lstrip("-").isdigit() or prec is not None and not str(prec).isdigit():
                raise GiveUp("format width")
            if m.group(1):
                v = arg[m.group(1)]
            else:
                if i >= len(vals):
                    raise I.pyexc("TypeError", "not enough arguments for format string")
                v = vals[i]
                i += 1
            spec = (m.group(2) or "") + ("" if width is None else str(width)) + ("" if prec is None else ".%s" % prec)
            if isinstance(v, Sym) and c in "dixX" and I.litval(v) is not None:
                v = I.litval(v)
            if isinstance(v, CONST):
                try:
                    parts.append("%" + spec + c if False else ("%" + spec + c) % (v,))
                except TypeError as e:
                    raise I.pyexc("TypeError", str(e))
            elif c in "rs" and not spec:
                parts.append(self.format_value(v, "r" if c == "r" else "s", ""))
            else:
                parts.append((c + ":" + spec, v))
        parts.append(fmt[pos:])
        if i < len(vals) and not isinstance(arg, dict) and i < len(vals):
            raise I.pyexc("TypeError", "not all arguments converted during string formatting")
        f = FmtStr(parts)
        return "".join(f.parts) if all(isinstance(p, str) for p in f.parts) else f

    # ------------------------------------------------------------- builtins
    def b_len(self, a, k):
        I = self.I
        v = a[0]
        if isinstance(v, (list, tuple, dict, set, str, range, frozenset)):
            return len(v)
        if isinstance(v, Arr):
            return len(v.e)
        if isinstance(v, Obj):
            if v.cls.flavor == "namedtuple":
                return len(v.cls.fields)
            return I.call_method(v, "__len__", [])
        if isinstance(v, PyIter_()):
            raise I.pyexc("TypeError", "len of generator")
        if isinstance(v, Sym):
            if v.ndim == 0 and v.kind in ("jax", "np") or v.kind in ("pyf", "pyi", "pyb"):
                raise I.pyexc("TypeError", "len() of unsized object")
            if v.op == "shape":
                return I.getattr(v.args[0], "ndim")
            sh = elt.shape_of(I, v) if v.kind in ("jax", "np") else None
            if sh:
                return sh[0]
            return I.mk("dim", (self.shape_core(v), 0), gr.ONE, "pyi", 0, "i", traced=False, w=())
        if v is None or isinstance(v, (int, float)):
            raise I.pyexc("TypeError", "no len()")
        return I.mk("len", (v,), gr.ONE, "pyi", 0, "i", traced=False)

    def b_isinstance(self, a, k):
        return self.isinst(a[0], a[1])

    def isinst(self, v, spec):
        I = self.I
        if isinstance(spec, (tuple, list)):
            und = None
            for s in spec:
                r = self.isinst1(v, s)
                if r is True:
                    return True
                if r is None:
                    und = True
            if und:
                return I.decide_term(I.mk("isinstance", (v, tuple(spec)), gr.ONE, "pyb", 0, "b", traced=False))
            return False
        r = self.isinst1(v, spec)
        if r is None:
            return I.decide_term(I.mk("isinstance", (v, spec), gr.ONE, "pyb", 0, "b", traced=False))
        return r

    def isinst1(self, v, s):
        I = self.I
        if isinstance(v, Obj) and isinstance(v.attrs.get("__class__"), Ext) and isinstance(s, (Cls, Ext)):
            return isinstance(s, Ext) and (s.name == v.attrs["__class__"].name or s.path == "builtins.object")
        if isinstance(s, Cls):
            if isinstance(v, Obj):
                return v.cls.issub(s)
            if isinstance(v, Sym) and v.kind == "any":
                return None
            return False
        if isinstance(s, tuple):
            return self.isinst(v, s)
        if not isinstance(s, Ext):
            return None
        n, p = s.name, s.path
        if isinstance(v, Obj):
            if v.cls.flavor == "namedtuple" and n == "tuple":
                return True
            if p == "builtins.object":
                return True
            return any(e.path == p for e in v.cls.extbases) or (n in ("BaseException", "Exception") and n in I.exc_names(v) and any(e.name in _EXCN for e in v.cls.extbases))
        if p == "builtins.object":
            return True
        if isinstance(v, bool):
            return n in ("bool", "int", "Integral", "Number", "Real", "bool_") and n not in ("bool_",)
        if isinstance(v, int):
            return n in ("int", "Integral", "Number", "Real")
        if isinstance(v, float):
            return n in ("float", "Real", "Number")
        if isinstance(v, complex):
            return n in ("complex", "Number", "Complex")
        if isinstance(v, (str, FmtStr)):
            return n in ("str", "basestring", "Sequence", "Iterable", "Hashable")
        if v is None:
            return n == "NoneType"
        if isinstance(v, Header):
            return p == "galsim.fits.FitsHeader"
        if isinstance(v, slice):
            return n == "slice"
        if isinstance(v, (tuple, list, dict, set, frozenset, range)):
            return n == type(v).__name__ or (n in ("Sequence", "Iterable") and isinstance(v, (tuple, list))) or (n in ("Mapping", "MutableMapping") and isinstance(v, dict)) or n == "Iterable"
        if isinstance(v, Arr):
            return p in ("jax.Array", "jax.numpy.ndarray") or (n == "Tracer" and I.is_traced(v))
        if isinstance(v, (Fn, Bound, JitFn, Part, PyFn)):
            return n in ("Callable", "FunctionType", "MethodType", "LambdaType")
        if isinstance(v, (Cls, Ext)):
            return n == "type"
        if isinstance(v, ExtObj):
            if v.cls.path == p or v.cls.name == n:
                return True
            if n in GALSIM_BASES.get(v.cls.name, ()):
                return True
            if v.cls.name in EXC_NAMES():
                return n in I.exc_names(v)
            if v.cls.path.startswith("galsim"):
                return False
            return None if not p.startswith("builtins.") else False
        if isinstance(v, Sym):
            kd = v.kind
            if kd == "jax" or kd == "key":
                if n == "Tracer":
                    return v.traced
                return p in ("jax.Array", "jax.numpy.ndarray", "jax.core.Array")
            if kd == "np":
                if p == "numpy.ndarray":
                    return v.ndim != 0 if v.ndim is not None else None
                if p in ("numpy.floating", "numpy.float64"):
                    return v.ndim == 0 and v.hint == "f"
                if p in ("numpy.integer",):
                    return v.ndim == 0 and v.hint == "i"
                if p in ("numpy.bool_",):
                    return v.ndim == 0 and v.hint == "b"
                return False
            if kd == "pyf":
                return n in ("float", "Real", "Number") and p != "numpy.float64"
            if kd == "pyi":
                return n in ("int", "Integral", "Number", "Real")
            if kd == "pyb":
                return n in ("bool", "int", "Integral")
            if kd == "str":
                return n == "str"
            if kd == "list":
                return n == "list"
            return None
        return None

    def b_issubclass(self, a, k):
        I = self.I
        c, s = a
        ss = s if isinstance(s, tuple) else (s,)
        if isinstance(c, Cls):
            return any(c.issub(x) for x in ss)
        if isinstance(c, Ext) and all(isinstance(x, (Ext, Cls)) for x in ss):
            if any(x is c for x in ss):
                return True
            return any(isinstance(x, Ext) and (x.name in exc_anc_(c.name) or x.name in GALSIM_BASES.get(c.name, ())) for x in ss)
        return I.decide_term(I.mk("issubclass", (c, s), gr.ONE, "pyb", 0, "b", traced=False))

    def b_hasattr(self, a, k):
        I = self.I
        o, n = a
        if isinstance(o, Sym) and o.kind == "any" or isinstance(o, (Ext,)) and not o.path.startswith("builtins"):
            return I.decide_term(I.mk("hasattr", (o, n), gr.ONE, "pyb", 0, "b", traced=False)) if isinstance(o, Sym) else True
        if isinstance(o, ExtObj):
            if n in o.attrs:
                return True
            return I.decide_term(I.mk("hasattr", (o, n), gr.ONE, "pyb", 0, "b", traced=False))
        try:
            I.getattr(o, n)
            return True
        except AbsRaise as e:
            if e.name == "AttributeError":
                return False
            raise

    def b_getattr(self, a, k):
        I = self.I
        o, n = a[0], a[1]
        if not isinstance(n, str):
            if isinstance(n, (Sym, FmtStr)):
                return self.opaque("getattr", a)
            raise I.pyexc("TypeError", "attribute name")
        if len(a) > 2:
            return I.getattr(o, n, a[2])
        return I.getattr(o, n)

    def b_setattr(self, a, k):
        self.I.setattr(a[0], a[1], a[2])

    def b_delattr(self, a, k):
        o = a[0]
        if isinstance(o, Obj):
            self.I.note_write(o, a[1], None)
            o.attrs.pop(a[1], None)

    def b_type(self, a, k):
        v = a[0]
        if len(a) == 3:
            return Cls(a[0], list(a[1]), dict(a[2]), self.I.stack[-1].globs)
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, ExtObj):
            return v.cls
        if isinstance(v, CONST) or isinstance(v, (tuple, list, dict, set)):
            return Ext("builtins." + type(v).__name__)
        if isinstance(v, Cls):
            return v.meta if v.meta is not None else Ext("builtins.type")
        if isinstance(v, Arr):
            return Ext("jax.Array")
        if isinstance(v, Sym):
            return {"jax": Ext("jax.Array"), "pyf": Ext("builtins.float"), "pyi": Ext("builtins.int"), "str": Ext("builtins.str"), "np": Ext("numpy.ndarray")}.get(v.kind) or self.opaque("type", [v])
        return Ext("builtins.function")

    def b_super(self, a, k):
        return Super(a[0], a[1])

    def b_repr(self, a, k):
        r = self.format_value(a[0], "r", "")
        return r

    def b_str(self, a, k):
        if not a:
            return ""
        if isinstance(a[0], str):
            return a[0]
        return self.format_value(a[0], "s", "")

    def b_format(self, a, k):
        return self.format_value(a[0], "s", a[1] if len(a) > 1 else "")

    def b_float(self, a, k):
        return self.pycast(a, "pyf", float, "f")

    def b_int(self, a, k):
        return self.pycast(a, "pyi", int, "i")

    def b_complex(self, a, k):
        if len(a) == 1:
            return self.pycast(a, "pyf", complex, "c")
        return self.opaque("complex", a)

    def pycast(self, a, kind, py, hint):
        I = self.I
        if not a:
            return py()
        v = a[0]
        if isinstance(v, (bool, int, float, complex, str)):
            try:
                return py(v)
            except (ValueError, TypeError, OverflowError) as e:
                raise I.pyexc(type(e).__name__, str(e))
        if isinstance(v, Sym):
            if v.traced:
                raise I.tracer_error("%s() of traced value" % py.__name__, v)
            if v.lit is not None:
                try:
                    return py(v.lit)
                except (ValueError, TypeError, OverflowError) as e:
                    raise I.pyexc(type(e).__name__, str(e))
            if v.hint == hint and v.kind == kind:
                return v
            b = I.intbase(v) if py is int else None
            if b is not None:
                return b if b.kind == "pyi" else I.mk("item", (b,), b.grade, "pyi", 0, "i", w=b.w)
            op = "item" if (v.hint == hint or py is float) else "toint" if py is int else "toc"
            if v.hint in (None,) and py is float:
                op = "item"
            return I.mk(op, (v,), v.grade, kind, 0, hint, w=v.w)
        if isinstance(v, Obj):
            m = I.find_method(v, "__%s__" % py.__name__)
            if m is not None:
                return I.call(m, [], {})
            raise I.pyexc("TypeError", "%s() argument must be a number, not %s" % (py.__name__, v.cls.name))
        if isinstance(v, Arr):
            if len(v.flat()) == 1:
                return self.pycast([v.flat()[0]], kind, py, hint)
            raise I.pyexc("TypeError", "only size-1 arrays")
        if v is None or isinstance(v, (list, tuple, dict)):
            raise I.pyexc("TypeError", "%s() argument" % py.__name__)
        return I.mk("item", (v,), None, kind, 0, hint)

    def b_bool(self, a, k):
        return self.I.truth(a[0]) if a else False

    def b_tuple(self, a, k):
        return tuple(self.I.iterate(a[0])) if a else ()

    def b_list(self, a, k):
        r = self.I.iterate(a[0]) if a else []
        self.I.reg(r)
        return r

    def b_set(self, a, k):
        return set(self.I.hkey(x) for x in self.I.iterate(a[0])) if a else set()

    def b_frozenset(self, a, k):
        return frozenset(self.I.hkey(x) for x in self.I.iterate(a[0])) if a else frozenset()

    def b_dict(self, a, k):
        I = self.I
        d = {}
        if a:
            if isinstance(a[0], dict):
                d.update(a[0])
            else:
                for p in I.iterate(a[0]):
                    x, y = I.iterate(p, 2)
                    d[I.hkey(x)] = y
        d.update(k)
        I.reg(d)
        return d

    def b_zip(self, a, k):
        return [tuple(t) for t in zip(*[self.I.iterate(x) for x in a])]

    def b_enumerate(self, a, k):
        s = a[1] if len(a) > 1 else k.get("start", 0)
        return [(i + s, x) for i, x in enumerate(self.I.iterate(a[0]))]

    def b_range(self, a, k):
        I = self.I
        if all(isinstance(x, int) for x in a):
            return range(*a)
        for x in a:
            if I.is_traced(x):
                raise I.tracer_error("range() of traced value", x)
        I.approx = True
        return PyIter_()([I.mk("rangeidx", tuple(a), gr.ONE, "pyi", 0, "i", traced=False, w=())])

    def b_map(self, a, k):
        return [self.I.call(a[0], list(t), {}) for t in zip(*[self.I.iterate(x) for x in a[1:]])]

    def b_filter(self, a, k):
        return [x for x in self.I.iterate(a[1]) if self.I.truth(x if a[0] is None else self.I.call(a[0], [x], {}))]

    def b_sorted(self, a, k):
        xs = self.I.iterate(a[0])
        try:
            if "key" not in k:
                return sorted(xs, reverse=bool(k.get("reverse", False)))
            return sorted(xs, key=lambda x: self.I.call(k["key"], [x], {}), reverse=bool(k.get("reverse", False)))
        except TypeError:
            return list(xs)

    def b_reversed(self, a, k):
        return list(reversed(self.I.iterate(a[0])))

    def b_sum(self, a, k):
        I = self.I
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for x in I.iterate(a[0]):
            r = I.binop("add", r, x)
        return r

    def b_min(self, a, k):
        return self.pyminmax(a, k, "minimum", min)

    def b_globals(self, a, k):
        return dict(I_ns(self.I))

    b_locals = b_globals

    def b_exec(self, a, k):
        if isinstance(a[0], str) and a[0].startswith("import ") and len(a) > 1 and isinstance(a[1], dict):
            n = a[0][7:].strip()
            if n.isidentifier():
                a[1][n] = self.I.import_(n)
                return None
        return self.opaque("builtins.exec", a)

    def b_eval(self, a, k):
        import ast

        if isinstance(a[0], str) and len(a) > 1 and isinstance(a[1], dict):
            parts = a[0].split(".")
            if all(p.isidentifier() for p in parts):
                v = a[1].get(parts[0])
                if v is None:
                    raise self.I.pyexc("NameError", parts[0])
                for p in parts[1:]:
                    v = self.I.getattr(v, p)
                return v
        if isinstance(a[0], FmtStr):
            # literals round-trip through their repr
            src, vals = "", []
            for q in a[0].parts:
                if isinstance(q, str):
                    src += q
                elif q[0] == "r" and (isinstance(q[1], (tuple, list, int, float)) or isinstance(q[1], Sym) and q[1].kind in ("pyi", "pyf", "pyb", "list")):
                    src += " __v%d " % len(vals)
                    vals.append(q[1])
                else:
                    return self.opaque("builtins.eval", a)

            def lit(n):
                if isinstance(n, ast.Name) and n.id.startswith("__v"):
                    return vals[int(n.id[3:])]
                if isinstance(n, ast.Tuple):
                    return tuple(lit(x) for x in n.elts)
                if isinstance(n, ast.List):
                    return [lit(x) for x in n.elts]
                return ast.literal_eval(n)

            try:
                return lit(ast.parse(src.strip(), "<eval>", "eval").body)
            except (SyntaxError, ValueError):
                pass
        return self.opaque("builtins.eval", a)

    def n_nonzero(self, a, k, kind):
        I = self.I
        x = self.asarray(a[0], kind) if isinstance(a[0], (list, tuple)) else a[0]
        if isinstance(x, Arr) and x.nd == 1 and not x.lead or isinstance(x, Sym) and x.op == "array":
            es = [I.litval(e) for e in (x.e if isinstance(x, Arr) else x.args)]
            if all(e is not None for e in es):
                return (Arr([I.litsym(i, kind) for i, e in enumerate(es) if e]),)
        return I.mk("np.nonzero", (x,), None, kind)

    def b_max(self, a, k):
        return self.pyminmax(a, k, "maximum", max)

    def pyminmax(self, a, k, name, py):
        I = self.I
        xs = I.iterate(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            raise I.pyexc("ValueError", "empty sequence")
        if all(isinstance(x, (int, float, str)) for x in xs) and "key" not in k:
            return py(xs)
        if all(I.litval(x) is not None for x in xs) and "key" not in k:
            return py(xs, key=I.litval)
        r = xs[0]
        for x in xs[1:]:
            for y in (r, x):
                if I.is_traced(y):
                    raise I.tracer_error("builtin %s() of traced value" % py.__name__, y)
            if isinstance(r, (Sym, int, float)) and isinstance(x, (Sym, int, float)):
                r = self.minmax(name, [r, x], {}, "pyf")
            else:
                r = self.opaque(py.__name__, [r, x])
        return r

    def b_any(self, a, k):
        for x in self.I.iterate(a[0]):
            if self.I.truth(x):
                return True
        return False

    def b_all(self, a, k):
        for x in self.I.iterate(a[0]):
            if not self.I.truth(x):
                return False
        return True

    def b_abs(self, a, k):
        if isinstance(a[0], Obj):
            return self.I.call_method(a[0], "__abs__", [])
        return self.n_abs(a, k, "pyf")

    def b_round(self, a, k):
        if isinstance(a[0], (int, float)):
            return round(*a)
        v = self.fn1("round", a[0], a[1:], {}, "pyf")
        if len(a) == 1 and isinstance(a[0], Sym) and a[0].kind in ("pyf",):
            return self.I.mk("toint", (v,), v.grade, "pyi", 0, "i", w=v.w)
        return v

    def b_pow(self, a, k):
        return self.I.binop("pow", a[0], a[1])

    def b_divmod(self, a, k):
        return (self.I.binop("floordiv", a[0], a[1]), self.I.binop("mod", a[0], a[1]))

    def b_hash(self, a, k):
        return self.hash_of(a[0])

    def hash_of(self, v):
        I = self.I
        if isinstance(v, Obj):
            m = I.find_method(v, "__hash__")
            own = v.cls.owner("__hash__")
            if m is None or (m is not None and own is not None and own.ns["__hash__"] is None):
                eqo = v.cls.owner("__eq__")
                if own is not None and own.ns["__hash__"] is None:
                    raise I.pyexc("TypeError", "unhashable")
                if eqo is not None:
                    raise I.pyexc("TypeError", "unhashable type (defines __eq__ only): " + v.cls.name)
                if v.cls.flavor in ("dataclass", "namedtuple"):
                    return I.mk("hash", (tuple(self.hash_of(v.attrs[f]) for f, _ in v.cls.fields),), None, "pyi", 0, "i", traced=False)
                return I.mk("hash", (v,), None, "pyi", 0, "i", traced=False)
            return I.call(m, [], {})
        if isinstance(v, Sym):
            if v.traced:
                raise I.tracer_error("hash of traced value", v)
            if v.kind == "jax" or v.kind == "list" or (v.kind == "np" and v.ndim != 0):
                raise I.pyexc("TypeError", "unhashable array")
            return I.mk("hash", (v,), None, "pyi", 0, "i", traced=False)
        if isinstance(v, (list, dict, set, Arr)):
            raise I.pyexc("TypeError", "unhashable type")
        if isinstance(v, tuple):
            return I.mk("hash", (tuple(self.hash_of(x) if not isinstance(x, CONST) else x for x in v),), None, "pyi", 0, "i", traced=False)
        return I.mk("hash", (v,), None, "pyi", 0, "i", traced=False)

    def b_id(self, a, k):
        return self.I.mk("id", (a[0],), None, "pyi", 0, "i", traced=False)

    def b_callable(self, a, k):
        v = a[0]
        if isinstance(v, Obj):
            return v.cls.lookup("__call__") is not None
        return callable_(v)

    def b_property(self, a, k):
        return Prop(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))

    def b_staticmethod(self, a, k):
        return SMeth(a[0])

    def b_classmethod(self, a, k):
        return CMeth(a[0])

    def b_print(self, a, k):
        return None

    def b_iter(self, a, k):
        return PyIter_()(self.I.iterate(a[0]))

    def b_next(self, a, k):
        it = a[0]
        if isinstance(it, PyIter_()):
            if it.items:
                return it.items.pop(0)
            if len(a) > 1:
                return a[1]
            raise self.I.pyexc("StopIteration", "")
        if isinstance(it, list):
            if it:
                return it[0]
            if len(a) > 1:
                return a[1]
            raise self.I.pyexc("StopIteration", "")
        return self.opaque("next", a)

    def b_object(self, a, k):
        return ExtObj(Ext("builtins.object"))

    def b_vars(self, a, k):
        return a[0].attrs if isinstance(a[0], Obj) else a[0].ns

    def b_dir(self, a, k):
        return self.opaque("dir", a, "list")

    def b_slice(self, a, k):
        return slice(*(a if len(a) > 1 else [None, a[0]]))

    def b_chr(self, a, k):
        return chr(a[0])

    def b_ord(self, a, k):
        return ord(a[0])


def callable_(v):
    return isinstance(v, (Fn, Bound, JitFn, Part, PyFn, Cls, Ext, SMeth, CMeth)) or (isinstance(v, Obj) and v.cls.lookup("__call__") is not None)


def NODEF_():
    from .interp import NODEF

    return NODEF


def PyIter_():
    from .interp import PyIter

    return PyIter


def EXC_NAMES():
    from .interp import EXC_BASES

    return EXC_BASES


def exc_anc_(n):
    from .interp import exc_anc

    return exc_anc(n)


_EXC = {n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}
_EXCN = _EXC
def I_ns(I):
    fr = I.stack[-1] if I.stack else None
    return fr.globs.ns if fr is not None and isinstance(fr.globs, Mod) else {}


NP_DISPATCH = set("sum prod any all min max mean cumsum ravel reshape transpose squeeze round around clip argsort argmax argmin sort take repeat std var dot trace diagonal swapaxes nonzero amax amin".split())
_O = {"origin": ("PositionD", 0.0, 0.0), "world_origin": ("PositionD", 0.0, 0.0)}
_GP = {"minimum_fft_size": 128, "maximum_fft_size": 8192, "folding_threshold": 5e-3, "stepk_minimum_hlr": 5, "maxk_threshold": 1e-3, "kvalue_accuracy": 1e-5, "xvalue_accuracy": 1e-5, "table_spacing": 1,
       "realspace_relerr": 1e-4, "realspace_abserr": 1e-6, "integration_relerr": 1e-6, "integration_abserr": 1e-8, "shoot_accuracy": 1e-5}
# constructor arguments of GalSim classes, with defaults
RECORDS = {
    "GSParams": (tuple(_GP), _GP),
    "PositionD": (("x", "y"), {}), "PositionI": (("x", "y"), {}),
    "BoundsD": (("xmin", "xmax", "ymin", "ymax"), {}), "BoundsI": (("xmin", "xmax", "ymin", "ymax"), {}),
    "Shear": (("shear", "g1", "g2", "e1", "e2"), {}), "Angle": (("theta",), {}), "CelestialCoord": (("ra", "dec"), {}),
    "PixelScale": (("scale",), {}), "ShearWCS": (("scale", "shear"), {}), "JacobianWCS": (("dudx", "dudy", "dvdx", "dvdy"), {}),
    "OffsetWCS": (("scale", "origin", "world_origin"), _O), "OffsetShearWCS": (("scale", "shear", "origin", "world_origin"), _O),
    "AffineTransform": (("dudx", "dudy", "dvdx", "dvdy", "origin", "world_origin"), _O),
    "GSFitsWCS": (("_data",), {}), "UVFunction": (("ufunc", "vfunc"), {}), "Image": (("array", "bounds", "wcs", "scale"), {"wcs": None}),
}
GALSIM_BASES = {
    "PositionD": ("Position",), "PositionI": ("Position",), "BoundsD": ("Bounds",), "BoundsI": ("Bounds",),
    "PixelScale": ("BaseWCS", "LocalWCS", "UniformWCS", "EuclideanWCS"), "ShearWCS": ("BaseWCS", "LocalWCS", "UniformWCS", "EuclideanWCS"),
    "JacobianWCS": ("BaseWCS", "LocalWCS", "UniformWCS", "EuclideanWCS"), "OffsetWCS": ("BaseWCS", "UniformWCS", "EuclideanWCS"),
    "OffsetShearWCS": ("BaseWCS", "UniformWCS", "EuclideanWCS"), "AffineTransform": ("BaseWCS", "UniformWCS", "EuclideanWCS"),
    "GSFitsWCS": ("BaseWCS", "CelestialWCS"), "UVFunction": ("BaseWCS", "EuclideanWCS"),
}


def fold(name, v):
    try:
        if isinstance(v, complex):
            return {"exp": cmath.exp, "sin": cmath.sin, "cos": cmath.cos}[name](v)
        f = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "arctanh": math.atanh, "expm1": math.expm1, "log1p": math.log1p, "gamma": math.gamma, "gammaln": math.lgamma, "lgamma": math.lgamma, "erf": math.erf, "erfc": math.erfc,
             "sinc": lambda x: 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x)}.get(name)
        return f(v) if f else None
    except (ValueError, OverflowError, KeyError, TypeError):
        return None
