"""Shapes of array terms, and the value of an array term at one element.

`shape_of` infers the shape of a term structurally.  `element` gives the
reading of array operations at a generic index: element (j, i) of a mesh is the
coordinate of column i or row j, element i of a slice is element start + step*i
of what it slices, a reduction over a known extent is the fold of its elements,
and so on.  Everything elementwise is handled by fp."""
from .values import *  # noqa

CAP = 4600  # elements folded in one reduction

BIN = {"ext:galsim.bessel.kv", "add", "sub", "mul", "div", "pow", "floordiv", "mod", "band", "bor", "bxor", "lt", "le", "eq", "land", "lor", "where", "clip", "arctan2", "atan2", "maximum", "minimum", "hypot", "fmin", "fmax", "copysign", "logical_and", "logical_or", "logaddexp"}
UN = {"ext:galsim.bessel.si", "ext:galsim.bessel.j0", "neg", "not", "lnot", "logical_not", "astype", "asarray", "tofloat", "toint", "toc", "error_if", "stopgrad", "stop_gradient", "real", "imag", "conj", "abs", "absolute", "fabs", "square", "sqrt", "cbrt", "reciprocal",
      "exp", "expm1", "log", "log10", "log2", "log1p", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "arcsinh", "arctanh", "arccosh", "asinh", "atanh", "acosh", "sign", "floor", "ceil",
      "trunc", "round", "rint", "around", "fix", "angle", "deg2rad", "rad2deg", "radians", "degrees", "sinc", "erf", "erfc", "gammaln", "lgamma", "gamma", "isnan", "isfinite", "isinf", "zeros_like", "ones_like", "full_like", "j0", "j1", "i0",
      "flip", "flipud", "fliplr", "roll", "fftshift", "ifftshift", "cumsum", "at_set", "at_add", "at_mul", "at_multiply", "at_subtract", "at_divide", "at_power", "dus", "sort", "argsort", "nan_to_num", "polyval_", "fft", "ifft", "fft2", "ifft2",
      "tril", "triu"}
RED = {"sum", "max", "min", "mean", "prod", "any", "all", "median", "std", "argmax", "argmin", "nansum"}


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def bcast(I, shs):
    shs = [s for s in shs if s != ()]
    if not shs:
        return ()
    if any(s is None for s in shs):
        return None
    n = max(len(s) for s in shs)
    out = []
    for i in range(n):
        d = None
        for s in shs:
            j = i - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if isint(x) and x == 1:
                if d is None:
                    d = 1
                continue
            if d is None or (isint(d) and d == 1):
                d = x
            elif isint(x) and not isint(d):
                d = x
        out.append(d)
    return tuple(out)


def shape_of(I, v):
    if isinstance(v, (bool, int, float, complex)):
        return ()
    if isinstance(v, Arr):
        es = v.flat()
        es0 = es[0] if es else None
        s0 = shape_of(I, es0) if es else ()
        if s0 is None:
            return None
        return s0 + v.shape if v.lead else v.shape + s0
    if isinstance(v, (tuple, list)):
        if not v:
            return (0,)
        s = shape_of(I, v[0])
        return None if s is None else (len(v),) + s
    if not isinstance(v, Sym):
        return None
    if v.ndim == 0 or v.kind in ("pyf", "pyi", "pyb"):
        return ()
    if v.extra and "shape" in v.extra:
        return tuple(v.extra["shape"])
    memo = I.shapes
    r = memo.get(v.id, 0)
    if r == 0:
        memo[v.id] = None
        try:
            r = _shape(I, v)
        except (IndexError, TypeError, ZeroDivisionError, AbsRaise):
            r = None
        memo[v.id] = r
    return r


def kw(v, name, pos=None):
    """keyword or positional argument of a fn1-style term"""
    for a in v.args[1:]:
        if isinstance(a, tuple) and len(a) == 2 and a[0] == name:
            return a[1]
    if pos is not None:
        p = [a for a in v.args[1:] if not (isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str))]
        if len(p) > pos:
            return p[pos]
    return None


def slen(I, s, d):
    """length of slice s of an axis of extent d"""
    st = 1 if s.step is None else I.litval(s.step)
    lo, hi = s.start, s.stop
    if isint(d) and all(x is None or isint(I.litval(x)) for x in (lo, hi)) and isint(st):
        return len(range(*slice(I.litval(lo) if lo is not None else None, I.litval(hi) if hi is not None else None, st).indices(d)))
    if st == -1 and lo is None and hi is None:
        return d
    if isint(st) and st > 1 and lo is None and hi is None:
        return I.arith("floordiv", I.arith("add", d, st - 1), st)
    if st != 1:
        return None
    lo = 0 if lo is None else lo
    hi = d if hi is None else hi
    if isint(I.litval(hi)) and I.litval(hi) < 0:
        hi = I.arith("add", d, hi)
    if isint(I.litval(lo)) and I.litval(lo) < 0:
        lo = I.arith("add", d, lo)
    return I.arith("sub", hi, lo)


def scalar_index(x):
    return isint(x) or isinstance(x, Sym) and x.ndim == 0 and x.hint == "i"


def norm_index(i, nd):
    """tuple of index items with the Ellipsis expanded, or None"""
    idx = list(i) if isinstance(i, tuple) else [i]
    used = sum(1 for x in idx if x is not None and x is not Ellipsis)
    if any(isinstance(x, Sym) and x.hint == "b" for x in idx):
        return None
    if Ellipsis in [x for x in idx if not isinstance(x, (Sym, Arr, slice))]:
        p = [k for k, x in enumerate(idx) if x is Ellipsis][0]
        idx[p : p + 1] = [slice(None)] * (nd - used)
    else:
        idx += [slice(None)] * (nd - used)
    if sum(1 for x in idx if x is not None) != nd:
        return None
    return idx


def axes_of(ax, nd):
    if ax is None:
        return list(range(nd))
    if isint(ax):
        ax = (ax,)
    if not isinstance(ax, (tuple, list)) or not all(isint(a) for a in ax):
        return None
    return [a % nd for a in ax]


def _shape(I, v):
    op, A = v.op, v.args
    if op == "atom":
        if v.ndim is None:
            return None
        return tuple(I.mk("dim", (v, i), (), "pyi", 0, "i", traced=False, w=()) for i in range(v.ndim))
    if op in ("zeros", "ones", "full"):
        s = A[0]
        if isinstance(s, (tuple, list)):
            return tuple(s)
        if isinstance(s, Sym) and isint(I.litval(s)):
            s = I.litval(s)
        return (s,) if isint(s) or isinstance(s, Sym) and s.kind == "pyi" else None
    if op in UN:
        return shape_of(I, A[0])
    if op in BIN:
        return bcast(I, [shape_of(I, a) for a in A if a is not None])
    if op == "arange":
        xs = [I.litval(x) if I.litval(x) is not None else x for x in A if not (isinstance(x, tuple))]
        if len(xs) == 1:
            return (xs[0],)
        if all(isint(x) for x in xs):
            return (len(range(*xs)),)
        if len(xs) == 2:
            return (I.arith("sub", xs[1], xs[0]),)
        return None
    if op == "linspace":
        n = kw(v, "num", 1)
        return (50 if n is None else n,)
    if op == "mesh" and len(A) == 4:
        ds = [shape_of(I, x) for x in A[3]]
        if any(d is None or len(d) != 1 for d in ds):
            return None
        ds = [d[0] for d in ds]
        if A[2] == "xy" and len(ds) >= 2:
            ds[0], ds[1] = ds[1], ds[0]
        return tuple(ds)
    if op == "elem":
        s = shape_of(I, A[0])
        return s[1:] if s else None
    if op == "getitem":
        s = shape_of(I, A[0])
        if s is None:
            return None
        idx = norm_index(A[1], len(s))
        if idx is None:
            return None
        out, k, adv = [], 0, None
        anyarr = any(not (x is None or isinstance(x, slice) or scalar_index(x)) for x in idx)
        for x in idx:
            if x is None:
                out.append(1)
                continue
            if isinstance(x, slice):
                d = slen(I, x, s[k])
                if d is None:
                    return None
                out.append(d)
            elif not anyarr:
                pass
            else:
                sx = shape_of(I, x)
                if sx is None:
                    return None
                if adv is None:
                    adv = len(out)
                    advs = []
                advs.append(sx)
            k += 1
        if anyarr:
            b = bcast(I, advs)
            if b is None:
                return None
            out[adv:adv] = list(b)
        return tuple(out)
    if op in ("reshape", "broadcast_to"):
        if len(A) == 3 and A[1] == "idx":
            s = shape_of(I, A[0])
            if s is None:
                return None
            idx = norm_index(A[2], len(s))
            if idx is None:
                return None
            out, k = [], 0
            for x in idx:
                if x is None:
                    out.append(1)
                else:
                    out.append(s[k])
                    k += 1
            return tuple(out)
        sh = A[1] if len(A) == 2 else tuple(A[1:])
        if isinstance(sh, tuple) and len(sh) == 2 and isinstance(sh[0], str):
            sh = sh[1]
        if isint(sh) or isinstance(sh, Sym):
            sh = (sh,)
        if not isinstance(sh, (tuple, list)) or any(isinstance(x, (tuple, str)) for x in sh):
            return None
        sh = list(sh)
        if any(isint(x) and x == -1 for x in sh):
            s = shape_of(I, A[0])
            if s is None or not all(isint(x) for x in s) or not all(isint(x) for x in sh):
                if s is not None and len(sh) == 1 and len(s) == 1:
                    return s
                return None
            p = 1
            for x in s:
                p *= x
            q = 1
            for x in sh:
                if x != -1:
                    q *= x
            sh = [p // q if x == -1 else x for x in sh]
        return tuple(sh)
    if op in ("ravel", "flatten"):
        s = shape_of(I, A[0])
        if s is None:
            return None
        if len(s) == 1:
            return s
        p = s[0]
        for x in s[1:]:
            p = I.arith("mul", p, x)
        return (p,)
    if op in ("transpose", "permute_dims"):
        s = shape_of(I, A[0])
        if s is None:
            return None
        p = perm(v, len(s))
        return tuple(s[i] for i in p) if p else None
    if op in ("moveaxis", "swapaxes"):
        s = shape_of(I, A[0])
        if s is None:
            return None
        p = perm(v, len(s))
        return tuple(s[i] for i in p) if p else None
    if op == "rot90":
        s = shape_of(I, A[0])
        n = kw(v, "k", 0)
        if s is None or len(s) != 2 or not (n is None or isint(n)):
            return None
        return s[::-1] if (1 if n is None else n) % 2 else s
    if op in RED:
        s = shape_of(I, A[0])
        if s is None or kw(v, "keepdims"):
            return None
        ax = axes_of(kw(v, "axis", 0), len(s))
        if ax is None:
            return None
        return tuple(x for i, x in enumerate(s) if i not in ax)
    if op == "concatenate" and len(A) == 2 and isinstance(A[0], tuple):
        ss = [shape_of(I, x) for x in A[0]]
        ax = A[1]
        if any(s is None or len(s) != len(ss[0]) for s in ss) or not isint(ax):
            return None
        ax %= len(ss[0])
        d = 0
        for s in ss:
            d = I.arith("add", d, s[ax])
        return tuple(d if i == ax else x for i, x in enumerate(ss[0]))
    if op == "pad":
        s = shape_of(I, A[0])
        p = padspec(I, v, len(s)) if s is not None else None
        if p is None:
            return None
        return tuple(I.arith("add", I.arith("add", d, a), b) for d, (a, b) in zip(s, p))
    if op == "dynamic_slice":
        sh = kw(v, "slice_sizes", 1)
        return tuple(sh) if isinstance(sh, (tuple, list)) else None
    if op == "array":
        s = shape_of(I, A[0])
        return None if s is None else (len(A),) + s
    if op == "squeeze":
        sh = shape_of(I, A[0])
        if sh is None or len(A) > 1 or not all(isint(d) for d in sh):
            return None
        return tuple(d for d in sh if d != 1)
    if op == "einsum":
        ss = [shape_of(I, x) for x in A[1:]]
        r = ein(I, A[0], ss)
        if r is None:
            return None
        d = {}
        for l, sh in zip(r[0], ss):
            for c, n in zip(l, sh):
                if c not in d or isint(d[c]) and d[c] == 1:
                    d[c] = n
        return tuple(d[c] for c in r[1])
    if op == "ihfft":
        (n,) = shape_of(I, A[0])
        return (I.arith("add", I.arith("floordiv", n, 2), 1),)
    if op == "rfft2":
        s = shape_of(I, A[0])
        if s is None or len(s) != 2:
            return None
        return (s[0], I.arith("add", I.arith("floordiv", s[1], 2), 1))
    if op == "irfft2":
        s = shape_of(I, A[0])
        if len(A) > 1 and isinstance(A[1], (tuple, list)):
            return tuple(A[1])
        if s is None or len(s) != 2:
            return None
        return (s[0], I.arith("mul", 2, I.arith("sub", s[1], 1)))
    if op in ("fftfreq", "rfftfreq"):
        n = A[0]
        return (n if op == "fftfreq" else I.arith("add", I.arith("floordiv", n, 2), 1),)
    if op in ("interp", "polyval") and len(A) >= 2:
        return shape_of(I, A[0] if op == "interp" else A[1])
    if op == "searchsorted":
        return shape_of(I, A[1])
    if op in ("dot", "matmul"):
        a, b = shape_of(I, A[0]), shape_of(I, A[1])
        if a is None or b is None or not a or not b:
            return None
        if len(b) == 1:
            return a[:-1]
        return a[:-1] + b[:-2] + b[-1:]
    if op == "expand_dims":
        s = shape_of(I, A[0])
        ax = kw(v, "axis", 0)
        if s is None or not isint(ax):
            return None
        ax %= len(s) + 1
        return s[:ax] + (1,) + s[ax:]
    if op == "atleast_1d":
        s = shape_of(I, A[0])
        return None if s is None else s or (1,)
    if op == "diff":
        s = shape_of(I, A[0])
        return None if s is None or len(s) != 1 or len(A) > 1 else (I.arith("sub", s[0], 1),)
    if op == "eye":
        return (A[0], A[0])
    return None


def padspec(I, v, nd):
    p = kw(v, "pad_width", 0)
    m = kw(v, "mode", 1)
    if m not in (None, "constant"):
        return None
    num = lambda x: isint(x) or isinstance(x, Sym) and x.ndim == 0
    if num(p):
        return [(p, p)] * nd
    if isinstance(p, (tuple, list)) and len(p) == nd and all(isinstance(q, (tuple, list)) and len(q) == 2 for q in p):
        return [tuple(q) for q in p]
    if isinstance(p, (tuple, list)) and len(p) == 2 and all(num(q) for q in p):
        return [tuple(p)] * nd
    return None


def perm(v, nd):
    """output axis -> input axis"""
    op, A = v.op, v.args
    if op in ("transpose", "permute_dims"):
        ax = kw(v, "axes", 0)
        p = [a for a in A[1:] if isint(a)]
        if len(p) == nd:
            ax = p
        if ax is None:
            return list(range(nd))[::-1]
        return [a % nd for a in ax] if isinstance(ax, (tuple, list)) and len(ax) == nd else None
    s, d = kw(v, "source", 0), kw(v, "destination", 1)
    if op == "swapaxes":
        s, d = kw(v, "axis1", 0), kw(v, "axis2", 1)
    if not isint(s) or not isint(d):
        return None
    p = list(range(nd))
    if op == "swapaxes":
        p[s % nd], p[d % nd] = p[d % nd], p[s % nd]
        return p
    p.remove(s % nd)
    p.insert(d % nd, s % nd)
    return p


# ------------------------------------------------------------------ elements
class Cannot(Exception):
    pass


def num(F, x, k, ix):
    """integer value of a scalar index expression"""
    if isint(x):
        return x
    r, t = F.at(x, k, ix)
    if t or isinstance(r, complex) or r != r or r != int(r):
        raise Cannot
    return int(r)


def dims(F, v, k):
    s = shape_of(F.I, v)
    if s is None:
        raise Cannot
    key = ("dims", v.id if isinstance(v, Sym) else id(v), k)
    r = F.memo.get(key)
    if r is None:
        r = tuple(num(F, d, k, None) for d in s)
        F.memo[key] = r
    return r


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def unravel(n, sh):
    out = []
    for d in reversed(sh):
        out.append(n % d)
        n //= d
    return tuple(reversed(out))


def table(F, x, k, stk):
    """all elements of a 1-d array"""
    key = ("table", x.id if isinstance(x, Sym) else id(x), k, stk)
    r = F.memo.get(key)
    if r is None:
        (n,) = dims(F, x, k)
        if n > CAP:
            raise Cannot
        vs = [F.at(x, k, ((i,), stk)) for i in range(n)]
        if any(t for _, t in vs):
            raise Cannot
        r = [a for a, _ in vs]
        F.memo[key] = r
    return r


class Lazy:
    """the elements of a long monotone table, evaluated where they are looked at"""

    def __init__(self, F, x, k, stk):
        (self.n,) = dims(F, x, k)
        if self.n > 10**6:
            raise Cannot
        self.at = lambda i: F.at(x, k, ((i,), stk))

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        r, t = self.at(i + self.n if i < 0 else i)
        if t:
            raise Cannot
        return r


def ltable(F, x, k, stk):
    (n,) = dims(F, x, k)
    return Lazy(F, x, k, stk) if n > CAP else table(F, x, k, stk)


def element(F, v, k, ix):
    """(value, tainted) of array operation v at index ix, or None"""
    f = ELT.get(v.op)
    if f is None:
        return None
    if ix is None and v.op not in REDOPS:
        return None
    try:
        return f(F, v, k, ix)
    except (Cannot, IndexError, ZeroDivisionError, TypeError, ValueError, OverflowError):
        return None


def e_mesh(F, v, k, ix):
    if len(v.args) != 4:
        raise Cannot
    x, ax, how, xs = v.args
    n = len(xs)
    pos = ax
    if how == "xy" and n >= 2 and ax < 2:
        pos = 1 - ax
    return F.at(x, k, ((ix[0][pos - n],), ix[1]))


def e_arange(F, v, k, ix):
    xs = [x for x in v.args if not isinstance(x, tuple)]
    i = ix[0][-1]
    if len(xs) == 1:
        return i, False
    a, t = F.at(xs[0], k, ((), ix[1]))
    s, t2 = F.at(xs[2], k, ((), ix[1])) if len(xs) > 2 else (1, False)
    return a + s * i, t or t2


def e_linspace(F, v, k, ix):
    a, t = F.at(v.args[0], k, ((), ix[1]))
    b, t2 = F.at(v.args[1], k, ((), ix[1]))
    n = kw(v, "num", 1)
    n = 50 if n is None else num(F, n, k, None)
    ep = kw(v, "endpoint")
    m = n if ep is False else n - 1
    return a + (b - a) * ix[0][-1] / m, t or t2


def e_logspace(F, v, k, ix):
    r, t = e_linspace(F, v, k, ix)
    return 10.0**r, t


def in_index(F, idx, sh, out, k, stk, sI):
    """input position of output position `out` under index items"""
    anyarr = any(not (x is None or isinstance(x, slice) or scalar_index(x)) for x in idx)
    pos, o, ax, advpos = [], 0, 0, None
    if anyarr:
        advs = [shape_of(F.I, x) for x in idx if not (x is None or isinstance(x, slice))]
        b = bcast(F.I, advs)
        if b is None:
            raise Cannot
        na = len(b)
    for x in idx:
        if x is None:
            o += 1
            continue
        if isinstance(x, slice):
            st = 1 if x.step is None else num(F, x.step, k, None)
            lo = None if x.start is None else num(F, x.start, k, ((), stk))
            hi = None if x.stop is None else num(F, x.stop, k, ((), stk))
            a, b2, c = slice(lo, hi, st).indices(sh[ax])
            p = a + c * out[o]
            o += 1
        elif not anyarr:
            p = num(F, x, k, ((), stk))
            if p < 0:
                p += sh[ax]
        else:
            if advpos is None:
                advpos = o
                o += na
            sx = shape_of(F.I, x)
            p = num(F, x, k, (out[advpos : advpos + na][na - len(sx) :] if sx else (), stk))
            if p < 0:
                p += sh[ax]
        pos.append(min(max(p, 0), sh[ax] - 1))
        ax += 1
    return tuple(pos)


def e_getitem(F, v, k, ix):
    o, i = v.args[:2]
    sh = dims(F, o, k)
    idx = norm_index(i, len(sh))
    if idx is None:
        raise Cannot
    return F.at(o, k, (in_index(F, idx, sh, ix[0], k, ix[1], None), ix[1]))


def e_reshape(F, v, k, ix):
    A = v.args
    if len(A) == 3 and A[1] == "idx":
        o, i = A[0], A[2]
        sh = dims(F, o, k)
        idx = norm_index(i, len(sh))
        return F.at(o, k, (tuple(p for p, x in zip(ix[0], idx) if x is not None), ix[1]))
    si = dims(F, A[0], k)
    so = dims(F, v, k)
    if prod(si) != prod(so):
        raise Cannot
    n = 0
    for p, d in zip(ix[0] if ix else (), so):
        n = n * d + p
    return F.at(A[0], k, (unravel(n, si), ix[1] if ix else ()))


def e_broadcast(F, v, k, ix):
    return F.at(v.args[0], k, ix)


def e_perm(F, v, k, ix):
    nd = len(ix[0])
    p = perm(v, nd)
    if p is None:
        raise Cannot
    q = [0] * nd
    for o, i in enumerate(p):
        q[i] = ix[0][o]
    return F.at(v.args[0], k, (tuple(q), ix[1]))


def e_flip(F, v, k, ix):
    sh = dims(F, v.args[0], k)
    ax = kw(v, "axis", 0)
    if v.op == "flipud":
        ax = 0
    elif v.op == "fliplr":
        ax = 1
    axs = axes_of(ax, len(sh))
    return F.at(v.args[0], k, (tuple(d - 1 - p if a in axs else p for a, (p, d) in enumerate(zip(ix[0], sh))), ix[1]))


def e_rot90(F, v, k, ix):
    n = kw(v, "k", 0)
    n = (1 if n is None else n) % 4
    j, i = ix[0]
    so = dims(F, v.args[0], k)
    h, w = so
    if n == 1:
        p = (i, w - 1 - j)
    elif n == 2:
        p = (h - 1 - j, w - 1 - i)
    elif n == 3:
        p = (h - 1 - i, j)
    else:
        p = (j, i)
    return F.at(v.args[0], k, (p, ix[1]))


def e_roll(F, v, k, ix):
    sh = dims(F, v.args[0], k)
    s, ax = kw(v, "shift", 0), kw(v, "axis", 1)
    if ax is None:
        if len(sh) != 1:
            raise Cannot
        ax = 0
    axs = axes_of(ax, len(sh))
    ss = list(s) if isinstance(s, (tuple, list)) else s.e if isinstance(s, Arr) else [s] * len(axs)
    p = list(ix[0])
    for a, x in zip(axs, ss):
        p[a] = (p[a] - num(F, x, k, ((), ix[1]))) % sh[a]
    return F.at(v.args[0], k, (tuple(p), ix[1]))


def e_fftshift(F, v, k, ix):
    sh = dims(F, v.args[0], k)
    axs = axes_of(kw(v, "axes", 0), len(sh))
    p = list(ix[0])
    for a in axs:
        p[a] = (p[a] + (-(sh[a] // 2) if v.op == "fftshift" else sh[a] // 2)) % sh[a]
    return F.at(v.args[0], k, (tuple(p), ix[1]))


def e_at(F, v, k, ix):
    x, i, y = v.args[:3]
    sh = dims(F, x, k)
    kind = v.op[3:]
    old = lambda: F.at(x, k, ix)
    its = i if isinstance(i, tuple) else (i,)
    if len(its) == 1 and isinstance(its[0], Sym) and its[0].hint == "b":
        c, t = F.at(its[0], k, ix)
        if t:
            raise Cannot
        if not c:
            return old()
        if shape_of(F.I, y) != ():
            raise Cannot
        return combine(F, kind, x, k, ix, F.at(y, k, ((), ix[1])))
    idx = norm_index(i, len(sh))
    if idx is None:
        raise Cannot
    if any(not (e is None or isinstance(e, slice) or scalar_index(e)) for e in idx):
        # index arrays: the last matching update wins (set) or all add up (add)
        if not all(isinstance(e, (Sym, Arr)) or isint(e) for e in idx):
            raise Cannot
        n = None
        for e in idx:
            s = dims(F, e, k) if not isint(e) else ()
            if len(s) == 1:
                n = s[0]
            elif len(s) > 1:
                raise Cannot
        if n is None or n > 400:
            raise Cannot
        r = None
        acc, tt = (None, False)
        ys = shape_of(F.I, y)
        for m in range(n):
            pos = []
            for e, d in zip(idx, sh):
                p = num(F, e, k, ((m,), ix[1])) if not isint(e) and shape_of(F.I, e) else num(F, e, k, ((), ix[1]))
                pos.append(p + d if p < 0 else p)
            if tuple(pos) == tuple(ix[0]):
                w, t = F.at(y, k, ((m,) if ys else (), ix[1]))
                tt = tt or t
                if kind == "set":
                    acc = w
                elif kind == "add":
                    acc = w if acc is None else acc + w
                else:
                    raise Cannot
        if acc is None:
            return old()
        return combine(F, kind, x, k, ix, (acc, tt))
    rel, ax = [], 0
    for e in idx:
        if e is None:
            raise Cannot
        p = ix[0][ax]
        if isinstance(e, slice):
            st = 1 if e.step is None else num(F, e.step, k, None)
            lo = None if e.start is None else num(F, e.start, k, ((), ix[1]))
            hi = None if e.stop is None else num(F, e.stop, k, ((), ix[1]))
            r = range(*slice(lo, hi, st).indices(sh[ax]))
            if p not in r:
                return old()
            rel.append(r.index(p))
        else:
            q = num(F, e, k, ((), ix[1]))
            if q < 0:
                q += sh[ax]
            if q != p:
                return old()
        ax += 1
    return combine(F, kind, x, k, ix, F.at(y, k, (tuple(rel), ix[1])))


def combine(F, kind, x, k, ix, w):
    if kind == "set":
        return w
    o, t = F.at(x, k, ix)
    w, t2 = w
    r = {"add": lambda: o + w, "subtract": lambda: o - w, "mul": lambda: o * w, "multiply": lambda: o * w, "divide": lambda: o / w, "power": lambda: o**w, "max": lambda: max(o, w), "min": lambda: min(o, w)}.get(kind)
    if r is None:
        raise Cannot
    return r(), t or t2


def e_dynslice(F, v, k, ix):
    st, sz = kw(v, "start_indices", 0), kw(v, "slice_sizes", 1)
    sh = dims(F, v.args[0], k)
    st = list(st) if isinstance(st, (tuple, list)) else list(st.e)
    pos = []
    for p, s, z, d in zip(ix[0], st, sz, sh):
        a = num(F, s, k, ((), ix[1]))
        if a < 0:
            a += d
        a = min(max(a, 0), d - num(F, z, k, None))
        pos.append(a + p)
    return F.at(v.args[0], k, (tuple(pos), ix[1]))


def e_dus(F, v, k, ix):
    x, u, st = v.args[:3]
    sh, su = dims(F, x, k), dims(F, u, k)
    st = list(st) if isinstance(st, (tuple, list)) else list(st.e)
    rel = []
    for p, s, z, d in zip(ix[0], st, su, sh):
        a = num(F, s, k, ((), ix[1]))
        if a < 0:
            a += d
        a = min(max(a, 0), d - z)
        if not a <= p < a + z:
            return F.at(x, k, ix)
        rel.append(p - a)
    return F.at(u, k, (tuple(rel), ix[1]))


def e_pad(F, v, k, ix):
    sh = dims(F, v.args[0], k)
    ps = padspec(F.I, v, len(sh))
    if ps is None:
        raise Cannot
    pos = []
    for p, (a, b), d in zip(ix[0], ps, sh):
        q = p - num(F, a, k, None)
        if not 0 <= q < d:
            cv = kw(v, "constant_values")
            return (0.0, False) if cv is None else F.at(cv, k, ((), ix[1]))
        pos.append(q)
    return F.at(v.args[0], k, (tuple(pos), ix[1]))


def e_concat(F, v, k, ix):
    if len(v.args) != 2 or not isinstance(v.args[0], tuple):
        raise Cannot
    xs, ax = v.args
    nd = len(ix[0])
    ax %= nd
    p = ix[0][ax]
    for x in xs:
        d = dims(F, x, k)[ax]
        if p < d:
            return F.at(x, k, (ix[0][:ax] + (p,) + ix[0][ax + 1 :], ix[1]))
        p -= d
    raise Cannot


def e_array(F, v, k, ix):
    return F.at(v.args[ix[0][0]], k, (ix[0][1:], ix[1]))


def e_vmapped(F, v, k, ix):
    y = v.args[0]
    if not (v.extra and v.extra.get("vm")):
        return F.at(y, k, ix)
    r = shape_of(F.I, y)
    if r is None:
        raise Cannot
    n = len(ix[0])
    if n < len(r) + 1:
        raise Cannot
    b = n - len(r) - 1
    return F.at(y, k, (ix[0][b + 1 :], ix[1] + (ix[0][b],)))


def e_elem(F, v, k, ix):
    if ix is None:
        return F.at(v.args[0], k, None)
    if not ix[1]:
        return F.at(v.args[0], k, ix)
    return F.at(v.args[0], k, ((ix[1][-1],) + ix[0], ix[1][:-1]))


def fold_values(op, vs):
    if op == "sum" or op == "nansum":
        return sum(vs)
    if op == "prod":
        return prod(vs)
    if op == "max":
        return max(vs)
    if op == "min":
        return min(vs)
    if op == "mean":
        return sum(vs) / len(vs)
    if op == "any":
        return any(bool(x) for x in vs)
    if op == "all":
        return all(bool(x) for x in vs)
    if op == "std":
        m = sum(vs) / len(vs)
        return (sum((x - m) ** 2 for x in vs) / len(vs)) ** 0.5
    if op == "median":
        s = sorted(vs)
        n = len(s)
        return s[n // 2] if n % 2 else 0.5 * (s[n // 2 - 1] + s[n // 2])
    if op == "argmax":
        return vs.index(max(vs))
    if op == "argmin":
        return vs.index(min(vs))
    raise Cannot


def e_red(F, v, k, ix):
    x = v.args[0]
    stk = ix[1] if ix else ()
    sh = dims(F, x, k)
    if v.op in ("max", "min") and len([a for a in v.args if isinstance(a, (Sym, float))]) > 1 and kw(v, "axis") is None:
        raise Cannot
    if not sh:
        return F.at(x, k, ((), stk))
    if any(isinstance(a, tuple) and len(a) == 2 and a[0] not in ("axis", "dtype", "keepdims") for a in v.args[1:]):
        raise Cannot
    if kw(v, "keepdims"):
        raise Cannot
    axs = axes_of(kw(v, "axis", 0), len(sh))
    if axs is None or prod(sh[a] for a in axs) > CAP or prod(sh[a] for a in axs) == 0:
        raise Cannot
    keep = [a for a in range(len(sh)) if a not in axs]
    out = ix[0][-len(keep) :] if keep else ()
    if len(out) != len(keep):
        raise Cannot
    pos = [0] * len(sh)
    for a, p in zip(keep, out):
        pos[a] = p
    vs, t = [], False
    rs = [sh[a] for a in axs]
    for n in range(prod(rs)):
        for a, p in zip(axs, unravel(n, rs)):
            pos[a] = p
        y, ty = F.at(x, k, (tuple(pos), stk))
        t = t or ty
        vs.append(y)
    if t:
        raise Cannot
    return fold_values(v.op, vs), False


def e_cumsum(F, v, k, ix):
    x = v.args[0]
    sh = dims(F, x, k)
    if len(sh) != 1:
        raise Cannot
    tb = table(F, x, k, ix[1])
    return sum(tb[: ix[0][-1] + 1]), False


def e_diff(F, v, k, ix):
    tb = table(F, v.args[0], k, ix[1])
    i = ix[0][-1]
    return tb[i + 1] - tb[i], False


def e_sort(F, v, k, ix):
    tb = table(F, v.args[0], k, ix[1])
    if v.op == "argsort":
        return sorted(range(len(tb)), key=lambda i: tb[i])[ix[0][-1]], False
    return sorted(tb)[ix[0][-1]], False


def ein(I, spec, ss):
    """index letters of the operands and of the result of an einsum, or None"""
    if not isinstance(spec, str) or "->" not in spec and "," not in spec:
        return None
    ins, _, out = spec.replace(" ", "").partition("->")
    ins = ins.split(",")
    if len(ins) != len(ss) or any(s is None for s in ss):
        return None
    n = 0
    r = []
    for t, s in zip(ins, ss):
        m = len(s) - len(t.replace("...", ""))
        if m < 0 or m and "..." not in t:
            return None
        n = max(n, m)
        r.append(t.replace("...", "ABCDEF"[6 - m :] if m else ""))
    if "->" in spec:
        o = out.replace("...", "ABCDEF"[6 - n :] if n else "")
    else:
        cs = "".join(r)
        o = ("ABCDEF"[6 - n :] if n else "") + "".join(sorted(c for c in set(cs) if cs.count(c) == 1 and c.islower()))
    return r, o


def e_einsum(F, v, k, ix):
    xs = v.args[1:]
    r = ein(F.I, v.args[0], [shape_of(F.I, x) for x in xs])
    if r is None:
        raise Cannot
    ins, out = r
    size = {}
    for t, x in zip(ins, xs):
        for c, d in zip(t, dims(F, x, k)):
            if size.get(c, 1) not in (1, d) and d != 1:
                raise Cannot
            size[c] = max(d, size.get(c, 1))
    stk = ix[1] if ix else ()
    pos = dict(zip(out, ix[0][len(ix[0]) - len(out) :] if ix and out else ()))
    free = [c for c in size if c not in out]
    if len(pos) != len(out) or prod([size[c] for c in free]) > CAP:
        raise Cannot
    import itertools

    tot, t = 0, False
    for p in itertools.product(*[range(size[c]) for c in free]):
        at = dict(pos, **dict(zip(free, p)))
        y = 1
        for l, x in zip(ins, xs):
            d = dims(F, x, k)
            q, tx = F.at(x, k, (tuple(0 if n == 1 else at[c] for c, n in zip(l, d)), stk))
            y *= q
            t = t or tx
        tot += y
    return tot, t


def e_dot(F, v, k, ix):
    a, b = v.args[:2]
    sa, sb = dims(F, a, k), dims(F, b, k)
    stk = ix[1] if ix else ()
    out = ix[0] if ix else ()
    if not sa or not sb:
        raise Cannot
    n = sa[-1]
    m = sb[0] if len(sb) == 1 else sb[-2]
    if n != m or n > CAP:
        raise Cannot
    na = len(sa) - 1
    oa, ob = out[:na], out[na:]
    s, t = 0, False
    for i in range(n):
        x, tx = F.at(a, k, (oa + (i,), stk))
        y, ty = F.at(b, k, (((i,) if len(sb) == 1 else ob[:-1] + (i,) + ob[-1:]), stk))
        t = t or tx or ty
        s += x * y
    return s, t


def e_interp(F, v, k, ix):
    if len(v.args) < 3:
        raise Cannot
    x, xp, fp = v.args[:3]
    stk = ix[1] if ix else ()
    q, t = F.at(x, k, ix)
    tx, tf = ltable(F, xp, k, stk), ltable(F, fp, k, stk)
    left, right = kw(v, "left", 2), kw(v, "right", 3)
    if q < tx[0]:
        return (tf[0], t) if left is None else F.at(left, k, ((), stk))
    if q > tx[-1]:
        return (tf[-1], t) if right is None else F.at(right, k, ((), stk))
    import bisect

    i = min(max(bisect.bisect_right(tx, q), 1), len(tx) - 1)
    w = (q - tx[i - 1]) / (tx[i] - tx[i - 1])
    return tf[i - 1] + w * (tf[i] - tf[i - 1]), t


def e_searchsorted(F, v, k, ix):
    import bisect

    a, x = v.args[:2]
    stk = ix[1] if ix else ()
    tb = table(F, a, k, stk)
    q, t = F.at(x, k, ix)
    side = kw(v, "side")
    return (bisect.bisect_right if side == "right" else bisect.bisect_left)(tb, q), t


def e_polyval(F, v, k, ix):
    stk = ix[1] if ix else ()
    tb = table(F, v.args[0], k, stk)
    x, t = F.at(v.args[1], k, ix)
    r = 0.0
    for c in tb:
        r = r * x + c
    return r, t


def e_fft(F, v, k, ix):
    """2-d discrete Fourier transforms of a small array, element by element"""
    import cmath

    x = v.args[0]
    sh = dims(F, x, k)
    if len(sh) != 2 or prod(sh) > 400:
        raise Cannot
    inv = v.op in ("ifft2", "irfft2")
    ny, nx = sh
    cols = range(nx)
    n1 = nx
    if v.op == "irfft2":
        n1 = dims(F, v, k)[1]
        if len(v.args) > 1 and dims(F, v, k)[0] != ny:
            raise Cannot
    s = 0
    j, i = ix[0]
    sg = 1 if inv else -1
    for b in range(ny):
        for a in range(n1):
            if v.op == "irfft2" and a >= n1 // 2 + 1:
                bb, aa, cj = (-b) % ny, n1 - a, True
            else:
                bb, aa, cj = b, a, False
            y, t = F.at(x, k, ((bb, aa), ix[1]))
            if t:
                raise Cannot
            if cj:
                y = y.conjugate() if isinstance(y, complex) else y
            s += y * cmath.exp(sg * 2j * cmath.pi * (j * b / ny + i * a / n1))
    if inv:
        s /= ny * n1
    return (s.real if v.op == "irfft2" else s), False


def e_eye(F, v, k, ix):
    return (1.0 if ix[0][-1] == ix[0][-2] else 0.0), False


def e_tri(F, v, k, ix):
    j, i = ix[0][-2:]
    if len(v.args) > 1:
        raise Cannot
    if (i <= j) if v.op == "tril" else (i >= j):
        return F.at(v.args[0], k, ix)
    return 0.0, False


def e_ihfft(F, v, k, ix):
    import cmath

    x = table(F, v.args[0], k, ix[1] if ix else ())
    j = ix[0][-1]
    return sum(a * cmath.exp(2j * cmath.pi * j * m / len(x)) for m, a in enumerate(x)) / len(x), False


def e_fftfreq(F, v, k, ix):
    n = num(F, v.args[0], k, None)
    d = v.args[1] if len(v.args) > 1 else 1.0
    dv, t = F.at(d, k, None)
    i = ix[0][-1]
    if v.op == "fftfreq" and i > (n - 1) // 2:
        i -= n
    return i / (n * dv), t


def e_atleast(F, v, k, ix):
    n = len(shape_of(F.I, v.args[0]))
    return F.at(v.args[0], k, (ix[0][len(ix[0]) - n :], ix[1])) if n else F.at(v.args[0], k)


def e_expand(F, v, k, ix):
    ax = kw(v, "axis", 0)
    n = len(ix[0])
    ax %= n
    return F.at(v.args[0], k, (ix[0][:ax] + ix[0][ax + 1 :], ix[1]))


ELT = {
    "mesh": e_mesh, "arange": e_arange, "linspace": e_linspace, "logspace": e_logspace, "getitem": e_getitem, "reshape": e_reshape, "ravel": e_reshape, "flatten": e_reshape, "broadcast_to": e_broadcast,
    "transpose": e_perm, "moveaxis": e_perm, "swapaxes": e_perm, "permute_dims": e_perm, "flip": e_flip, "flipud": e_flip, "fliplr": e_flip, "rot90": e_rot90, "roll": e_roll,
    "fftshift": e_fftshift, "ifftshift": e_fftshift, "dynamic_slice": e_dynslice, "dus": e_dus, "pad": e_pad, "concatenate": e_concat, "array": e_array, "vmapped": e_vmapped, "elem": e_elem,
    "cumsum": e_cumsum, "diff": e_diff, "sort": e_sort, "argsort": e_sort, "dot": e_dot, "matmul": e_dot, "interp": e_interp, "searchsorted": e_searchsorted, "polyval": e_polyval,
    "rfft2": e_fft, "fft2": e_fft, "ifft2": e_fft, "irfft2": e_fft, "ihfft": e_ihfft, "einsum": e_einsum, "squeeze": e_reshape, "eye": e_eye, "tril": e_tri, "triu": e_tri, "fftfreq": e_fftfreq, "rfftfreq": e_fftfreq, "expand_dims": e_expand, "atleast_1d": e_atleast, "atleast_2d": e_atleast,
}
for _n in ("set", "add", "mul", "multiply", "subtract", "divide", "power", "max", "min"):
    ELT["at_" + _n] = e_at
for _n in RED:
    ELT[_n] = e_red
REDOPS = RED | {"dot", "squeeze", "einsum", "matmul", "interp", "searchsorted", "elem", "polyval"}
