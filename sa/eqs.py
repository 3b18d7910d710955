"""Algebraic laws decided over the abstract domain.

A law is a short program over abstract inputs followed by pairs of expressions
that must denote the same value.  The program is interpreted on every path; the
two results are compared by value numbering and, where that is not conclusive,
by the arithmetic fingerprint of their terms at valuations consistent with the
conditions the path has assumed."""
import itertools

from . import fp as fpm
from .core import *

N = 24
MIN = 2


def points(I, F):
    """valuation indices that satisfy the conditions of the current path"""
    ks, unk = _points(I, F, [t for t in I.truthlog if isinstance(t[0], Sym)])
    if len(ks) < MIN:
        # conditions on integers only (shapes, pixel indices) are dropped
        ks, unk = _points(I, F, [t for t in I.truthlog if isinstance(t[0], Sym) and not integral(I, t[0])])
    return ks, unk


def integral(I, t):
    if t.op not in ("eq", "le", "lt"):
        return False
    for a in t.args:
        if isinstance(a, Sym):
            ds = vdeps(I, a)
            if not ds and a.lit is None:
                return False
            for d in ds:
                sp = zoo.ATOMS.get(d)
                if sp is None or sp[2] != "i":
                    return False
        elif not isinstance(a, (int, str, Ext)):
            return False
    return True


def _points(I, F, conds):
    out = []
    unk = False
    for k in range(N):
        ok = True
        for t, b in conds:
            x, tx = F.at(t, k)
            if tx or fpm.isnan(x):
                if not benign(I, t):
                    unk = True
                continue
            if bool(x) != b:
                ok = False
                break
        if ok:
            out.append(k)
            if len(out) >= 16:
                break
    return out, unk


def benign(I, t):
    return t.op in ("isnan", "isfinite")


def cmp(I, a, b, F, ks, path="", seen=None, tol=1e-8):
    """(verdict, where, detail) for two abstract values at the given valuations"""
    if a is b:
        return True, path, ""
    num = (bool, int, float, complex)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False, path + ":len", "%d/%d" % (len(a), len(b))
        return join(cmp(I, x, y, F, ks, path + "[%d]" % i, seen, tol) for i, (x, y) in enumerate(zip(a, b)))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.shape == b.shape and not a.lead and not b.lead:
        return join(cmp(I, x, y, F, ks, path + "[%d]" % i, seen, tol) for i, (x, y) in enumerate(zip(flat(a), flat(b))))
    if isinstance(a, (Sym, Arr) + num) and isinstance(b, (Sym, Arr) + num):
        va = I.vbase(a) if isinstance(a, Sym) else a
        vb = I.vbase(b) if isinstance(b, Sym) else b
        if va is vb:
            return True, path, ""
        if isinstance(va, Sym) and isinstance(vb, Sym) and I.key(va) == I.key(vb):
            return True, path, ""
        sa, sb = shape(I, va), shape(I, vb)
        good = bad = 0
        det = ""
        for n, k in enumerate(ks):
            na, nb = dims(F, sa, k), dims(F, sb, k)
            if na is not None and nb is not None and na != nb:
                return False, path + ":shape", "%s/%s" % (na, nb)
            m = na if na is not None else nb
            if m is not None and 0 in m:
                good += 1
                continue
            for ix in places(m, k, n):
                x, tx = F.at(va, k, ix)
                y, ty = F.at(vb, k, ix)
                if fpm.isnan(x) or fpm.isnan(y):
                    if fpm.isnan(x) != fpm.isnan(y) and not (tx or ty):
                        det = "%r/%r" % (x, y)
                        bad += 1
                    continue
                if x == y or (abs(x - y) <= tol * max(abs(x), abs(y)) + 1e-11) if not isinstance(x, bool) else x == y:
                    good += 1
                elif not (tx or ty):
                    bad += 1
                    det = "%.6g/%.6g" % (x.real, y.real) if isinstance(x, (int, float)) and isinstance(y, (int, float)) else "%s/%s" % (x, y)
                    if ix:
                        det += " at element %s" % (ix[0],)
                else:
                    return None, path, "uninterpreted operation" 
        if bad:
            return False, path, det
        return (True if good >= MIN else None), path, ""
    if isinstance(a, Obj) and isinstance(b, Obj):
        if seen is None:
            seen = set()
        if (id(a), id(b)) in seen:
            return True, path, ""
        seen.add((id(a), id(b)))
        if a.cls is not b.cls:
            return False, path + ":class", "%s/%s" % (a.cls.name, b.cls.name)
        return join(cmp(I, a.attrs[n], b.attrs[n], F, ks, "%s.%s" % (path, n), seen, tol) for n in sorted(set(a.attrs) & set(b.attrs)))
    if isinstance(a, dict) and isinstance(b, dict):
        if set(map(str, a)) != set(map(str, b)):
            return False, path + ":keys", "%s/%s" % (sorted(map(str, a)), sorted(map(str, b)))
        bb = {str(k): v for k, v in b.items()}
        return join(cmp(I, v, bb[str(k)], F, ks, path + "[%s]" % k, seen, tol) for k, v in a.items())
    r = same(I, a, b, path)
    return r[0], r[1], ""


def shape(I, v):
    if isinstance(v, Sym) and v.ndim == 0 or isinstance(v, (bool, int, float, complex)):
        return ()
    if isinstance(v, Sym) and v.kind in ("pyf", "pyi", "pyb"):
        return ()
    return fpm.elt.shape_of(I, v)


def dims(F, sh, k):
    if sh is None:
        return None
    out = []
    for d in sh:
        x, t = F.at(d, k)
        if t or fpm.isnan(x):
            return None
        out.append(int(x))
    return tuple(out)


def places(m, k, n):
    """elements of an array of shape `m` examined at valuation k"""
    if m is None or m == ():
        return [None]
    size = 1
    for d in m:
        size *= d
    if size <= 6:
        return [(p, ()) for p in itertools.product(*[range(d) for d in m])]
    out = [tuple(0 for d in m), tuple(d - 1 for d in m)][n % 2 : n % 2 + 1]
    for j in range(3):
        out.append(tuple(int(fpm.h01("place", k, j, a) * d) for a, d in enumerate(m)))
    return [(p, ()) for p in out]


def join(rs):
    worst = (True, "", "")
    for r in rs:
        if r[0] is False:
            return r
        if r[0] is None:
            worst = r
    return worst


def law(I, R, name, src, pairs, traced=True, spec=None, vals=None, cap=16, tol=1e-8, where="", stage=False, prune=False, exact=0, summ=None):
    """decide a law; obligations are recorded in R under `name [label]`"""
    pairs = [(p if len(p) == 3 else (p[0] + " == " + p[1],) + tuple(p)) for p in pairs]

    def h(I):
        env = zoo.AtomEnv(I, traced, spec=spec)
        I.staging = stage
        prev = I.assume
        I.exact = (exact, fpm.Fp(I, dict(vals or {})), N) if exact else None
        if summ:
            I.intercept = lambda I, fn, a, k: I.call(Ext(summ[fn.qual]), list(a), dict(k)) if fn.qual in summ else NotImplemented
        if prune:
            I.assume = pruner(prev, vals)
        try:
            if src:
                r = catch(I, lambda: zoo.exec_in(I, src, env))
                if r[0] == "raise":
                    return ("empty",) if unreachable(I, vals) else ("raise", reached(I, vals)) + r[1:]
            out = []
            for lab, x, y in pairs:
                a = catch(I, lambda: zoo.eval_in(I, x, env))
                b = catch(I, lambda: zoo.eval_in(I, y, env))
                if a[0] == "raise" or b[0] == "raise":
                    if a[0] == b[0] == "raise":
                        out.append((lab, "skip", "both raise %s %s" % (a[1], a[2]), ""))
                    else:
                        e = a if a[0] == "raise" else b
                        if unreachable(I, vals):
                            out.append((lab, "empty", "no valuation satisfies the path conditions", ""))
                            continue
                        out.append((lab, False if reached(I, vals) else "raise", "%s raises %s %s" % (x if a[0] == "raise" else y, e[1], e[2]), e[3]))
                    continue
                F = fpm.Fp(I, dict(pins(I), **(vals or {})))
                ks, unk = points(I, F)
                if len(ks) < MIN:
                    out.append((lab, "empty", "no valuation satisfies the path conditions", ""))
                    continue
                v, w, det = cmp(I, a[1], b[1], F, ks, tol=tol)
                if v is False and unk:
                    v = "maybe"
                out.append((lab, v, "%s %s" % (w, det), ""))
            return ("ok", out)
        finally:
            I.staging = False
            I.exact = I.intercept = None
            I.assume = prev

    res = run(I, h, cap)
    per = {}
    setup = []
    giveup = reach = 0
    for r in res:
        if not r.ok:
            giveup += 1
            R.undec(name, r.res)
            continue
        if r.res[0] == "raise":
            setup.append(r.res)
            reach += r.res[1]
            continue
        if r.res[0] == "empty":
            continue
        for lab, v, d, w in r.res[1]:
            per.setdefault(lab, []).append((v, d, w))
    if reach:
        s = [x for x in setup if x[1]][0]
        R.violate("law", "%s: setup" % name, "raises %s %s" % (s[2], s[3]), where)
        return
    if not per:
        if setup and not giveup:
            s = setup[0]
            if len(res) < cap:
                R.violate("law", "%s: setup" % name, "every path raises %s %s" % (s[2], s[3]), where)
            else:
                R.undec(name, "every path raises %s %s" % (s[2], s[3]))
        return
    for lab, vs in per.items():
        key = "%s: %s" % (name, lab)
        if all(x[0] in ("skip", "empty") for x in vs) and any(x[0] == "skip" for x in vs) and not giveup and len(res) < cap:
            R.violate("law", key, [x for x in vs if x[0] == "skip"][0][1], where)
            continue
        vs = [x for x in vs if x[0] not in ("skip", "empty")] or [(None,) + vs[0][1:]]
        fs = [x for x in vs if x[0] is False]
        ms = [x for x in vs if x[0] in ("maybe", "raise")]
        if fs or (ms and len(ms) == len(vs) and not giveup and len(res) < cap):
            x = (fs or ms)[0]
            R.violate("law", key, x[1], where)
        elif any(x[0] is None or x[0] in ("maybe", "raise") for x in vs):
            R.undec(key, [x for x in vs if x[0] is not True][0])
        else:
            R.hold(key)


def reached(I, vals):
    """some valuations satisfy every condition of the path, all of them decided"""
    F = fpm.Fp(I, dict(pins(I), **(vals or {})))
    if any(not isinstance(t[0], (Sym, bool, int, float)) for t in I.truthlog):
        return False
    ks, unk = _points(I, F, [t for t in I.truthlog if isinstance(t[0], Sym)])
    return len(ks) >= MIN and not unk


def unreachable(I, vals):
    """no valuation of the inputs satisfies the conditions of the path"""
    ks, unk = points(I, fpm.Fp(I, dict(pins(I), **(vals or {}))))
    return not ks and not unk


def pruner(prev, vals):
    """assume inequalities that have one value at every valuation of the path"""

    def f(I, v):
        r = prev(I, v)
        if r is not None or not isinstance(v, Sym) or v.op == "atom" or v.op == "eq" and any(isinstance(a, Sym) and I.vbase(a).op == "atom" for a in v.args):
            return r
        F = fpm.Fp(I, dict(pins(I), **(vals or {})))
        bs = set()
        for k in range(N):
            if any((lambda x, tx: not tx and not fpm.isnan(x) and bool(x) != b)(*F.at(t, k)) for t, b in I.truthlog if isinstance(t, Sym)):
                continue
            x, tx = F.at(v, k)
            if tx or fpm.isnan(x):
                return None
            bs.add(bool(x))
            if len(bs) > 1:
                return None
        return bs.pop() if bs else None

    return f


def pins(I):
    p = {}
    for t, b in I.truthlog:
        if b and isinstance(t, Sym) and t.op == "eq":
            for x, y in (t.args, t.args[::-1]):
                ly = lit_of(I, y)
                vx = I.vbase(x) if isinstance(x, Sym) else None
                if isinstance(ly, (int, float)) and vx is not None and vx.op == "atom":
                    p[vx.args[0]] = ly
    return p


def must_raise(I, R, name, src, exc=None, traced=False, spec=None, cap=16, where="", stage=False):
    """every path of the statements raises (one of `exc`)"""

    def certain(I, t):
        F = fpm.Fp(I, {})
        return all((lambda x, tx: not tx and not fpm.isnan(x) and bool(x))(*F.at(t, k)) for k in range(6))

    def h(I):
        env = zoo.AtomEnv(I, traced, spec=spec)
        I.staging = stage
        I.errors = certain
        try:
            r = catch(I, lambda: zoo.exec_in(I, src, env))
            return ("empty",) if r[0] == "ok" and unreachable(I, None) else r
        finally:
            I.staging = False
            I.errors = None

    res = run(I, h, cap)
    oks, bad, un = 0, None, None
    for r in res:
        if not r.ok:
            un = r.res
        elif r.res[0] == "empty":
            continue
        elif r.res[0] == "ok":
            bad = "accepted"
        elif exc and not any(is_sub(I, r.res[1], e) for e in ([exc] if isinstance(exc, str) else exc)):
            bad = "raises %s (%s) instead of %s" % (r.res[1], r.res[2], exc)
        else:
            oks += 1
    if bad and (not oks or not un):
        R.violate("must-raise", name, bad, where)
    elif un is not None or bad or not oks:
        R.undec(name, un or bad)
    else:
        R.hold(name)


EXC = {
    "GalSimValueError": ("GalSimError", "ValueError", "RuntimeError"), "GalSimRangeError": ("GalSimError", "ValueError", "RuntimeError"), "GalSimBoundsError": ("GalSimError", "ValueError", "RuntimeError"),
    "GalSimUndefinedBoundsError": ("GalSimError", "RuntimeError"), "GalSimImmutableError": ("GalSimError", "RuntimeError"), "GalSimIncompatibleValuesError": ("GalSimError", "ValueError", "TypeError", "RuntimeError"),
    "GalSimNotImplementedError": ("GalSimError", "NotImplementedError", "RuntimeError"), "GalSimKeyError": ("GalSimError", "KeyError"), "GalSimIndexError": ("GalSimError", "IndexError"), "GalSimFFTSizeError": ("GalSimError", "RuntimeError"),
    "FrozenInstanceError": ("AttributeError",), "ZeroDivisionError": ("ArithmeticError",), "NotImplementedError": ("RuntimeError",), "KeyError": ("LookupError",), "IndexError": ("LookupError",),
}


def is_sub(I, n, e):
    if n == e or e == "Exception":
        return True
    return e in EXC.get(n, ())


def grouped(obls):
    """[(name, src, pair)] -> [(name, src, [pairs])]"""
    d = {}
    for n, s, p in obls:
        d.setdefault((n, s), []).append(p)
    return [(n, s, ps) for (n, s), ps in d.items()]


def laws(I, R, name, src, pairs, **kw):
    """all pairs on shared paths; pairs left open are decided on their own"""
    held, und, viol = dict(R.held), dict(R.undecided), dict(R.viol)
    law(I, R, name, src, pairs, **kw)
    if len(pairs) > 1:
        new = [k for k in R.undecided if k not in und] + [k for k in R.viol if k not in viol]
        done = [k for k in R.held if k not in held]
        if new or not done:
            R.undecided, R.viol = und, viol
            for p in pairs:
                lab = p[0] if len(p) == 3 else p[0] + " == " + p[1]
                if "%s: %s" % (name, lab) not in R.held:
                    law(I, R, name, src, [p], **kw)
