"""P04: repr() is an expression that rebuilds the object."""
from ..core import *
from .p01 import show
from .p03 import classes
import ast

# the wcs of the stored image is not part of the identity of an InterpolatedImage
# (its __eq__ ignores it, as in GalSim); the allocation masks of a PhotonArray
# depend on array contents
NO_PROPS = {"InterpolatedImage", "PhotonArray"}


def main():
    I = interp()
    R = Report(
        "P04",
        "repr of every public class, read as a template with the formatted values as holes, is an expression over the package namespace whose value equals the original; no hole formats a raw jax array",
        45,
        "Abstract interpretation of __repr__ to a string template, parsing of the template and abstract evaluation of the result; comparison by value numbers.",
    )
    # AngleUnit: the five named units are covered by the package constants
    items = [(c, v, s, "num") for c, v, s in classes(I) if not (c == "Image" and v in ("dyn", "drawn", "phot"))]
    parallel(R, items, one)
    return R.finish(I)


def one(I, R, cn, var, src, mode):
    name = "%s%s" % (cn, "[%s]" % var if var else "")

    def h(I):
        env = zoo.AtomEnv(I, False)
        o = zoo.eval_in(I, src, env)
        env["o"] = o
        rep = zoo.eval_in(I, "repr(o)", env)
        parts = [rep] if isinstance(rep, str) else rep.parts if isinstance(rep, FmtStr) else None
        if parts is None:
            raise GiveUp("repr is %r" % (rep,))
        text, holes, raw = "", {}, []
        for p in parts:
            if isinstance(p, str):
                text += p
                continue
            conv, v = p
            n = "_h%d_" % len(holes)
            if isinstance(v, (Sym, Arr)) and (isinstance(v, Arr) or v.kind == "jax"):
                raw.append((conv, show(v)))
            if conv != "r" and isinstance(v, str):
                text += v
                continue
            holes[n] = v
            text += n
        if raw:
            return "raw", raw, text
        e2 = zoo.AtomEnv(I, False)
        dict.update(e2, holes)
        e2["galsim"] = I.mods["jax_galsim"]
        e2["array"] = Ext("numpy.array")
        for n in ("float32", "float64", "int32", "int16", "uint16", "uint32", "complex64", "complex128"):
            e2[n] = Ext("numpy." + n)
        try:
            ast.parse(text.strip(), mode="eval")
        except SyntaxError as e:
            return "syntax", str(e), text
        o2 = catch(I, lambda: zoo.eval_in(I, text, e2))
        if o2[0] == "raise":
            return "raise", o2[1:], text
        s = same(I, o, o2[1])
        env["o2"] = o2[1]
        eq = lit_of(I, I.cmp("eq", o, o2[1]))
        props = []
        if s[0] is not True and cn not in NO_PROPS:
            for ex in api.API.get(cn, []):
                if ex.startswith("o.") and "(" not in ex:
                    env1 = dict.__new__(zoo.AtomEnv)
                    a = catch(I, lambda: zoo.eval_in(I, ex, env))
                    e3 = zoo.AtomEnv(I, False)
                    dict.update(e3, {"o": o2[1]})
                    b = catch(I, lambda: zoo.eval_in(I, ex, e3))
                    if a[0] == b[0] == "ok":
                        r = same(I, a[1], b[1])
                        props.append((ex, r[0], show(a[1]), show(b[1])))
        return "ok", s, eq, props, text

    res = run(I, h, PATHCAP.get(cn, 6))
    outs = [r.res[0] for r in res if r.ok]

    def differs(v):
        _, s, eq, props, text = v
        return any(p[1] is False for p in props) or (eq is False and s[0] is False)

    # a difference counts only when no path agrees: branches of the validation
    # code that the domain cannot decide are explored with impossible inputs
    every = bool(outs) and all(r.res[0] == "ok" and differs(r.res) for r in res if r.ok)
    for r in res:
        if not r.ok:
            R.undec(name, r.res)
            continue
        v = r.res
        cons = "%s.__repr__" % name
        if v[0] == "raw":
            R.violate("raw-array", cons, "formats a raw jax array: %s in %s" % (v[1][0], v[2][:100]))
        elif v[0] == "syntax":
            R.violate("syntax", cons, "is not an expression: %s (%s)" % (v[1], v[2][:140]))
        elif v[0] == "raise" and set(outs) != {"raise"}:
            R.undec(name, "evaluating it raises %s on some paths (argument validation)" % (v[1],))
        elif v[0] == "raise":
            R.violate("eval", cons, "evaluating it raises %s (%s)" % (v[1], v[2][:140]))
        else:
            _, s, eq, props, text = v
            bad = [p for p in props if p[1] is False]
            if s[0] is True or (eq is True and not bad):
                R.hold(name)
            elif not every:
                R.undec(name, "differs on some paths only: %s" % (bad[:1] or s[1],))
            elif bad:
                R.violate("differs", cons, "eval(repr(o)).%s differs: %s vs %s" % (bad[0][0][2:], bad[0][3], bad[0][2]))
            elif eq is False and s[0] is False and not stateful(s[1]):
                R.violate("differs", cons, "eval(repr(o)) != o at %s" % s[1])
            else:
                R.undec(name, "not comparable at %s" % (s[1],))


def stateful(p):
    return False
