"""P05: public calls never need the concrete value of a traced parameter."""
from ..core import *
from .p01 import rebuild, registered, show
from .p02 import leaf_atoms

TRACERS = ("ConcretizationTypeError", "TracerBoolConversionError", "TracerArrayConversionError", "TracerIntegerConversionError")


def main():
    I = interp()
    R = Report(
        "P05",
        "with every array parameter traced, constructing an object and each public call on it reaches no operation that needs a concrete value "
        "(bool/int/float/index/hash of a tracer, numpy conversion, Python branch), both for objects built inside the transformation and for objects passed into it",
        300,
        "Taint (binding-time) analysis: values derived from array parameters are dynamic, and a sink that needs a static value reached by a dynamic one on every path is a violation.",
    )
    items = []
    for cn, variants in zoo.ZOO.items():
        for var, src in variants:
            for ex in ["o"] + api.API.get(cn, []):
                if var != variants[0][0] and ex != "o" and cn not in ("Image", "PhotonArray", "BoundsI", "BoundsD", "GSFitsWCS"):
                    continue
                for mode in ("inside", "passed"):
                    items.append((cn, var, src, ex, mode))
    items.sort(key=lambda t: t[0] not in ("Spergel", "InterpolatedImage"))
    for sn in api.SCEN:
        items.append(("scenario", sn, api.SCEN[sn], None, "inside"))
    parallel(R, items, one)
    return R.finish(I)


def one(I, R, cn, var, src, ex, mode):
    name = "scenario " + var if cn == "scenario" else "%s%s::%s (%s)" % (cn, "[%s]" % var if var else "", ex, mode)

    def scen(I):
        env = zoo.AtomEnv(I, True)
        I.staging = True
        try:
            a = catch(I, lambda: zoo.exec_in(I, src, env))
            if a[0] == "raise":
                return ("call",) + a[1:]
            return ("ok",)
        finally:
            I.staging = False

    def h(I):
        if cn == "scenario":
            return scen(I)
        env = zoo.AtomEnv(I, mode == "inside")
        I.staging = mode == "inside"
        try:
            a = catch(I, lambda: zoo.eval_in(I, src, env))
            if a[0] == "raise":
                return ("ctor",) + a[1:]
            o = a[1]
            if mode == "passed":
                if not (isinstance(o, Obj) and o.cls.registered):
                    return ("skip",)
                o = rebuild(I, o, leaf_atoms(I, True, []))
            env = zoo.AtomEnv(I, True)
            env["o"] = o
            I.staging = True
            a = catch(I, lambda: zoo.eval_in(I, ex, env))
            if a[0] == "raise":
                return ("call",) + a[1:]
            return ("ok",)
        finally:
            I.staging = False

    res = run(I, h, PATHCAP.get(cn, 12))
    outs = []
    for r in res:
        if not r.ok:
            R.undec(name, r.res)
            continue
        outs.append(r.res)
    if not outs:
        return
    bad = [v for v in outs if v[0] in ("ctor", "call") and v[1] in TRACERS]
    good = [v for v in outs if v[0] == "ok"]
    if bad and len(bad) == len(outs):
        v = bad[0]
        R.violate("concretize", name, "needs the concrete value of a traced parameter: %s %s" % (v[1], v[2]), v[3])
    elif bad:
        R.undec(name, "on some paths: %s" % (bad[0],))
    elif good:
        R.hold(name)
    elif outs[0][0] != "skip":
        R.undec(name, "%s" % (outs[0],))
