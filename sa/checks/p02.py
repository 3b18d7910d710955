"""P02: array-valued state is carried by the leaves and only by the leaves."""
from ..core import *
from .p01 import rebuild, registered, show


def jaxatoms(I, v):
    return {a for a in I.deps_of(v)[0] if atomkind(a) == "jax"}


def atomkind(name):
    k = zoo.ATOMS.get(name)
    return k[0] if k else "jax"


def leaf_atoms(I, traced=False, log=None):
    """replace every numeric leaf by a fresh one, as a transformation does"""

    def leaf(v):
        n = "L%d" % len(log)
        log.append((n, v))
        if isinstance(v, (bool, int, float)) or (isinstance(v, Sym) and v.kind in ("jax", "np", "pyf", "pyi", "pyb", "any")):
            nd = v.ndim if isinstance(v, Sym) else 0
            hint = v.hint if isinstance(v, Sym) else ("b" if isinstance(v, bool) else "i" if isinstance(v, int) else "f")
            ex = {}
            dt = I.ext.dtype_of(v) if isinstance(v, Sym) else None
            if dt is not None:
                ex["dtype"] = dt
            return I.atom(n, kind="jax", ndim=nd, hint=hint, traced=traced, **ex)
        if isinstance(v, Arr):
            log.pop()
            return v.map(lambda x: leaf(x))
        if isinstance(v, Sym):
            return I.atom(n, kind=v.kind, ndim=v.ndim, hint=v.hint)
        return v

    return leaf


def main():
    I = interp()
    R = Report(
        "P02",
        "for every registered class: array parameters reach the children of tree_flatten and never the auxiliary data; re-flattening a rebuilt object returns the given leaves in order; "
        "an object rebuilt with other leaves answers every public call from those leaves only",
        150,
        "Dependency (provenance) analysis through tree_flatten/tree_unflatten and the public methods.",
    )
    regs = registered(I)
    items = []
    for cn, variants in zoo.ZOO.items():
        if cn not in regs:
            continue
        for var, src in variants:
            items.append((cn, var, src, None))
            if var == variants[0][0]:
                for ex in api.API.get(cn, []):
                    items.append((cn, var, src, ex))
    heavy = ("Spergel", "InterpolatedImage")
    items.sort(key=lambda t: t[0] not in heavy)
    parallel(R, items, one)
    return R.finish(I)


# parameters that are static by design (documented) and therefore live in aux
STATIC = {"seed", "npt", "ix0", "ix1", "iy0", "iy1", "pykv", "pymaxk", "pyft", "pyfa"}


def one(I, R, cn, var, src, ex):
    if ex is None:
        return structure(I, R, cn, var, src)
    name = "%s%s::%s" % (cn, "[%s]" % var if var else "", ex)

    def h(I):
        env = zoo.AtomEnv(I, False)
        o = zoo.eval_in(I, src, env)
        old = {a for a in I.deps_of(o)[0] if atomkind(a) == "jax"}
        log = []
        o2 = rebuild(I, o, leaf_atoms(I, False, log))
        env["o"] = o2
        r = zoo.eval_in(I, ex, env)
        new = set(env) - old
        return old, r, vdeps(I, r), {n for n in api_names(ex)}

    res = run(I, h, PATHCAP.get(cn, 6))
    ok = False
    for r in res:
        if not r.ok:
            R.undec(name, r.res)
            continue
        old, v, deps, used = r.res
        stale = (deps & old) - used
        if stale:
            R.violate("stale", name, "result depends on %s of the object that was flattened, not on the new leaves: %s" % (sorted(stale), show(v)))
        else:
            ok = True
    if ok:
        R.hold(name)


def api_names(ex):
    import ast

    return {n.id for n in ast.walk(ast.parse(ex)) if isinstance(n, ast.Name)}


def structure(I, R, cn, var, src):
    name = "%s%s" % (cn, "[%s]" % var if var else "")

    def h(I):
        env = zoo.AtomEnv(I, False)
        o = zoo.eval_in(I, src, env)
        params = {n for n, v in env.items() if isinstance(v, Sym) and v.op == "atom" and atomkind(n) == "jax"}
        ch, aux = I.iterate(I.call(I.find_method(o, "tree_flatten"), [], {}), 2)
        leaves = I.ext.leaves(ch)
        log = []
        lf = leaf_atoms(I, False, log)
        o2 = rebuild(I, o, lf)
        l2 = I.ext.leaves(o2)
        want = []
        for x in leaves:
            pass
        return params, I.deps_of(tuple(leaves))[0], vdeps(I, aux), badaux(I, aux), leaves, l2, log

    res = run(I, h, 4)
    for r in res:
        if not r.ok:
            R.undec(name + ":structure", r.res)
            continue
        params, ld, ad, bad, leaves, l2, log = r.res
        miss = params - ld
        if miss & ad or miss:
            R.violate("not-a-leaf", name + ".tree_flatten", "array parameter(s) %s are not carried by the children%s" % (sorted(miss), " but by the auxiliary data" if miss & ad else ""))
        elif params:
            R.hold(name + ":params-in-children", "%s" % sorted(params))
        leak = {a for a in ad if atomkind(a) == "jax"} & params
        if leak or bad:
            R.violate("array-in-aux", name + ".tree_flatten", "auxiliary data holds array value(s) %s %s" % (sorted(leak), bad or ""))
        else:
            R.hold(name + ":aux-static")
        fl = []
        for x in l2:
            fl.extend(x.flat() if isinstance(x, Arr) else [x])
        nm = [n for n, v in log if True]
        if len(fl) != len(log):
            R.violate("leaf-count", name + ".tree_unflatten", "re-flattening gives %d leaves, %d were supplied" % (len(fl), len(log)))
            continue
        okk = True
        for (n, v), x in zip(log, fl):
            d = I.deps_of(x)[0]
            numeric = isinstance(v, (bool, int, float, Sym))
            if not numeric:
                continue
            b = I.vbase(x) if isinstance(x, Sym) else x
            if isinstance(b, Sym) and b.op == "atom" and b.args[0] == n:
                continue
            if n in d:
                okk = None
                continue
            if not any(a.startswith("L") and a[1:].isdigit() for a in d):
                okk = None
                continue
            if not any(n in I.deps_of(y)[0] for y in fl):
                okk = None  # a derived leaf, recomputed from the others
                continue
            okk = False
            R.violate("leaf-order", name + ".tree_unflatten", "leaf %s comes back as %s" % (n, show(x)))
            break
        if okk:
            R.hold(name + ":reflatten")
        elif okk is None:
            R.undec(name + ":reflatten", "leaf transformed")


def badaux(I, aux, d=0):
    """array-like objects in the auxiliary data"""
    if isinstance(aux, Sym):
        return "array %s" % show(aux) if aux.kind == "jax" else None
    if isinstance(aux, Arr):
        return "array"
    if isinstance(aux, dict):
        aux = list(aux.values())
    if isinstance(aux, (list, tuple)) and d < 5:
        for x in aux:
            r = badaux(I, x, d + 1)
            if r:
                return r
    if isinstance(aux, Obj) and aux.cls.registered and d < 5:
        ls = [x for x in I.ext.leaves(aux) if isinstance(x, Sym) and x.kind == "jax"]
        if ls:
            return "%s object with array leaf %s" % (aux.cls.name, show(ls[0]))
    return None
