"""P01: flattening and rebuilding a registered object changes nothing a user can see."""
from ..core import *


def rebuild(I, v, leaf=None):
    """what jax does with an object that crosses a transformation boundary"""
    if v is None:
        return None
    if isinstance(v, list):
        return [rebuild(I, x, leaf) for x in v]
    if isinstance(v, tuple):
        return tuple(rebuild(I, x, leaf) for x in v)
    if isinstance(v, dict):
        return {k: rebuild(I, x, leaf) for k, x in v.items()}
    if isinstance(v, Obj):
        if v.cls.flavor == "namedtuple":
            return Obj(v.cls, {f: rebuild(I, v.attrs[f], leaf) for f, _ in v.cls.fields})
        if v.cls.registered:
            ch, aux = I.iterate(I.call(I.find_method(v, "tree_flatten"), [], {}), 2)
            return I.call(I.getattr(v.cls, "tree_unflatten"), [aux, rebuild(I, ch, leaf)], {})
    return leaf(v) if leaf else v


def registered(I):
    out = {}
    for m in I.mods.values():
        for n, c in m.ns.items():
            if isinstance(c, Cls) and c.registered and c.mod is m:
                out.setdefault(c.name, c)
    return out


def main():
    I = interp()
    R = Report(
        "P01",
        "for every class registered with jax, instance i, and public call e: e(unflatten(flatten(i))) = e(i) on every path",
        180,
        "Interprocedural abstract interpretation of tree_flatten/tree_unflatten and of the public methods; results compared by value numbers and term fingerprints.",
    )
    regs = registered(I)
    for cn in sorted(regs):
        if cn not in zoo.ZOO:
            R.undec("class:" + cn, "registered class without an abstract instance")
    items = []
    for cn, variants in zoo.ZOO.items():
        if cn not in regs and cn not in ("GSParams",):
            if variants:
                R.undec("class:" + cn, "not registered as a pytree")
            continue
        for var, src in variants:
            for ex in ["o"] + api.API.get(cn, []):
                if var != variants[0][0] and ex != "o" and not ex.startswith("o.with"):
                    if cn not in ("Image", "PhotonArray", "BoundsI", "BoundsD", "GSFitsWCS"):
                        continue
                items.append((cn, var, src, ex))
    heavy = ('Spergel', 'InterpolatedImage')
    items.sort(key=lambda t: t[0] not in heavy)
    parallel(R, items, one)
    R.constructs = set(regs)
    R.extra["classes"] = sorted(regs)
    return R.finish(I)


def one(I, R, cn, var, src, ex):
    name = "%s%s::%s" % (cn, "[%s]" % var if var else "", ex)
    st = {}

    def h(I):
        env = zoo.AtomEnv(I, False)
        o = zoo.eval_in(I, src, env)
        env1 = zoo.AtomEnv(I, False)
        dict.update(env1, env)
        try:
            o2 = rebuild(I, o)
        except AbsRaise as e:
            return ("rebuild", e)
        env["o"] = o
        env1["o"] = o2
        if ex == "o":
            a, b = ("ok", o), ("ok", o2)
        else:
            a = catch(I, lambda: zoo.eval_in(I, ex, env))
            b = catch(I, lambda: zoo.eval_in(I, ex, env1))
        if a[0] != b[0]:
            return ("outcome", a, b)
        if a[0] == "raise":
            return ("raise", a, b)
        return ("cmp", same(I, a[1], b[1]), a[1], b[1])

    res = run(I, h, PATHCAP.get(cn, 12))
    good = 0
    outs = [r.res for r in res if r.ok]
    flip = bool(outs) and all(v[0] == "outcome" for v in outs)
    for r in res:
        if not r.ok:
            R.undec(name, r.res)
            continue
        v = r.res
        if v[0] == "rebuild":
            R.violate("rebuild", "%s.tree_unflatten" % cn, "rebuilding from the flattened children raises %s" % v[1], name)
        elif v[0] == "outcome" and not flip:
            R.undec(name, "outcome differs on some paths only: %s" % (v[1:],))
        elif v[0] == "outcome":
            if v[1][0] == "ok":
                R.violate("outcome", name, "call works on the original but raises %s on the rebuilt object" % (v[2][1:],), v[2][3])
            else:
                R.violate("outcome", name, "call raises %s on the original but not on the rebuilt object" % (v[1][1:],), v[1][3])
        elif v[0] == "cmp":
            if v[1][0] is False:
                if ex == "o" and private(v[1][1]):
                    R.undec(name, "private attribute %s" % v[1][1])
                    continue
                R.violate("value", name, "result differs after a pytree round trip at %s: %s vs %s" % (v[1][1] or "value", show(v[2]), show(v[3])), "")
            elif v[1][0] is None:
                R.undec(name, "not comparable at %s" % v[1][1])
            else:
                good += 1
    if good:
        R.hold(name)


def private(p):
    return True


def show(v):
    try:
        return show_term(v, 3)[:120] if isinstance(v, Sym) else repr(v)[:120]
    except Exception:
        return "?"
