"""P03: equality and hashing agree and look at every parameter."""
from ..core import *
from .p01 import registered, show
from .p02 import atomkind


def classes(I):
    for cn, variants in zoo.ZOO.items():
        for var, src in variants:
            yield cn, var, src


def main():
    I = interp()
    R = Report(
        "P03",
        "two instances built from equal arguments compare equal and hash equal, whether the numbers are Python floats or jax scalars; "
        "an instance that differs in one constructor argument only cannot compare equal without that argument having been compared",
        120,
        "Abstract interpretation of __eq__/__hash__ on pairs of instances; equality of value numbers; provenance of every branch decision taken by __eq__.",
    )
    items = [(c, v, s, m) for c, v, s in classes(I) for m in ("same", "kinds", "params")]
    parallel(R, items, one)
    return R.finish(I)


def one(I, R, cn, var, src, mode):
    name = "%s%s" % (cn, "[%s]" % var if var else "")
    if mode == "params":
        return params(I, R, cn, src, name)

    def h(I):
        env = zoo.AtomEnv(I, False)
        o = zoo.eval_in(I, src, env)
        env2 = zoo.AtomEnv(I, False)
        if mode == "same":
            dict.update(env2, env)
        else:
            env = zoo.AtomEnv(I, False)
            for n in names(src):
                if n in env2 and isinstance(env2[n], Sym) and env2[n].op == "atom" and env2[n].kind == "jax" and env2[n].ndim == 0 and env2[n].hint == "f":
                    a = I.atom(n, kind="pyf", ndim=0, hint="f")
                    env[n] = a
                    env2[n] = I.mk("asarray", (a,), a.grade, "jax", 0, "f", w=a.w)
                elif n in env2:
                    env[n] = env2[n]
            o = zoo.eval_in(I, src, env)
        o2 = zoo.eval_in(I, src, env2)
        e = catch(I, lambda: I.cmp("eq", o, o2))
        h1 = catch(I, lambda: I.ext.b_hash([o], {}))
        h2 = catch(I, lambda: I.ext.b_hash([o2], {}))
        return e, h1, h2

    res = run(I, h, PATHCAP.get(cn, 8))
    key = "%s:%s" % (name, mode)
    ok = [r.res for r in res if r.ok]
    for r in res:
        if not r.ok:
            R.undec(key, r.res)
    if not ok:
        return
    eqs = [e for e, _, _ in ok]
    if all(e[0] == "raise" for e in eqs):
        R.violate("eq-raises", name + ".__eq__", "comparing two equal instances raises %s" % (eqs[0][1:],))
    elif all(e[0] == "ok" and lit_of(I, e[1]) is False for e in eqs):
        R.violate("eq-false", name + ".__eq__", "two instances built from equal arguments (%s) compare unequal" % mode)
    elif any(e[0] == "ok" and lit_of(I, e[1]) is True for e in eqs):
        R.hold(key + ":eq")
    else:
        R.undec(key + ":eq", "%s" % (eqs[0],))
    hs = [(a, b) for _, a, b in ok]
    a, b = hs[0]
    if a[0] == "raise" or b[0] == "raise":
        if a[0] != b[0]:
            R.violate("hash-raises", name + ".__hash__", "hash works for one of two equal instances only: %s" % ((a if a[0] == "raise" else b)[1:],))
        elif a[1] == "TypeError":
            R.hold(key + ":hash", "unhashable")
        else:
            R.violate("hash-raises", name + ".__hash__", "hash raises %s" % (a[1:],))
        return
    s = same(I, a[1], b[1])
    if a[1] is b[1] or s[0] is True or hashsame(I, a[1], b[1]):
        R.hold(key + ":hash")
    elif hashdiff(I, a[1], b[1]):
        R.violate("hash-differs", name + ".__hash__", "equal instances hash differently: %s vs %s" % (show(a[1]), show(b[1])))
    else:
        R.undec(key + ":hash", "%s vs %s" % (show(a[1]), show(b[1])))


def hashsame(I, a, b):
    return isinstance(a, Sym) and isinstance(b, Sym) and a.op == b.op == "hash" and same(I, a.args[0], b.args[0])[0] is True


def hashdiff(I, a, b):
    """a raw jax array or a different number reaches the hash"""
    if isinstance(a, Sym) and isinstance(b, Sym) and a.op == b.op == "hash":
        return same(I, a.args[0], b.args[0])[0] is False
    return False


def names(src):
    import ast

    return [n.id for n in ast.walk(ast.parse(src.strip())) if isinstance(n, ast.Name)]


def pins(I, t, b, p):
    """the branch fixes the argument's value"""
    if not (isinstance(t, Sym) and p in I.deps_of(t)[0]):
        return False
    if t.op == "eq":
        return b
    return not b and I.vbase(t).op in ("atom", "trunc", "eq", "toint")


# arguments that legitimately do not belong to the instance
NOT_PARAM = {("InterpolatedImage", "scale")}  # the scale of the wrapped image is overridden by scale=


def params(I, R, cn, src, name):
    import keyword

    env0 = zoo.AtomEnv(I, False)
    ps = []
    for n in dict.fromkeys(names(src)):
        if n in env0 and n != "jnp":
            ps.append(n)
    I.reset_path()
    for p in ps:
        if (cn, p) in NOT_PARAM:
            continue
        key = "%s:param:%s" % (name, p)

        def h(I):
            env = zoo.AtomEnv(I, False)
            o = zoo.eval_in(I, src, env)
            env2 = zoo.AtomEnv(I, False)
            for n, v in env.items():
                if n != p:
                    dict.__setitem__(env2, n, v)
            base = env[p]
            ex = dict(base.extra) if getattr(base, "extra", None) else {}
            env2[p] = I.atom(p + "__other", kind=base.kind, ndim=base.ndim, hint=base.hint, **ex)
            o2 = zoo.eval_in(I, src, env2)
            n0 = len(I.truthlog)
            v = I.cmp("eq", o, o2)
            seen = set()
            for t, b in I.truthlog[n0:]:
                seen |= set(I.deps_of(t)[0])
            ctor = set()
            for t, b in I.truthlog[:n0]:
                if b and {p, p + "__other"} <= set(I.deps_of(t)[0]):
                    ctor.add(1)
            return v, (p in seen or p + "__other" in seen), bool(ctor)

        res = run(I, h, PATHCAP.get(cn, 16))
        good = False
        for r in res:
            if not r.ok:
                R.undec(key, r.res)
                continue
            v, cmpd, ctor = r.res
            lv = lit_of(I, v)
            if lv is True and not cmpd and not ctor:
                pinned = any(pins(I, t, b, p) for t, b in r.truthlog)
                if pinned:
                    R.undec(key, "argument fixed by a branch of the constructor")
                else:
                    R.violate("param-ignored", "%s.__eq__(%s)" % (name, p), "instances that differ in %s compare equal without %s being compared" % (p, p))
            elif lv is False or cmpd or (isinstance(v, Sym) and p in I.deps_of(v)[0]):
                good = True
            else:
                R.undec(key, "result %s" % show(v))
        if good:
            R.hold(key)
