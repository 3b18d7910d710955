"""Shared machinery of the checks: obligations, violations, known findings,
evidence, and comparison of abstract values."""
import gc
import json
import os
import sys
import time
import traceback

from .interp import Interp
from .values import *  # noqa
from . import zoo, api, common, fp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

for _k, _v in api.ATOMS.items():
    zoo.ATOMS.setdefault(_k, _v)


class Report:
    def __init__(self, pid, rule, floor, explain):
        self.pid = pid
        self.rule = rule
        self.floor = floor
        self.explain = explain
        self.held = {}
        self.undecided = {}
        self.viol = {}
        self.samples = []
        self.assumptions = []
        self.constructs = set()
        self.t0 = time.time()
        self.extra = {}

    # one obligation = (construct, rule) ; several paths may contribute
    def hold(self, key, note=""):
        self.held.setdefault(key, note)

    def undec(self, key, why=""):
        self.undecided.setdefault(key, str(why)[:200])

    def violate(self, rule, construct, msg, where=""):
        self.viol.setdefault("%s|%s" % (rule, construct), (msg, where))

    def finish(self, I):
        known, fixed = load_known()
        pid = self.pid
        und = {k: v for k, v in self.undecided.items() if k not in self.held}
        rows = []
        new = []
        for k, (msg, where) in sorted(self.viol.items()):
            if (pid, k) in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[(pid, k)], k))
                rows.append({"key": k, "msg": msg, "where": where, "known": True})
            else:
                new.append(k)
                rows.append({"key": k, "msg": msg, "where": where, "known": False})
        decided = len(self.held) + len(self.viol)
        cov = {
            "explanation": self.explain,
            "rule": self.rule,
            "obligations": decided + len(und),
            "decided_holding": len(self.held),
            "undecided": len(und),
            "violating": len(self.viol),
            "files_analysed": sorted(I.files) if I is not None else [],
            "samples": (self.samples or sorted(self.held)[:12])[:24],
            "undecided_list": ["%s: %s" % kv for kv in sorted(und.items())][:120],
            "floor": self.floor,
        }
        cov.update(self.extra)
        ev = {
            "property": pid,
            "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(d, pid + ".violations.json")
        if rows:
            with open(rp, "w") as f:
                json.dump(rows, f, indent=1, default=str)
        elif os.path.exists(rp):
            os.remove(rp)
        print(
            "%s: %d obligations decided (%d hold, %d violated), %d undecided, %.1fs"
            % (pid, decided, len(self.held), len(self.viol), len(und), time.time() - self.t0)
        )
        if new:
            for k in new:
                msg, where = self.viol[k]
                print("  %s: %s [%s]" % (k, msg, where))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, VERIF)))
            return 1
        if decided < self.floor:
            print("ERROR: only %d obligations decided, floor is %d: the analysed constructs have moved" % (decided, self.floor))
            return 2
        return 0


def load_known():
    known, fixed = {}, []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            if line.startswith("fixed:"):
                fixed.append(line)
                continue
            # known: property=P01 key=<rule|construct> :: text
            try:
                a, text = line.split(" :: ", 1)
                a = a[len("known: property=") :]
                pid, key = a.split(" key=", 1)
                known[(pid.strip(), key.strip())] = text.strip()
            except ValueError:
                continue
    return known, fixed


_I = None


def interp():
    global _I
    if _I is None:
        I = Interp(REPO)
        I.import_("jax_galsim")
        I.assume = common.assume
        _I = I
    return _I


# heavy classes are explored over fewer paths
PATHCAP = {"InterpolatedImage": 4}


def run(I, harness, max_paths=24):
    """paths of a harness; engine faults become undecided paths"""
    try:
        return I.run_paths(harness, max_paths=max_paths)
    except Exception as e:  # engine defect: never an alarm
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        try:
            I.reset_path()
        except Exception:
            pass
        rec = type("Rec", (), {})()
        if os.environ.get("SA_TRACE"):
            traceback.print_exc(limit=-6)
        rec.res = GiveUp("engine: %s: %s" % (type(e).__name__, e))
        rec.ok = False
        rec.events, rec.decisions, rec.writes, rec.calls, rec.key_uses, rec.truthlog, rec.approx = [], [], [], [], [], [], True
        return [rec]


def parallel(R, items, f):
    """run f(I, R, *item) for every item, over forked workers; results merged"""
    I = interp()
    n = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    items = list(items)
    if n <= 1 or len(items) < 8:
        for it in items:
            f(I, R, *it)
        return
    import multiprocessing as mp

    ctx = mp.get_context("fork")
    gc.collect()
    gc.freeze()
    with ctx.Pool(n, initializer=_winit, initargs=(R, f)) as pool:
        for held, und, viol, extra in pool.imap_unordered(_work, items, chunksize=1):
            for k, v in held.items():
                R.held.setdefault(k, v)
            for k, v in und.items():
                R.undecided.setdefault(k, v)
            for k, v in viol.items():
                R.viol.setdefault(k, v)
            merge(R.extra, extra)


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            x = a.setdefault(k, [])
            x.extend(y for y in v if y not in x)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            a[k] = a.get(k, 0) + v
        else:
            a[k] = v


_W = None


def _winit(R, f):
    global _W
    _W = (R, f)
    gc.set_threshold(200000, 20, 20)


def _work(it):
    R, f = _W
    R.held, R.undecided, R.viol, R.extra = {}, {}, {}, {}
    t = time.time()
    try:
        f(interp(), R, *it)
        if os.environ.get("VERIF_TIME") and time.time() - t > 1.5:
            print("slow", round(time.time() - t, 1), it[:1] + it[1:2] + it[3:], flush=True)
    except Exception as e:  # engine defect
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        R.undec("item:%s" % (it[:3],), "engine: %r" % (e,))
    return R.held, R.undecided, R.viol, R.extra


# ------------------------------------------------------------ comparison
def lit_of(I, v):
    if isinstance(v, (bool, int, float, complex, str)) or v is None:
        return v
    if isinstance(v, Sym):
        return I.litval(v)
    return None


def jdeps(I, v):
    return frozenset(I.deps_of(v)[0])


def same(I, a, b, path="", seen=None, strict=False):
    """(verdict, where): True equal, False definitely different, None unknown"""
    if a is b:
        return True, path
    if seen is None:
        seen = set()
    k = (id(a), id(b))
    if k in seen:
        return True, path
    seen.add(k)
    num = (bool, int, float, complex)
    if isinstance(a, (Sym,) + num) and isinstance(b, (Sym,) + num):
        return same_num(I, a, b, path, strict)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.shape != b.shape:
            return False, path
        return all_same(I, [(x, y, path + "[%d]" % i) for i, (x, y) in enumerate(zip(flat(a), flat(b)))], seen, strict)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls:
            return False, path + ":class"
        its = []
        for n in sorted(set(a.attrs) | set(b.attrs)):
            if n in a.attrs and n in b.attrs:
                its.append((a.attrs[n], b.attrs[n], "%s.%s" % (path, n)))
        return all_same(I, its, seen, strict)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False, path + ":len"
        return all_same(I, [(x, y, path + "[%d]" % i) for i, (x, y) in enumerate(zip(a, b))], seen, strict)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(map(str, a)) != set(map(str, b)):
            return False, path + ":keys"
        bb = {str(k): v for k, v in b.items()}
        return all_same(I, [(v, bb[str(k)], path + "[%s]" % k) for k, v in a.items()], seen, strict)
    if isinstance(a, FmtStr) and isinstance(b, FmtStr):
        if len(a.parts) != len(b.parts):
            return None, path
        return all_same(I, [(x if isinstance(x, str) else x[1], y if isinstance(y, str) else y[1], path) for x, y in zip(a.parts, b.parts)], seen, strict)
    if (a is None) != (b is None) and not isinstance(a, (ExtObj,)) and not isinstance(b, (ExtObj,)):
        return False, path
    if isinstance(a, str) and isinstance(b, str):
        return a == b, path
    if isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
        return a == b, path
    if isinstance(a, Bound) and isinstance(b, Bound):
        r = same(I, a.self, b.self, path, seen, strict)
        return (r if a.fn is b.fn else (None, path))
    if isinstance(a, (Sym, Arr) + num) and isinstance(b, (Sym, Arr) + num):
        return None, path
    if type(a) is not type(b) and isinstance(a, (Obj, list, tuple, dict, str)) and isinstance(b, (Obj, list, tuple, dict, str)):
        return False, path
    if a == b:
        return True, path
    return None, path


def all_same(I, its, seen, strict):
    worst = (True, "")
    for x, y, p in its:
        r = same(I, x, y, p, seen, strict)
        if r[0] is False:
            return r
        if r[0] is None:
            worst = r
    return worst


def flat(a):
    if a.nd == 1:
        return list(a.e)
    return [x for r in a.e for x in r]


def same_num(I, a, b, path, strict):
    va = I.vbase(a) if isinstance(a, Sym) else a
    vb = I.vbase(b) if isinstance(b, Sym) else b
    if isinstance(a, Sym) and isinstance(b, Sym) and a.ndim == 2 and b.ndim == 2:
        ta, tb = I.ext.dtype_exact(a), I.ext.dtype_exact(b)
        if isinstance(ta, Ext) and isinstance(tb, Ext) and ta is not tb:
            return False, path + ":dtype"
    if va is vb:
        return True, path
    la, lb = lit_of(I, va), lit_of(I, vb)
    if la is not None and lb is not None:
        return la == lb, path
    if isinstance(va, Sym) and isinstance(vb, Sym):
        if I.key(va) == I.key(vb):
            return True, path
    r = fpof(I).eq(va, vb)
    if r is not None:
        return r, path
    if jdeps(I, va) != jdeps(I, vb) and clean(va) and clean(vb):
        return False, path
    return None, path


def clean(v, seen=None):
    """no operation the engine does not model"""
    if seen is None:
        seen = set()
    if isinstance(v, Sym):
        if v.id in seen:
            return True
        seen.add(v.id)
        if v.op.startswith("ext:") or v.op in ("attr", "loop", "seqitem", "objarray"):
            return False
        return all(clean(a, seen) for a in v.args)
    if isinstance(v, (tuple, list)):
        return all(clean(a, seen) for a in v)
    return True


def fpof(I):
    c = getattr(I, "_fp", None)
    n = len(I.truthlog)
    if c is None or c[0] is not I.intern or c[2] != n:
        pins = {}
        for t, b in I.truthlog:
            if b and isinstance(t, Sym) and t.op == "eq":
                for x, y in (t.args, t.args[::-1]):
                    ly = lit_of(I, y)
                    vx = I.vbase(x) if isinstance(x, Sym) else None
                    if isinstance(ly, (int, float)) and vx is not None and vx.op == "atom":
                        pins[vx.args[0]] = ly
        if c is None or c[0] is not I.intern or c[3] != pins:
            c = (I.intern, fp.Fp(I, pins), n, pins)
        else:
            c = (c[0], c[1], n, pins)
        I._fp = c
    return c[1]


def catch(I, f):
    """('ok', value) or ('raise', name, msg, loc); GiveUp propagates"""
    try:
        return ("ok", f())
    except AbsRaise as e:
        return ("raise", e.name, str(e.note or ""), str(e.loc))


STATIC_OPS = ("dim", "shape", "size", "ndim", "dtype", "result_type", "len", "broadcast_shapes")


def vdeps(I, v, seen=None):
    """atoms a value depends on through its content (shapes and types excluded)"""
    if seen is None:
        seen = set()
    if isinstance(v, CONST):
        return set()
    k = v.id if isinstance(v, Sym) else ("o", id(v))
    if k in seen:
        return set()
    seen.add(k)
    if isinstance(v, Sym):
        if v.op == "atom":
            return {v.args[0]}
        if v.op in STATIC_OPS or v.op in ("zeros_like", "ones_like"):
            return set()
        items = v.args
        if v.op in ("zeros", "ones", "full", "empty"):
            items = v.args[1:]
    elif isinstance(v, Arr):
        items = v.flat()
    elif isinstance(v, (tuple, list, set, frozenset)):
        items = list(v)
    elif isinstance(v, dict):
        items = list(v.values()) + [x for x in v if not isinstance(x, CONST)]
    elif isinstance(v, Obj):
        items = list(v.attrs.values())
    elif isinstance(v, ExtObj):
        items = list(v.args) + list(v.kwargs.values()) + list(v.attrs.values())
    elif isinstance(v, Part):
        items = list(v.args) + list(v.kwargs.values()) + [v.fn]
    elif isinstance(v, Bound):
        items = [v.self]
    elif isinstance(v, At):
        items = [v.x]
    elif isinstance(v, FmtStr):
        items = [p[1] for p in v.parts if not isinstance(p, str)]
    elif isinstance(v, slice):
        items = [v.start, v.stop, v.step]
    else:
        return set()
    d = set()
    for x in items:
        d |= vdeps(I, x, seen)
    return d
