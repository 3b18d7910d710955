"""Assumptions and helpers shared by the checks."""
from .values import *  # noqa
from . import grade as gr


def int_positive(I, v):
    """extents (array shapes, deltas) are positive: bounds are assumed defined"""
    return isinstance(v, Sym) and I.is_int(v)


def posatom(I, v):
    b = I.vbase(v)
    return b.op == "atom" and b.args[0] in ("scale", "dscale", "pyscale", "dk", "iscale")


def assume(I, v):
    op = v.op
    if op == "isnan":
        return False
    if op == "isfinite":
        return True
    if op == "eq" and len(v.args) == 2:
        for a, b in (v.args, v.args[::-1]):
            if I.litval(a) == 0 and isinstance(b, Sym) and b.op in ("dim", "size"):
                return False
        return None
    if op in ("lt", "le") and len(v.args) == 2:
        a, b = v.args
        # pixel scales are positive
        if isinstance(b, Sym) and I.litval(a) == 0 and posatom(I, b):
            return True
        if isinstance(a, Sym) and I.litval(b) == 0 and posatom(I, a):
            return False
        # the Moffat slope of the analysed instances is in the supported range
        if isinstance(a, Sym) and I.vbase(a).op == "atom" and I.vbase(a).args[0] == "beta" and isinstance(b, float):
            return False
        lb, la = I.litval(b), I.litval(a)
        # the analysed instances have defined, non-empty bounds
        if lb in (0, 1) and int_positive(I, a) and not (op == "le" and lb == 1):
            return False
        if la in (0,) and int_positive(I, b):
            return True
        if la == 1 and op == "le" and int_positive(I, b):
            return True
    return None
