"""Grading domain: exponent vectors over named units.

A grade is
  * a tuple of (base, Fraction) pairs sorted by base  - known grade,
  * POLY  - compatible with every grade (the literals 0, inf, nan),
  * None  - unknown (top).
Bases whose name starts with '~' are Z2 parities (exponents mod 2).
"""
from fractions import Fraction

POLY = "poly"
ONE = ()


def G(**kw):
    return norm({k: Fraction(v) for k, v in kw.items()})


def norm(d):
    out = {}
    for k, v in d.items():
        v = Fraction(v)
        if k.startswith("~"):
            if v.denominator != 1:
                return None
            v = Fraction(int(v) % 2)
        if v:
            out[k] = v
    return tuple(sorted(out.items()))


def gmul(a, b):
    if a is None or b is None:
        return None
    if a == POLY or b == POLY:
        return POLY
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v
    return norm(d)


def gpow(a, p):
    if a is None:
        return None
    if a == POLY:
        return POLY
    p = Fraction(p).limit_denominator(1000)
    d = {}
    for k, v in a:
        if k.startswith("~"):
            if p.denominator == 1:
                d[k] = v * p
            elif p.denominator == 2 and False:
                return None
            else:
                return None
        else:
            d[k] = v * p
    return norm(d)


def ginv(a):
    return gpow(a, -1)


def gdiv(a, b):
    if a is None or b is None:
        return None
    if b == POLY:
        return None
    if a == POLY:
        return POLY
    return gmul(a, ginv(b))


def even(a):
    """drop parities (abs, even functions)"""
    if a is None or a == POLY:
        return a
    return tuple((k, v) for k, v in a if not k.startswith("~"))


def show(a):
    if a is None:
        return "?"
    if a == POLY:
        return "any"
    if not a:
        return "1"
    return " ".join(k if v == 1 else "%s^%s" % (k, v) for k, v in a)


# ---- torsor weights: {(frame, monomial): coeff}; monomial = ((termid, exp), ...)


def wadd(a, b, s=1):
    if a is None or b is None:
        return None
    if not b:
        return a
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + s * v
    return tuple(sorted((k, v) for k, v in d.items() if abs(v) > 1e-12))


def wscale(a, c):
    if a is None:
        return None
    return tuple((k, v * c) for k, v in a) if c else ()


def wmono(a, mono, coeff, sign=1):
    """multiply weight by coeff*mono (or divide, sign=-1)"""
    if a is None:
        return None
    out = {}
    for (f, m), v in a:
        d = dict(m)
        for t, e in mono:
            d[t] = d.get(t, 0) + sign * e
        m2 = tuple(sorted((t, e) for t, e in d.items() if e))
        out[(f, m2)] = out.get((f, m2), 0) + v * (coeff if sign == 1 else 1.0 / coeff)
    return tuple(sorted((k, v) for k, v in out.items() if abs(v) > 1e-12))
