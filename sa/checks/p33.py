"""P33: special functions, interpolation tables, quadrature and root finding."""
from ..core import *
from .. import fp as fpm
from ..eqs import laws, grouped

PRE = "import galsim, math\nfrom jax_galsim.bessel import kv, si, j0\n"
UT = "import math\nfrom jax_galsim.core.utils import bisect_for_root\nfrom jax_galsim.utilities import horner, horner2d, g1g2_to_e1e2\nfrom jax_galsim.core.math import safe_sqrt\n"
AK = """import math
from jax_galsim.core.interpolate import akima_interp, akima_interp_coeffs
def slopes(x, y):
    n = 7
    m = [(y[i+1] - y[i])/(x[i+1] - x[i]) for i in range(n - 1)]
    s = [m[0], (m[0] + m[1])/2]
    for i in range(2, n - 2):
        w1 = jnp.abs(m[i+1] - m[i])
        w2 = jnp.abs(m[i-1] - m[i-2])
        s.append(jnp.where(w1 + w2 > 1e-12, (w1*m[i-1] + w2*m[i])/(w1 + w2), (m[i-1] + m[i])/2))
    return s + [(m[n-3] + m[n-2])/2, m[n-2]]
def akima_cubic(i, x, y):
    s = slopes(x, y)
    h = x[i+1] - x[i]
    d = (y[i+1] - y[i])/h
    return [y[i], s[i], (3*d - 2*s[i] - s[i+1])/h, (s[i] + s[i+1] - 2*d)/h**2]
def akima_ref(q, x, y):
    v = 0.
    for i in range(6):
        a, b, c, d = akima_cubic(i, x, y)
        t = q - x[i]
        v = jnp.where((q >= x[i]) & (q < x[i+1]), a + b*t + c*t**2 + d*t**3, v)
    return v
"""
IN = "import math\nfrom jax_galsim.integ import int1d\nf = lambda x: (1. + bn*bn*x + bn*x**2)*jnp.exp(-x**2)\n"
SPEC = {"k7": ("jax", 1, "f", (7,)),"bx": ("jax", 0, "f"), "bn": ("jax", 0, "f"), "big": ("jax", 0, "f"), "sx": ("jax", 0, "f"), "gg": ("jax", 0, "f"), "neg": ("jax", 0, "f"), "pc": ("jax", 0, "f"), "xs": ("jax", 1, "f", (5,)), "c5": ("jax", 1, "f", (5,)),
        "c34": ("jax", 2, "f", (3, 4)), "c33": ("jax", 2, "f", (3, 3)), "lo": ("jax", 0, "f"), "hi": ("jax", 0, "f")}
VALS = {
    "bx": [[0.05, 0.4, 1.2, 1.9, 2.3, 3.5, 7.0, 15.0][k % 8] * (1 + 0.01 * k) for k in range(40)],
    "bn": [[0.0, 0.3, 0.5, 1.0, 1.7, -0.6, 2.5, 3.9, 4.6, -0.2, 1.5, -2.3, 11.2][k % 13] for k in range(40)],
    "big": [50.0 + 3.1 * k for k in range(40)],
    "neg": [-0.3 - 0.7 * k for k in range(40)],
    "sx": [[0.1, 1.3, 3.9, 4.1, 7.7, 15.0, 60.0, 0.0][k % 8] * (1 - 2 * (k % 3 == 1)) * (1 + 0.003 * k) for k in range(40)],
    "pc": [0.1 + 0.19 * k for k in range(40)],
}


def obligations():
    out = []

    def A(name, src, *prs):
        for p in prs:
            out.append((name, src, p))

    A("kv", PRE, ("kv(bn, bx)", "galsim.bessel.kv(bn, bx)"), ("kv(-bn, bx)", "galsim.bessel.kv(bn, bx)"), ("kv(big, bx*5)", "galsim.bessel.kv(big, bx*5)"), ("kv(0.5, bx)", "jnp.sqrt(math.pi/(2*bx))*jnp.exp(-bx)"), ("kv(2, bx)", "galsim.bessel.kv(2, bx)"))
    A("kv at the ends", PRE, ("kv(bn, 0.)", "jnp.inf"), ("jnp.isnan(kv(bn, neg))", "True"))
    A("kv derivatives", PRE + "v, res = kv.fwd(bn, bx)\ngn, gx = kv.bwd(res, gg)\n", ("v", "galsim.bessel.kv(bn, bx)"), ("gx", "-0.5*gg*(galsim.bessel.kv(bn - 1, bx) + galsim.bessel.kv(bn + 1, bx))"), ("gn", "0.*bn"))
    A("si", PRE, ("si(sx)", "galsim.bessel.si(sx)"), ("si(-sx)", "-si(sx)"))
    A("j0", PRE, ("j0(sx)", "galsim.bessel.j0(sx)"), ("j0(-sx)", "j0(sx)"), ("j0(xs)", "galsim.bessel.j0(xs)"))
    # root finding: the bracket shrinks around the sign change, for rising and falling functions
    for nm, f in (("rising", "x**3 - pc"), ("falling", "pc - x**3"), ("step", "jnp.where(x < pc**(1/3), -1., 2.)")):
        A("bisect " + nm, UT + "r = pc**(1/3)\n", ("bisect_for_root(lambda x: %s, 0., 3.)" % f, "r"), ("jnp.abs(bisect_for_root(lambda x: %s, -1., 3., niter=9) - r) <= 4/2**9" % f, "True"), ("bisect_for_root(lambda x: %s, -1., 3., niter=60)" % f, "r"))
    # polynomials
    A("horner", UT, ("horner(bx, c5)", "c5[0] + bx*(c5[1] + bx*(c5[2] + bx*(c5[3] + bx*c5[4])))"), ("horner(xs, c5)", "c5[0] + xs*(c5[1] + xs*(c5[2] + xs*(c5[3] + xs*c5[4])))"), ("horner(bx, 3.)", "3."), ("horner(bx, [1., 2.])", "1. + 2.*bx"))
    q = "(%s)"
    row = lambda a, i, n: " + ".join("%s[%d,%d]*gg**%d" % (a, i, j, j) for j in range(n))
    A("horner2d", UT, ("horner2d(bx, gg, c34)", " + ".join("bx**%d*(%s)" % (i, row("c34", i, 4)) for i in range(3))),
      ("horner2d(bx, gg, c33, triangle=True)", " + ".join("bx**%d*(%s)" % (i, row("c33", i, 3 - i)) for i in range(3))), ("horner2d(bx, gg, c33)", " + ".join("bx**%d*(%s)" % (i, row("c33", i, 3)) for i in range(3))))
    # Akima splines: Hermite cubics through the knots with Akima's slopes
    for nm, xk, fs in (("", "jnp.array([0., 0.5, 1.2, 2., 2.9, 3.3, 4.])", ""), (" on a grid", "jnp.array([-1., -0.5, 0., 0.5, 1., 1.5, 2.])", ", fixed_spacing=True")):
        s = AK + "xk = %s\nco = akima_interp_coeffs(xk, k7)\nf = lambda t: akima_interp(t, xk, k7, co%s)\nq = xk[0] + (xk[6] - xk[0])*pc/8.\n" % (xk, fs)
        A("akima" + nm, s, ("f(q)", "akima_ref(q, xk, k7)"), ("[f(xk[i]) for i in range(7)]", "[k7[i] for i in range(7)]"), ("f(xk[0] - pc)", "0."), ("f(xk[6] + pc)", "0."), ("f(jnp.array([q, xk[0] - 1., xk[3]]))", "jnp.array([akima_ref(q, xk, k7), 0., k7[3]])"),
          ("akima_interp(q, xk, 2. + 3.*xk, akima_interp_coeffs(xk, 2. + 3.*xk)%s)" % fs, "2. + 3.*q"), ("[c[2] for c in co]", "akima_cubic(2, xk, k7)"), ("[c[0] for c in co]", "akima_cubic(0, xk, k7)"), ("[c[5] for c in co]", "akima_cubic(5, xk, k7)"))
    A("g1g2_to_e1e2", UT, ("g1g2_to_e1e2(0.3*jnp.cos(bx), 0.3*jnp.sin(bx))", "(0.6/1.09*jnp.cos(bx), 0.6/1.09*jnp.sin(bx))"), ("g1g2_to_e1e2(0., 0.)", "(0., 0.)"))
    A("safe_sqrt", UT, ("safe_sqrt(bx)", "jnp.sqrt(bx)"), ("safe_sqrt(neg)", "0.*neg"))
    # one-dimensional integrals
    A("int1d", IN, ("int1d(lambda x: 3*x**2 + bn*x, -0.7, bx)", "bx**3 + 0.343 + bn*(bx**2 - 0.49)/2"), ("int1d(f, -math.inf, math.inf)", "math.sqrt(math.pi)*(1. + bn/2)"), ("int1d(f, 0., math.inf)", "math.sqrt(math.pi)*(1. + bn/2)/2 + 0.5*bn*bn"),
      ("int1d(f, -math.inf, 0.)", "math.sqrt(math.pi)*(1. + bn/2)/2 - 0.5*bn*bn"), ("int1d(f, -2e4, 3e5)", "math.sqrt(math.pi)*(1. + bn/2)"), ("int1d(f, 0., 2e4)", "int1d(f, 0., math.inf)"), ("int1d(lambda x: x, 0., 9e3)", "40.5e6"), ("int1d(lambda x: x**3, -bx, bx)", "0."), ("int1d(lambda x: x, bx, bx + 1)", "bx + 0.5"))
    A("int1d status finite", IN + "v = int1d(f, -0.7, bx)\n", ("", ""))
    A("int1d status infinite", IN + "v = int1d(f, -math.inf, math.inf)\n", ("", ""))
    A("quadrature weights", "from jax_galsim.core.integrate import ClenshawCurtisQuad, quad_integral\nq = ClenshawCurtisQuad.init(4)\n", ("quad_integral(lambda x: 4*x**3 - bn*x, -0.7, bx, q)", "bx**4 - 0.2401 - bn*(bx**2 - 0.49)/2"), ("quad_integral(lambda x: 9*x**8, 0., bx/3, q)", "(bx/3)**9"), ("jnp.sum(q.absw)", "1."), ("jnp.sum(q.errw)", "0."), ("q.order", "9"))
    return out


def status_rule(I, R, n, s, _):
    """a failure of any quadrature the result rests on raises"""

    def h(I):
        env = zoo.AtomEnv(I, True, spec=SPEC)
        F = fpm.Fp(I, VALS)
        I.exact = (40, F, 24)
        try:
            zoo.exec_in(I, s, env)
        finally:
            I.exact = None
        qs = [c[1] for c in I.extcalls if c[0] == "quadax.quadgk"]
        es = [c[1][1] if len(c[1]) > 1 else c[2].get("pred") for c in I.extcalls if c[0] == "equinox.error_if"]
        return [q[0].args[0] for q in qs], [[any(isinf(v) for v in q[1]), all(isinf(v) for v in q[1])] for q in qs], es

    def isinf(v):
        return isinstance(v, float) and v in (float("inf"), float("-inf"))

    for r in run(I, h, 8):
        if not r.ok:
            R.undec(n, r.res)
            continue
        names, infs, es = r.res

        def raises(bad):
            F = fpm.Fp(I, dict(VALS, **{q: [int(q in bad)] * 40 for q in names}))
            vs = [F.at(e, k) if isinstance(e, Sym) else (e, False) for e in es for k in range(4)]
            if any(t or x != x for x, t in vs):
                return None
            return any(bool(x) for x, t in vs)

        half = [q for q, i in zip(names, infs) if i[0] and not i[1]]
        cases = [("no failure", (), False), ("every quadrature fails", names, True)] + [("one half fails", (q,), True) for q in half if "math.inf, math.inf" in s]
        for lab, bad, want in cases:
            got = raises(bad)
            if got is None:
                R.undec("%s: %s" % (n, lab), "condition not decided")
            elif got != want:
                R.violate("law", "%s: %s" % (n, lab), "int1d %s" % ("raises" if got else "does not raise"))
            else:
                R.hold("%s: %s" % (n, lab))


def main():
    I = interp()
    R = Report("P33", "special functions equal their defining integrals, interpolation tables, quadrature, root finding and polynomial evaluation satisfy their defining identities", 30,
               "Recurrences with data-dependent trip counts are followed until their exit condition is decided at every valuation; results are compared with reference formulas by fingerprints of the resulting terms.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    if n.startswith("int1d status"):
        return status_rule(I, R, n, s, p)
    for q in p:
        laws(I, R, n, s, [q], spec=SPEC, vals=VALS, exact=160)
