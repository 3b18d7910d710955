"""P16: interpolants are the kernels they are documented to be."""
import math

from ..core import *
from ..eqs import laws, grouped

PF = ("pyf", 0, "f")
PI = ("pyi", 0, "i")
XS = [0.0, 0.13, -0.37, 0.62, -0.81, 1.0, -1.0, 1.21, -1.46, 1.77, -1.93, 2.0, 2.14, -2.58, 2.91, 3.0, 3.3, -3.7, 4.4, -4.8, 5.5, -6.2, 0.5, -0.49]
US = [0.0, 0.07, -0.11, 0.23, 0.31, -0.42, 0.49, 0.51, -0.61, 0.74, 0.86, 0.97, 1.0, 1.13, -1.31, 1.52, 1.76, -1.9, 2.0, 2.2, -2.4, 2.61, 2.9, 3.1]
KV = [1e-5, 2e-5, 5e-6, 1e-4, 3e-5, 7e-6] * 4
YS = [[math.sin(1.7 * i * i + 0.9 * k) + 0.1 * i for i in range(9)] for k in range(24)]
SPEC = {"px": PF, "pu": PF, "kva": PF, "tsp": PF, "ax": ("jax", 1, "f", (5,)), "ak": ("jax", 1, "f", (5,)), "yp": ("jax", 1, "f", (9,)), "ypn": ("np", 1, "f", (9,)), "x0": PF, "dx": PF, "pt": PF, "ya": PF, "yb": PF}
VALS = {"px": XS, "pu": US, "kva": KV, "ax": XS, "ak": [6.2 * u for u in US], "dx": [0.5 + 0.03 * i for i in range(24)], "pt": [-0.3 + 0.37 * i for i in range(24)]}
SI = "s = jnp.sinc(pu)\nc = jnp.cos(math.pi*pu)\npq = (math.pi*pu)**2\n"
AX = "a = jnp.abs(px)\n"

# closed forms of the kernels and of their transforms
KER = {
    "Nearest()": ("jnp.where(a > 0.5, 0., 1.)", "s", "1./math.pi/G.kvalue_accuracy", 0.5, 1),
    "SincInterpolant()": ("jnp.sinc(a)", "jnp.where(jnp.abs(pu) > 0.5, 0., 1.)", "0.5", None, None),
    "Linear()": ("jnp.where(a > 1., 0., 1. - a)", "s**2", "1./math.sqrt(G.kvalue_accuracy)/math.pi", 1, 2),
    "Cubic()": ("jnp.where(a < 1., 1.5*a**3 - 2.5*a**2 + 1., jnp.where(a < 2., -0.5*a**3 + 2.5*a**2 - 4.*a + 2., 0.))", "s**3*(3.*s - 2.*c)", "(3.*math.sqrt(3.)/8./G.kvalue_accuracy)**(1./3.)/math.pi", 2, 4),
    "Quintic()": (
        "jnp.where(a <= 1., 1. + a**3/12.*(-95. + 138.*a - 55.*a**2), jnp.where(a <= 2., (a-1.)*(a-2.)/24.*(-138. + 348.*a - 249.*a**2 + 55.*a**3), jnp.where(a <= 3., (a-2.)*(a-3.)**2/24.*(-54. + 50.*a - 11.*a**2), 0.)))",
        "s**5*(s*(55. - 19.*pq) + 2.*c*(pq - 27.))", "(25.*math.sqrt(5.)/108./G.kvalue_accuracy)**(1./3.)/math.pi", 3, 6),
}
GP = "import math\nfrom jax_galsim.interpolant import _gs_raw_uval, _gs_uval, _sinc_unit_integrals, _sinc_fluxes, _lanczos_kval_interp_table, _compute_C_K_lanczos\nfrom jax_galsim.core.interpolate import akima_interp, akima_interp_coeffs\nG = GSParams(kvalue_accuracy=kva)\n"


def quad(f, a, b, m=8):
    """Gauss-Legendre on m panels"""
    xs = (0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717)
    ws = (0.2955242247147529, 0.2692667193099963, 0.2190863625159821, 0.1494513491505806, 0.0666713443086881)
    h = (b - a) / m
    t = 0.0
    for i in range(m):
        c = a + (i + 0.5) * h
        t += h / 2 * sum(w * (f(c + h / 2 * x) + f(c - h / 2 * x)) for x, w in zip(xs, ws))
    return t


def sinc(x):
    return 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x)


def rawu(u, n):
    """transform of sinc(x) sinc(x/n), |x| < n, by quadrature"""
    return 2 * sum(quad(lambda x: sinc(x) * sinc(x / n) * math.cos(2 * math.pi * u * x), i, i + 1, 8 + int(abs(4 * u))) for i in range(n))


def lanczos(n, dc):
    K = [0.0] + [rawu(i, n) for i in range(1, 6)]

    def f(x):
        v = sinc(x) * sinc(x / n)
        if dc:
            v /= 1.0 + 2.0 * sum(K[j] * (math.cos(2 * math.pi * j * x) - 1.0) for j in range(1, 6))
        return v

    return f, K


def tables(n, dc):
    f, K = lanczos(n, dc)
    ui = [2 * quad(f, 0, 0.5)] + [quad(f, i - 0.5, i) + quad(f, i, i + 0.5) for i in range(1, n)] + [quad(f, n - 0.5, n)]
    seg = [quad(f, i, i + 1) for i in range(n)]
    pos = sum(s for s in seg if s > 0)
    tot = sum(seg)
    return ui, pos / tot, pos / tot - 1.0


def poly_tables(name):
    import re
    src = KER[name][0]
    code = src.replace("jnp.where(", "W(lambda: ")
    # evaluate the closed form with python floats
    def f(x):
        a = abs(x)
        if name.startswith("Cubic"):
            return 1.5 * a**3 - 2.5 * a**2 + 1.0 if a < 1 else (-0.5 * a**3 + 2.5 * a**2 - 4 * a + 2 if a < 2 else 0.0)
        return 1 + a**3 / 12 * (-95 + 138 * a - 55 * a**2) if a <= 1 else (a - 1) * (a - 2) / 24 * (-138 + 348 * a - 249 * a**2 + 55 * a**3) if a <= 2 else (a - 2) * (a - 3) ** 2 / 24 * (-54 + 50 * a - 11 * a**2) if a <= 3 else 0.0
    n = KER[name][3]
    ui = [2 * quad(f, 0, 0.5)] + [quad(f, i - 0.5, i) + quad(f, i, i + 0.5) for i in range(1, n)] + [quad(f, n - 0.5, n)]
    # positive part, with the sign changes inside an interval located by bisection
    pos = 0.0
    for i in range(n):
        zs = [float(i)]
        g = [i + j / 64.0 for j in range(65)]
        for p, q in zip(g, g[1:]):
            if f(p) * f(q) < 0:
                lo, hi = p, q
                for _ in range(80):
                    m = 0.5 * (lo + hi)
                    if f(lo) * f(m) <= 0:
                        hi = m
                    else:
                        lo = m
                zs.append(0.5 * (lo + hi))
        zs.append(i + 1.0)
        for p, q in zip(zs, zs[1:]):
            pos += max(0.0, quad(f, p, q))
    return ui, 2 * pos, 2 * pos - 1.0


def obligations():
    out = []

    def A(n, src, *pairs):
        for p in pairs:
            out.append((n, GP + src, p))

    for nm, (xv, kv, ur, xr, ix) in KER.items():
        s = AX + SI + "o = %s\n" % nm.replace("()", "(gsparams=G)")
        A(nm, s, ("o.xval(px)", xv), ("o.xval(-px)", "o.xval(px)"), ("o.xval(0.)", "1."), ("o.kval(2*math.pi*pu)", kv), ("o.kval(-2*math.pi*pu)", "o.kval(2*math.pi*pu)"), ("o.kval(0.)", "1."),
          ("o.krange", "2*math.pi*(%s)" % ur), ("o.urange()", ur), ("o.xval(ax)[2]", "o.xval(ax[2])"), ("o.kval(ak)[3]", "o.kval(ak[3])"), ("o.xval(ax).shape", "(5,)"), ("o.kval(ak).shape", "(5,)"),
          ("o.positive_flux - o.negative_flux", "1."), ("o.gsparams", "G"), ("o.gsparams.kvalue_accuracy", "kva"))
        for i in range(1, 7):
            A(nm, s, ("o.xval(%d.)" % i, "0."), ("o.xval(-%d.)" % i, "0."))
        if xr is not None:
            A(nm, s, ("o.xrange", repr(xr)), ("o.ixrange", repr(ix)), ("jnp.where(jnp.abs(px) > %r, o.xval(px), 0.)" % xr, "0."))
    A("SincInterpolant()", "o = SincInterpolant(gsparams=G)\n", ("o.xrange", "1./math.pi/kva"), ("o.ixrange", "2*math.ceil(1./math.pi/kva)"), ("o.kval(math.pi)", "0.5"), ("o.kval(-math.pi)", "0.5"))
    A("Delta()", "o = Delta(gsparams=G)\n", ("o.xval(0.)", "1./kva"), ("o.xval(px*kva)", "jnp.where(jnp.abs(px*kva) > 0.5*kva, 0., 1./kva)"), ("o.kval(pu)", "1."), ("o.kval(ak)", "jnp.ones(5)"), ("o.urange()", "1./kva"), ("o.krange", "2*math.pi/kva"),
      ("o.xrange", "0."), ("o.ixrange", "0"), ("o.positive_flux", "1."), ("o.negative_flux", "0."), ("o.unit_integrals()", "jnp.array([1.])"))
    A("unit integrals", "", ("Nearest().unit_integrals()", "jnp.array([1.])"), ("Linear().unit_integrals()", "jnp.array([0.75, 0.125])"), ("Linear().positive_flux", "1."), ("Nearest().positive_flux", "1."))
    for nm in ("Cubic()", "Quintic()"):
        ui, pos, neg = poly_tables(nm)
        A(nm, "o = %s\n" % nm, ("o.unit_integrals()", "jnp.array(%r)" % (ui,)), ("o.positive_flux", repr(pos)), ("o.negative_flux", repr(neg)))
    # Lanczos: the kernel, its DC correction and its literal tables
    for n in range(1, 31):
        for dc in (True, False):
            ui, pos, neg = tables(n, dc)
            A("Lanczos tables %d" % n, "o = Lanczos(%d, %r)\n" % (n, dc), ("o.unit_integrals()", "jnp.array(%r)" % (ui,)), ("o.unit_integrals(max_len=2)", "jnp.array(%r)" % (ui[:2],)), ("o.positive_flux", repr(pos)), ("o.negative_flux", repr(neg)))
    for n in list(range(1, 10)) + [13]:
        for dc in (True, False):
            f, K = lanczos(n, dc)
            s = "o = Lanczos(%d, %r, gsparams=G)\n" % (n, dc)
            den = "(1. + 2.*(%s))" % " + ".join("(%r)*(jnp.cos(2*math.pi*%d*px) - 1.)" % (K[j], j) for j in range(1, 6)) if dc else "1."
            A("Lanczos(%d, %r)" % (n, dc), s, ("o.xval(px)", "jnp.where(jnp.abs(px) < %d, jnp.sinc(px)*jnp.sinc(px/%d)/%s, 0.)" % (n, n, den)), ("o.xval(0.)", "1."), ("o.xval(1.)", "0."), ("o.xval(-px)", "o.xval(px)"),
              ("o.xrange", "%d" % n), ("o.ixrange", "%d" % (2 * n)), ("o.n", "%d" % n), ("o.conserve_dc", "%r" % dc), ("o.gsparams", "G"), ("o.xval(ax)[2]", "o.xval(ax[2])"), ("o.xval(%d.)" % n, "0."), ("o.xval(%d.5)" % n, "0."))
    for n in (1, 2, 3, 5, 8):
        f, K = lanczos(n, False)
        g, _ = lanczos(n, True)
        # C: cosine coefficients of the dc correction to second order in K (GalSim's LanczosInterpolant)
        C = [1.0 + 2.0 * (K[1] * (1.0 + 3.0 * K[1] + K[2] + K[3]) + K[2] + K[3] + K[4] + K[5]), -K[1] * (1.0 + 4.0 * K[1] + K[2] + 2.0 * K[3]), K[1] * (K[1] - 2.0 * K[2] + K[3]) - K[2],
             K[1] * (K[1] - 2.0 * K[3]) - K[3], K[1] * K[3] - K[4], -K[5]]
        A("Lanczos coefficients %d" % n, "c, k = _compute_C_K_lanczos(%d)\n" % n, *[("k[%d]" % j, repr(K[j])) for j in range(6)], *[("c[%d]" % j, repr(C[j])) for j in range(6)], ("Lanczos._C_arr_vals[%d]" % n, "c"), ("Lanczos._K_arr_vals[%d]" % n, "k"))
        for u in (0.0, 0.21, -0.47, 0.55, 1.13):
            w = lambda h: 2 * sum(quad(lambda x: h(x) * math.cos(2 * math.pi * u * x), i, i + 1) for i in range(n))
            A("Lanczos transform %d" % n, "", ("_gs_raw_uval(%r, %d)" % (u, n), repr(w(f))), ("_gs_uval(%r, %d, False)" % (u, n), repr(w(f))))
            fc = lambda x: f(x) * (C[0] + 2 * sum(C[j] * math.cos(2 * math.pi * j * x) for j in range(1, 6)))
            A("Lanczos transform %d" % n, "", ("_gs_uval(%r, %d, True)" % (u, n), repr(w(fc))))
            if n > 1:
                A("Lanczos corrected transform %d" % n, "", ("_gs_uval(%r, %d, True)" % (u, n), repr(w(g))))
    # names, equality, conversion
    for nm, e in (("nearest", "Nearest()"), ("linear", "Linear()"), ("cubic", "Cubic()"), ("quintic", "Quintic()"), ("delta", "Delta()"), ("sinc", "SincInterpolant()"), ("Quintic", "Quintic()"), ("LINEAR", "Linear()"),
                  ("lanczos5", "Lanczos(5)"), ("lanczos7", "Lanczos(7)"), ("lanczos5T", "Lanczos(5, True)"), ("lanczos5F", "Lanczos(5, False)"), ("Lanczos3f", "Lanczos(3, conserve_dc=False)"), ("lanczos12", "Lanczos(12)"), ("lanczos12f", "Lanczos(12, False)")):
        A("from_name(%s)" % nm, "a = Interpolant.from_name(%r)\nb = Interpolant.from_name(%r, gsparams=G)\n" % (nm, nm), ("a == %s" % e, "True"), ("a", e), ("b.gsparams", "G"), ("b == %s.withGSParams(G)" % e, "True"), ("type(a) is type(%s)" % e, "True"))
    CL = ["Delta()", "Nearest()", "Linear()", "Cubic()", "Quintic()", "SincInterpolant()", "Lanczos(3)", "Lanczos(4)", "Lanczos(3, False)"]
    for a in CL:
        A("eq %s" % a, "", *[("%s == %s" % (a, b), "%r" % (a == b)) for b in CL])
        A("withGSParams %s" % a, "o = %s\np = o.withGSParams(G)\nq = p.withGSParams(table_spacing=tsp)\n" % a, ("p.gsparams", "G"), ("o.gsparams", "GSParams()"), ("q.gsparams.table_spacing", "tsp"), ("q.gsparams.kvalue_accuracy", "kva"), ("p.withGSParams(GSParams()) == o", "True"),
          ("type(p) is type(o)", "True"), ("o.withGSParams(GSParams()) is o", "True"), *([("(q.n, q.conserve_dc)", "(o.n, o.conserve_dc)")] if "Lan" in a else []))
    # Akima interpolation of a table
    for fx in (True, False):
        s = "xp = x0 + dx*jnp.arange(9)\nco = akima_interp_coeffs(xp, yp)\nf = lambda t: akima_interp(t, xp, yp, co, fixed_spacing=%r)\n" % fx
        A("akima %r" % fx, s, *[("f(xp[%d] + %s)" % (i, "1e-9*dx" if fx else "0."), "yp[%d]" % i) for i in range(8)])
        A("akima %r" % fx, s, ("f(xp[0] - dx*(0.1 + jnp.abs(ya)))", "0."), ("f(xp[8] + dx*(0.1 + jnp.abs(ya)))", "0."))
        for i in range(8):
            A("akima cubic %r" % fx, s + "m = (yp[1:] - yp[:-1])/dx\nw = [jnp.abs(m[j+1] - m[j]) for j in range(7)]\nsl = [m[0], (m[0] + m[1])/2] + [(w[j]*m[j-1] + w[j-2]*m[j])/(w[j] + w[j-2]) for j in range(2, 7)] + [(m[6] + m[7])/2, m[7]]\nt = 0.37\n"
              "h = lambda y0, y1, s0, s1: y0*(1 + 2*t)*(1 - t)**2 + dx*s0*t*(1 - t)**2 + y1*t**2*(3 - 2*t) + dx*s1*t**2*(t - 1)\n", ("f(xp[%d] + 0.37*dx)" % i, "h(yp[%d], yp[%d], sl[%d], sl[%d])" % (i, i + 1, i, i + 1)))
        A("akima mirrored %r" % fx, s + "g = lambda t: akima_interp(t, -xp[::-1], yp[::-1], akima_interp_coeffs(-xp[::-1], yp[::-1]), fixed_spacing=%r)\nt = x0 + pt*dx\n" % fx, ("g(-t)", "f(t)"))
        A("akima linear %r" % fx, s + "zp = ya + yb*xp\nt = x0 + pt*dx\n", ("akima_interp(t, xp, zp, akima_interp_coeffs(xp, zp), fixed_spacing=%r)" % fx, "jnp.where((t < xp[0]) | (t > xp[8]), 0., ya + yb*t)"))
    A("akima host", "import numpy as np\nxp = x0 + dx*np.arange(9)\nyq = ypn\n", *[("akima_interp_coeffs(xp, yq, use_jax=False)[%d]" % i, "akima_interp_coeffs(xp, yq, use_jax=True)[%d]" % i) for i in range(4)])
    return out


def main():
    I = interp()
    R = Report("P16", "kernel values, transforms, ranges and integral tables of every interpolant are those of the documented kernel, and a spline through a table takes the table's values with Akima's slopes",
               400, "Closed forms decided by value numbering and term fingerprints; literal tables are compared with quadratures of the closed forms done by the checker.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    laws(I, R, n, s, p, traced=False, spec=SPEC, vals=VALS, tol=2e-7 if "tables" in n or "unit_integrals" in p[0][0] else 4e-3 if "corrected" in n else 1e-8)
