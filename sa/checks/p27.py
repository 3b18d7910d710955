"""P27: shears and angles: every parametrisation describes the same distortion."""
from ..core import *
from ..eqs import laws, grouped, must_raise

G = "(1-jnp.sqrt(1-E*E))/E"
FORMS = {
    "g1,g2": ("Shear(g1=sg1, g2=sg2)", "sg1", "sg2", ""),
    "g1": ("Shear(g1=sg1)", "sg1", "0.", ""),
    "g2": ("Shear(g2=sg2)", "0.", "sg2", ""),
    "complex": ("Shear(sg1 + 1j*sg2)", "sg1", "sg2", ""),
    "_Shear": ("_Shear(sg1 + 1j*sg2)", "sg1", "sg2", ""),
    "e1,e2": ("Shear(e1=sg1, e2=sg2)", "sg1*GG/E", "sg2*GG/E", "E = jnp.sqrt(sg1**2+sg2**2)\nGG = E/(1+jnp.sqrt(1-E*E))\n"),
    "e1": ("Shear(e1=sg1)", "sg1/(1+jnp.sqrt(1-sg1**2))", "0.", ""),
    "eta1,eta2": ("Shear(eta1=sg1, eta2=sg2)", "sg1*GG/E", "sg2*GG/E", "E = jnp.sqrt(sg1**2+sg2**2)\nGG = jnp.tanh(E/2)\n"),
    "e2": ("Shear(e2=sg2)", "0.", "sg2/(1+jnp.sqrt(1-sg2**2))", ""),
    "eta1": ("Shear(eta1=sg1)", "jnp.tanh(sg1/2)", "0.", ""),
    "eta2": ("Shear(eta2=sg2)", "0.", "jnp.tanh(sg2/2)", ""),
    "g,beta": ("Shear(g=pm, beta=rot*radians)", "pm*jnp.cos(2*rot)", "pm*jnp.sin(2*rot)", ""),
    "e,beta": ("Shear(e=pm, beta=rot*radians)", "pm/(1+jnp.sqrt(1-pm**2))*jnp.cos(2*rot)", "pm/(1+jnp.sqrt(1-pm**2))*jnp.sin(2*rot)", ""),
    "eta,beta": ("Shear(eta=pm, beta=rot*radians)", "jnp.tanh(pm/2)*jnp.cos(2*rot)", "jnp.tanh(pm/2)*jnp.sin(2*rot)", ""),
    "q,beta": ("Shear(q=pm, beta=rot*radians)", "(1-pm)/(1+pm)*jnp.cos(2*rot)", "(1-pm)/(1+pm)*jnp.sin(2*rot)", ""),
    "none": ("Shear()", "0.", "0.", ""),
}
VALS = {"pm": [0.15 + 0.03 * k for k in range(24)]}
TINY = [(0.0004 if k % 2 else 4e-6) * (k + 1) for k in range(24)]
SMALL = {"pm": TINY, "sg1": [t * (-1) ** k for k, t in enumerate(TINY)], "sg2": [0.7 * t * (1 if k % 3 else -1) for k, t in enumerate(TINY)]}
SMALLQ = {"pm": [1 - t for t in TINY]}


def obligations():
    out = []

    def A(name, pre, *prs):
        for p in prs:
            out.append((name, pre, p))

    forms = list(FORMS.items()) + [("small " + n, f) for n, f in FORMS.items() if n != "none"]
    for n, (src, g1, g2, pre) in forms:
        pr = pre + "s = %s\nh1 = %s\nh2 = %s\nh = jnp.sqrt(h1*h1+h2*h2)\n" % (src, g1, g2)
        A("Shear(%s)" % n, pr, ("s.g1", "h1"), ("s.g2", "h2"), ("s.g", "h"), ("s.q", "(1-h)/(1+h)"), ("s.e", "2*h/(1+h*h)"), ("s.esq", "(2*h/(1+h*h))**2"), ("s.eta", "2*jnp.arctanh(h)"), ("s.e1", "2*h1/(1+h*h)"), ("s.e2", "2*h2/(1+h*h)"), ("s.shear", "h1+1j*h2"),
          ("(s.getMatrix()[0, 0], s.getMatrix()[0, 1], s.getMatrix()[1, 0], s.getMatrix()[1, 1])", "((1+h1)/jnp.sqrt(1-h*h), h2/jnp.sqrt(1-h*h), h2/jnp.sqrt(1-h*h), (1-h1)/jnp.sqrt(1-h*h))"), ("-s", "_Shear(-h1-1j*h2)"))
        if n != "none":
            A("Shear(%s)" % n, pr, ("s.eta1", "2*jnp.arctanh(h)*h1/h"), ("s.eta2", "2*jnp.arctanh(h)*h2/h"), ("s.beta.rad", "jnp.arctan2(h2, h1)/2"))
    S = "a = Shear(g1=sg1, g2=sg2)\nb = Shear(g1=e1, g2=e2)\nA = a.getMatrix()\nB = b.getMatrix()\nC = (a + b).getMatrix()\nt = a.rotationWith(b).rad\nc, n = jnp.cos(t), jnp.sin(t)\nM = A.dot(B)\n"
    A("Shear composition", S, ("(a + b).shear", "(a.shear+b.shear)/(1+jnp.conj(a.shear)*b.shear)"), ("(a - b).shear", "(a + (-b)).shear"), ("(a + (-a)).g", "0."), ("(a + Shear()).shear", "a.shear"), ("(Shear() + a).shear", "a.shear"),
      ("(M[0, 0], M[0, 1], M[1, 0], M[1, 1])", "(C[0, 0]*c+C[0, 1]*n, -C[0, 0]*n+C[0, 1]*c, C[1, 0]*c+C[1, 1]*n, -C[1, 0]*n+C[1, 1]*c)"), ("a == Shear(g1=sg1, g2=sg2)", "True"))
    N = "import math\na = Angle(theta, radians)\nb = Angle(th9, degrees)\n"
    A("Angle", N, ("a.rad", "theta"), ("b.rad", "th9*math.pi/180"), ("b.deg", "th9"), ("(theta * hours).rad", "theta*math.pi/12"), ("(theta * arcmin).rad", "theta*math.pi/10800"), ("(theta * arcsec).rad", "theta*math.pi/648000"), ("(theta * radians).rad", "theta"), ("(theta * degrees).rad", "theta*math.pi/180"),
      ("a / radians", "theta"), ("a / degrees", "theta*180/math.pi"), ("a / hours", "theta*12/math.pi"), ("a / arcmin", "theta*10800/math.pi"), ("a / arcsec", "theta*648000/math.pi"), ("degrees / arcmin", "60."), ("hours / degrees", "15."), ("arcmin / arcsec", "60."), ("radians.value", "1."),
      ("(a + b).rad", "theta+th9*math.pi/180"), ("(a - b).rad", "theta-th9*math.pi/180"), ("(a * mag).rad", "theta*mag"), ("(mag * a).rad", "theta*mag"), ("(a / mag).rad", "theta/mag"), ("(-a).rad", "-theta"), ("(+a).rad", "theta"), ("abs(a).rad", "abs(theta)"),
      ("a.sin()", "jnp.sin(theta)"), ("a.cos()", "jnp.cos(theta)"), ("a.tan()", "jnp.tan(theta)"), ("a.sincos()", "(jnp.sin(theta), jnp.cos(theta))"), ("a < b", "theta < th9*math.pi/180"), ("a <= b", "theta <= th9*math.pi/180"), ("a > b", "theta > th9*math.pi/180"), ("a >= b", "theta >= th9*math.pi/180"),
      ("Angle(a).rad", "theta"), ("_Angle(theta).rad", "theta"), ("AngleUnit(pyfa).value", "pyfa"), ("(theta * AngleUnit(pyfa)).rad", "theta*pyfa"), ("a == Angle(theta, radians)", "True"),
      ("jnp.cos((a*7.).wrap().rad)", "jnp.cos(7*theta)"), ("jnp.sin((a*7.).wrap().rad)", "jnp.sin(7*theta)"), ("abs((a*7.).wrap().rad) <= math.pi", "True"), ("jnp.cos((a*7.).wrap(b).rad)", "jnp.cos(7*theta)"), ("abs(((a*7.).wrap(b)-b).rad) <= math.pi", "True"),
      ("AngleUnit.from_name('deg').value", "math.pi/180"), ("AngleUnit.from_name('rad').value", "1."), ("AngleUnit.from_name('hour').value", "math.pi/12"), ("AngleUnit.from_name('hr').value", "math.pi/12"), ("AngleUnit.from_name('arcmin').value", "math.pi/10800"), ("AngleUnit.from_name('arcsec').value", "math.pi/648000"), ("AngleUnit.from_name(' Degrees ').value", "math.pi/180"))
    for e in ("Shear(g1=0.8, g2=0.7)", "Shear(g1=1.1)", "Shear(g2=-1.1)", "Shear(e1=0.8, e2=0.7)", "Shear(e1=-1.1)", "Shear(e2=1.1)", "Shear(g=1.2, beta=b)", "Shear(g=-0.1, beta=b)", "Shear(e=1.2, beta=b)", "Shear(e=-0.1, beta=b)", "Shear(eta=-0.1, beta=b)",
              "Shear(q=0., beta=b)", "Shear(q=-0.2, beta=b)", "Shear(q=1.2, beta=b)", "Shear(g=0.1)", "Shear(e=0.1)", "Shear(eta=0.1)", "Shear(q=0.1)", "Shear(beta=b)", "Shear(g=0.1, beta=0.3)", "Shear(e=0.1, beta=0.3)", "Shear(eta=0.1, beta=0.3)", "Shear(q=0.3, beta=0.3)",
              "Shear(g1=0.1, e1=0.1)", "Shear(g1=0.1, q=0.1)", "Shear(e1=0.1, g=0.1, beta=b)", "Shear(eta1=0.1, eta=0.1, beta=b)", "Shear(e=0.1, q=0.2, beta=b)", "Shear(g1=0.1, foo=3)", "Shear(foo=0.1)", "Shear(0.1, 0.2)", "Shear(g1=0.1, beta=b)",
              "Angle(3.)", "Angle(3., 'degrees')", "Angle(b, degrees)", "Angle('a', degrees)", "AngleUnit.from_name('furlong')", "b + 3.", "b - 3.", "b*b", "b*degrees", "3. + b", "degrees*degrees", "degrees/3.", "b < 3.", "b.wrap(3.)", "Angle.from_hms('1:2:3:4')"):
        out.append(("rejects", "from jax_galsim import *\nb = 0.3*radians\n", (e,)))
    for e, v in (("Shear(g1=0.6, g2=0.8).g", "1."), ("Shear(g=1., beta=b).g", "1."), ("Shear(g=0., beta=b).g", "0."), ("Shear(e=0., beta=b).g", "0."), ("Shear(e=1., beta=b).g", "1."), ("Shear(eta=0., beta=b).g", "0."), ("Shear(q=1., beta=b).g", "0."), ("Shear(e1=0.6, e2=0.8).g", "1.")):
        A("limits", "from jax_galsim import *\nb = 0.3*radians\n", (e, v))
    SX = "from jax_galsim import *\nimport math\n"
    for e, v in (("(12.5*degrees).dms()", "12:30:00"), ("(-12.51*degrees).dms(prec=2)", "-12:30:36.00"), ("(3.21*hours).hms(sep='hms')", "03h12m36s"), ("(3.21*hours).hms(sep=' ', plus_sign=True)", "+03 12 36"), ("(-3.21*hours).hms(plus_sign=True)", "-03:12:36"),
                 ("(1.0123*degrees).dms(pad=False, prec=4)", "1:0:44.2800"), ("(59.9999999999*degrees).dms(prec=1)", "60:00:00.0"), ("(0.5*degrees).dms(prec=0)", "00:30:00"), ("(-0.0001*degrees).dms()", "-00:00:00.36"), ("(100.25*degrees).dms(sep=':.')", "100:15.00"),
                 ("(1.*degrees).hms()", "00:04:00"), ("(3.5*degrees).dms(sep='dms')", "03d30m00s"), ("(3.5*hours).hms(prec=0)", "03:30:00"), ("(0.*degrees).dms()", "00:00:00"), ("(0.*hours).hms(plus_sign=True)", "+00:00:00"), ("(1.000000000012*degrees).dms()", "01:00:00.00000004"), ("(1.*hours).dms()", "15:00:00"), ("(12.3456789*degrees).dms()", "12:20:44.44404"), ("(12.3456789*degrees).dms(prec=3)", "12:20:44.444"), ("(7.1*degrees).dms(sep='')", "070600"), ("(12.9999999*hours).hms(prec=2)", "13:00:00.00"), ("(12.9999999*hours).hms(prec=4)", "12:59:59.9996")):
        A("sexagesimal", SX, (e, repr(v)))
    for t, v in (("12:34:56.75", "12. + 34/60. + 56.75/3600"), ("-1:30", "-1.5"), ("+1:30:00.5", "1.5 + 0.5/3600"), ("1d 30m 15.5s", "1.5 + 15.5/3600"), (" 7h30m", "7.5"), ("-0:30:00", "-0.5"), ("-12 06 36.", "-12.11"), ("1:2:3.25", "1. + 2/60. + 3.25/3600"), ("11:30:", "11.5"), ("6h", "6."), ("-6d", "-6.")):
        A("sexagesimal parsing", SX, ("Angle.from_dms(%r).rad" % t, "(%s)*math.pi/180" % v), ("Angle.from_hms(%r).rad" % t, "(%s)*math.pi/12" % v))
    for e in ("Angle.from_dms('12')", "Angle.from_hms('-12')", "Angle.from_dms('1:2:3:4')", "Angle.from_hms('1:2:3:4')", "Angle.from_dms('abc')", "Angle.from_dms('')", "(3.*degrees).dms(sep='abcd')", "(3.*degrees).hms(sep='abcd')", "(3.*degrees).dms(prec=-1)", "(3.*degrees).hms(prec=-2)"):
        out.append(("rejects", SX, (e,)))
    A("Angle comparison", N, ("a != a*1.", "False"), ("a != Angle(theta + 1., radians)", "True"), ("a == Angle(theta + 1., radians)", "False"), ("a != 3.", "True"), ("a == 3.", "False"), ("a <= a*1.", "True"), ("a >= a*1.", "True"), ("a < a*1.", "False"), ("a > a*1.", "False"), ("a < Angle(theta + 1., radians)", "True"), ("a > Angle(theta + 1., radians)", "False"),
      ("a <= Angle(theta + 1., radians)", "True"), ("a >= Angle(theta + 1., radians)", "False"), ("degrees == AngleUnit(math.pi/180)", "True"), ("degrees != AngleUnit(math.pi/180)", "False"), ("degrees == hours", "False"), ("degrees != hours", "True"), ("AngleUnit('0.25').value", "0.25"))
    return out


def main():
    I = interp()
    R = Report("P27", "g, e, eta, q and beta of a shear built from any parametrisation are those of the same distortion; composition, negation and matrices agree; angle units convert exactly", 170, "Identities decided by value numbering and term fingerprints on symbolic shears and angles.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    if n == "rejects":
        for q in p:
            must_raise(I, R, "rejects " + q[0], s + q[0] + "\n")
        return
    vals, tr = VALS, True
    if "small" in n:
        # the series branches
        vals = SMALLQ if "q,beta" in n else SMALL
    if "complex" in n or "comparison" in n:
        tr = False  # Shear(complex) inspects its argument
    laws(I, R, n, s, p, vals=vals, tol=3e-10 if "small" in n else 1e-8, traced=tr)
