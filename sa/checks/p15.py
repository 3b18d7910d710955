"""P15: FITS headers and world coordinate systems correspond."""
from ..core import *
from ..eqs import laws, grouped

PF = ("pyf", 0, "f")
SPEC = {n: PF for n in ("ph1", "ph2", "pc11", "pc12", "pc21", "pc22", "pcr1", "pcr2", "psc", "pg1", "pg2", "px0", "py0", "pu0", "pv0", "pra", "pdec", "ps1", "ps2")}
SPEC.update({n: ("pyi", 0, "i") for n in ("hx", "hy")})
for _k in range(11):
    SPEC["pa%d" % _k] = SPEC["pb%d" % _k] = PF
BASE = "'CRPIX1': ph1, 'CRPIX2': ph2, 'CD1_1': pc11, 'CD1_2': pc12, 'CD2_1': pc21, 'CD2_2': pc22, 'CRVAL1': pra, 'CRVAL2': pdec"
# the linear part of a FITS celestial WCS (degrees, +u to the east)
LIN = "x1 = px - ph1\ny1 = py - ph2\nU = pc11*x1 + pc12*y1\nV = pc21*x1 + pc22*y1\nd = jnp.pi/180\n"


def obligations():
    out = []

    def A(n, src, *pairs):
        for p in pairs:
            out.append((n, src, p))

    uv = "w._uv(px, py)"
    for t, proj in (("TAN", "gnomonic"), ("STG", "stereographic"), ("ZEA", "lambert"), ("ARC", "postel")):
        for fl in (False, True):
            h = "{'CTYPE1': 'RA---%s', 'CTYPE2': 'DEC--%s', %s}" % (t, t, BASE)
            if fl:
                h = "{'CTYPE1': 'DEC--%s', 'CTYPE2': 'RA---%s', 'CRPIX1': ph1, 'CRPIX2': ph2, 'CD1_1': pc21, 'CD1_2': pc22, 'CD2_1': pc11, 'CD2_2': pc12, 'CRVAL1': pdec, 'CRVAL2': pra}" % (t, t)
            A("GSFitsWCS header %s%s" % (t, " (DEC first)" if fl else ""), "w = GSFitsWCS(header=%s)\n" % h + LIN,
              (uv, "(-U*d, V*d)"), ("(w.center.ra.rad, w.center.dec.rad)", "(pra*d, pdec*d)"), ("w.projection", "'%s'" % proj))
    sip = "{'CTYPE1': 'RA---TAN-SIP', 'CTYPE2': 'DEC--TAN-SIP', %s, 'A_ORDER': 3, 'B_ORDER': 2, 'A_2_0': pa0, 'A_1_1': pa1, 'A_0_2': pa2, 'A_3_0': pa3, 'A_2_1': pa4, 'B_2_0': pb0, 'B_1_1': pb1, 'B_0_2': pb2}" % BASE
    A("GSFitsWCS header SIP", "w = GSFitsWCS(header=%s)\n" % sip + LIN + "x2 = x1 + pa0*x1**2 + pa1*x1*y1 + pa2*y1**2 + pa3*x1**3 + pa4*x1**2*y1\ny2 = y1 + pb0*x1**2 + pb1*x1*y1 + pb2*y1**2\n",
      (uv, "(-(pc11*x2+pc12*y2)*d, (pc21*x2+pc22*y2)*d)"))
    tpv = "{'CTYPE1': 'RA---TPV', 'CTYPE2': 'DEC--TPV', %s, %s}" % (BASE, ", ".join("'PV%d_%d': %r" % (i, k, 0.01 * (k + 1) * (1 if i == 1 else -1.3) + (k == 1)) for i in (1, 2) for k in (0, 1, 2, 4, 5, 6, 7, 8, 9, 10)))
    def pv(i, a, b):
        ts = {0: "1.", 1: a, 2: b, 4: a + "**2", 5: a + "*" + b, 6: b + "**2", 7: a + "**3", 8: a + "**2*" + b, 9: a + "*" + b + "**2", 10: b + "**3"}
        return " + ".join("(%r)*%s" % (0.01 * (k + 1) * (1 if i == 1 else -1.3) + (k == 1), t) for k, t in ts.items())
    A("GSFitsWCS header TPV", "w = GSFitsWCS(header=%s)\n" % tpv + LIN + "u2 = %s\nv2 = %s\n" % (pv(1, "U", "V"), pv(2, "V", "U")), (uv, "(-u2*d, v2*d)"), ("w.wcs_type", "'TPV'"))
    A("GSFitsWCS header TAN with PV", "w = GSFitsWCS(header=%s)\n" % tpv.replace("---TPV", "---TAN").replace("--TPV", "--TAN") + LIN + "u2 = %s\nv2 = %s\n" % (pv(1, "U", "V"), pv(2, "V", "U")), (uv, "(-u2*d, v2*d)"))
    b0 = "'CTYPE1': 'RA---TAN', 'CTYPE2': 'DEC--TAN', 'CRPIX1': ph1, 'CRPIX2': ph2, 'CRVAL1': pra, 'CRVAL2': pdec"
    A("GSFitsWCS header CDELT", "w = GSFitsWCS(header={%s, 'CDELT1': pc11, 'CDELT2': pc22})\n" % b0 + LIN, (uv, "(-pc11*x1*d, pc22*y1*d)"))
    A("GSFitsWCS header PC", "w = GSFitsWCS(header={%s, 'CDELT1': ps1, 'CDELT2': ps2, 'PC1_1': pc11, 'PC1_2': pc12, 'PC2_1': pc21, 'PC2_2': pc22})\n" % b0 + LIN, (uv, "(-ps1*U*d, ps2*V*d)"))
    A("GSFitsWCS header CUNIT", "w = GSFitsWCS(header={%s, 'CD1_1': pc11, 'CD1_2': pc12, 'CD2_1': pc21, 'CD2_2': pc22, 'CUNIT1': 'deg', 'CUNIT2': 'deg'})\n" % b0 + LIN, (uv, "(-U*d, V*d)"))
    A("GSFitsWCS origin", "w = GSFitsWCS(header={%s}, origin=PositionD(ox, oy))\nv = GSFitsWCS(header={%s})\n" % (("'CTYPE1': 'RA---TAN', 'CTYPE2': 'DEC--TAN', " + BASE,) * 2) + LIN, (uv, "v._uv(px-ox, py-oy)"), ("v.shiftOrigin(PositionD(ox, oy))._uv(px, py)", uv), ("v.withOrigin(PositionD(ox, oy))._uv(px, py)", uv))
    for hd in ("", "fits.FitsHeader"):
        A("FitsWCS linear" + hd, "h = %s({'CTYPE1': 'LINEAR', %s})\nw = FitsWCS(header=h)\nv, o = wcs.readFromFitsHeader(h)\n" % (hd, BASE.replace("ph1", "px0").replace("ph2", "py0")),
          ("w.toWorld(px, py)", "(pc11*(px-px0)+pc12*(py-py0)+pra, pc21*(px-px0)+pc22*(py-py0)+pdec)"), ("v.toWorld(px, py)", "w.toWorld(px, py)"), ("o", "PositionI(1, 1)"))
        A("FitsWCS celestial" + hd, "h = %s({'CTYPE1': 'RA---TAN', 'CTYPE2': 'DEC--TAN', %s})\nw = FitsWCS(header=h)\nv, o = wcs.readFromFitsHeader(h)\n" % (hd, BASE.replace("pdec", "20.0")) + LIN, (uv, "(-U*d, V*d)"), ("v._uv(px, py)", "(-U*d, V*d)"))
    A("FitsWCS scale", "w = FitsWCS(header={'CTYPE1': 'LINEAR', 'CD1_1': 0.3, 'CD2_2': 0.3})\nv = FitsWCS(header={'CDELT1': psc, 'CDELT2': psc, 'CRPIX1': px0})\nu = FitsWCS(header={'NAXIS': 2})\nz, o = wcs.readFromFitsHeader({'GS_XMIN': hx, 'GS_YMIN': hy})\n",
      ("w.isPixelScale() and w.isLocal()", "True"), ("w.scale", "0.3"), ("v.toWorld(px, py)", "(psc*(px-px0), psc*py)"), ("u.scale", "1.0"), ("o", "PositionI(hx, hy)"), ("z.toWorld(px, py)", "(px-hx+1, py-hy+1)"))
    for un, u0 in (("arcsec", "0."), ("degrees", "0."), ("arcsec", "pu0")):
        A("TanWCS %s%s" % (un, " u0" if u0 != "0." else ""), "a = AffineTransform(pc11, pc12, pc21, pc22, PositionD(px0, py0), PositionD(" + u0 + ", pv0))\nw = TanWCS(a, CelestialCoord(pra*degrees, pdec*degrees), units=%s)\nu, v = a.toWorld(px, py)\nf = %s.rad if hasattr(%s, 'rad') else 1*%s/radians\n" % (un, un, un, un),
          (uv, "(u*f, v*f)"), ("w.wcs_type", "'TAN'"), ("w.projection", "'gnomonic'"), ("(w.center.ra.rad, w.center.dec.rad)", "(pra*jnp.pi/180, pdec*jnp.pi/180)"))
    # written headers read back as the same coordinate system
    for n, c in (("PixelScale", "PixelScale(psc)"), ("ShearWCS", "ShearWCS(psc, Shear(g1=pg1, g2=pg2))"), ("JacobianWCS", "JacobianWCS(pc11, pc12, pc21, pc22)"),
                 ("OffsetWCS", "OffsetWCS(psc, PositionD(px0, py0), PositionD(pu0, pv0))"), ("OffsetShearWCS", "OffsetShearWCS(psc, Shear(g1=pg1, g2=pg2), PositionD(px0, py0), PositionD(pu0, pv0))"),
                 ("AffineTransform", "AffineTransform(pc11, pc12, pc21, pc22, PositionD(px0, py0), PositionD(pu0, pv0))")):
        A("header round trip %s" % n, "w = %s\nh = fits.FitsHeader()\nw.writeToFitsHeader(h, BoundsI(hx, 30, hy, 40))\nr, o = wcs.readFromFitsHeader(h)\n" % c,
          ("r.toWorld(px, py)", "w.toWorld(px, py)"), ("o", "PositionI(hx, hy)"))
        A("header %s" % n, "w = %s\nh = fits.FitsHeader()\nw._writeHeader(h, BoundsI(1, 30, 1, 40))\n" % c,
          ("(h['CD1_1']*(px-h['CRPIX1'])+h['CD1_2']*(py-h['CRPIX2'])+h['CRVAL1'], h['CD2_1']*(px-h['CRPIX1'])+h['CD2_2']*(py-h['CRPIX2'])+h['CRVAL2'])", "w.toWorld(px, py)"), ("h['GS_WCS']", "'%s'" % n))
    c = "CelestialCoord(pra*degrees, pdec*degrees)"
    lin = "jnp.array([ph1, ph2]), jnp.array([[pc11, pc12], [pc21, pc22]]), " + c
    for n, typ, dist in (("TAN", "TAN", "None, None, None"), ("STG", "STG", "None, None, None"), ("TPV", "TPV", "jnp.array(%r), None, None" % PV), ("TAN-SIP", "TAN-SIP", "None, jnp.array(%r), None" % AB),
                         ("TAN-SIP inverse", "TAN-SIP", "None, jnp.array(%r), jnp.array(%r)" % (AB, ABP)), ("ZEA-SIP", "ZEA-SIP", "None, jnp.array(%r), jnp.array(%r)" % (AB, ABP)), ("ARC-SIP", "ARC-SIP", "None, jnp.array(%r), None" % AB)):
        w = "w = GSFitsWCS(_data=('%s', %s, %s))\n" % (typ, lin, dist)
        dd = [("(r.%s is None, w.%s is None)" % (a, a), "(%s, %s)" % ((dist.split(", ")[0] == "None",) * 2)) for a in ("pv",)]
        for x in "xy":
            pass
        A("header round trip GSFitsWCS %s" % n, w + "h = fits.FitsHeader()\nw.writeToFitsHeader(h, BoundsI(hx, 30, hy, 40))\nr, o = wcs.readFromFitsHeader(h)\n",
          ("r._uv(px, py)", "w._uv(px, py)"), ("(r.center.ra.rad, r.center.dec.rad)", "(w.center.ra.rad, w.center.dec.rad)"), ("r.projection", "w.projection"), ("r.wcs_type", "'%s'" % typ), ("o", "PositionI(hx, hy)"), *dd)
        if "inverse" in n or "ZEA-SIP" == n:
            A("header round trip GSFitsWCS %s" % n, w + "h = fits.FitsHeader()\nw.writeToFitsHeader(h, BoundsI(1, 30, 1, 40))\nr, o = wcs.readFromFitsHeader(h)\n", ("r.abp", "w.abp"), ("r.ab", "w.ab"))
        # the local map is the derivative of the map, in arcsec on the sky
        e = "e = 1.0e-4\n" + w + "j = w.local(PositionD(px, py))\na = w._uv(px+e, py)\nb = w._uv(px-e, py)\nf = w._uv(px, py+e)\ng = w._uv(px, py-e)\nu, v = w._uv(px, py)\nJ = w.center.jac_deproject_rad(u, v, projection=w.projection)\nux = (a[0]-b[0])/(2*e)\nvx = (a[1]-b[1])/(2*e)\nuy = (f[0]-g[0])/(2*e)\nvy = (f[1]-g[1])/(2*e)\nk = 180*3600/jnp.pi\n"
        A("local map GSFitsWCS %s" % n, e, ("j.dudx", "k*(J[0, 0]*ux+J[0, 1]*vx)"), ("j.dudy", "k*(J[0, 0]*uy+J[0, 1]*vy)"), ("j.dvdx", "k*(J[1, 0]*ux+J[1, 1]*vx)"), ("j.dvdy", "k*(J[1, 0]*uy+J[1, 1]*vy)"))
    for fl in ("1.", "2."):
        A("GSFitsWCS header TNX %s" % fl, "w = GSFitsWCS(header={'CTYPE1': 'RA---TNX', 'CTYPE2': 'DEC--TNX', %s, 'WAT1_001': %r, 'WAT1_002': %r, 'WAT2_001': %r, 'WAT2_002': %r})\n" % ((BASE,) + tnx(fl)) + LIN +
          "u2 = U + %s\nv2 = V + %s\n" % (tnxpoly(0, fl), tnxpoly(1, fl)), (uv, "(-u2*d, v2*d)"))
    return out


PV = [[[0.01, -0.02, 0.13, 0.07], [1.03, 0.11, -0.06, 0.0], [0.05, -0.09, 0.0, 0.0], [0.04, 0.0, 0.0, 0.0]], [[-0.03, 0.97, 0.12, -0.05], [0.02, -0.08, 0.06, 0.0], [0.09, 0.03, 0.0, 0.0], [-0.07, 0.0, 0.0, 0.0]]]
AB = [[[0.0, 0.0, 0.013, -0.004], [1.0, 0.021, 0.006, 0.0], [-0.017, 0.008, 0.0, 0.0], [0.003, 0.0, 0.0, 0.0]], [[0.0, 1.0, -0.011, 0.005], [0.0, 0.019, -0.007, 0.0], [0.014, 0.009, 0.0, 0.0], [-0.006, 0.0, 0.0, 0.0]]]
ABP = [[[0.0, 0.0, -0.013, 0.004], [1.0, -0.021, -0.006, 0.0], [0.017, -0.008, 0.0, 0.0], [-0.003, 0.0, 0.0, 0.0]], [[0.0, 1.0, 0.011, -0.005], [0.0, -0.019, 0.007, 0.0], [-0.014, -0.009, 0.0, 0.0], [0.006, 0.0, 0.0, 0.0]]]
TN = [[0.01, 0.02, -0.03, 0.04, 0.05, -0.06, 0.07, 0.08, 0.09, -0.1], [-0.02, 0.03, 0.05, -0.01, 0.04, 0.06, -0.08, 0.1, -0.07, 0.09]]
LIMS = (-2.0, 3.0, -1.5, 2.5)


def tnx(code):
    r = []
    for ax, cor, c in (("ra", "lngcor", TN[0]), ("dec", "latcor", TN[1])):
        s = 'wtype=tnx axtype=%s %s = "%s 4. 4. 2. %s %s "' % (ax, cor, code, " ".join(map(str, LIMS)), " ".join(map(str, c)))
        r += [s[:60], s[60:]]
    return tuple(r)


def tnxpoly(i, code):
    x, y = "U", "V"
    if code:
        x, y = "((2*U-(%r))/(%r))" % (LIMS[0] + LIMS[1], LIMS[1] - LIMS[0]), "((2*V-(%r))/(%r))" % (LIMS[2] + LIMS[3], LIMS[3] - LIMS[2])
    def b(v, n):
        return ("1.", v, "(2*%s**2-1)" % v if code == "1." else "(1.5*%s**2-0.5)" % v, "(4*%s**3-3*%s)" % (v, v) if code == "1." else "(2.5*%s**3-1.5*%s)" % (v, v))[n]
    idx = [(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2), (0, 3)]
    return " + ".join("(%r)*%s*%s" % (c, b(x, m), b(y, n)) for c, (m, n) in zip(TN[i], idx))


def main():
    I = interp()
    R = Report("P15", "the WCS read from a FITS header is the map its keywords define, writing a WCS to a header and reading it back gives the same map for every WCS class, and local jacobians are the derivatives of the map", 110, "Header conventions decided by value numbering and term fingerprints; a header is a finite dictionary of keyword terms.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    laws(I, R, n, s, p, traced=False, spec=SPEC, tol=1e-5 if n.startswith("local") else 1e-8)
