"""P28: celestial coordinates: distances, projections and frames obey spherical geometry."""
from ..core import *
from ..eqs import laws, grouped, must_raise

C = "import math\nc = CelestialCoord(ra*radians, dec*radians)\nd = CelestialCoord(ra2*radians, dec2*radians)\ne = CelestialCoord(ra3*radians, dec3*radians)\n"
C += "rw = jnp.arctan2(jnp.sin(ra), jnp.cos(ra))\ncosd = jnp.sin(dec)*jnp.sin(dec2)+jnp.cos(dec)*jnp.cos(dec2)*jnp.cos(ra-ra2)\n"
CD = "(jnp.sin(%s)*jnp.sin(%s)+jnp.cos(%s)*jnp.cos(%s)*jnp.cos(%s-%s))"


def cosd(a, b):
    return CD % ("dec" + a, "dec" + b, "dec" + a, "dec" + b, "ra" + a, "ra" + b)


# direction of the second point seen from the first: (east, north) components
BEAR = "def bear(r0, d0, r1, d1):\n    return jnp.cos(d1)*jnp.sin(r1-r0), jnp.cos(d0)*jnp.sin(d1)-jnp.sin(d0)*jnp.cos(d1)*jnp.cos(r1-r0)\n"
XYZ = "(jnp.cos(%s)*jnp.cos(%s), jnp.cos(%s)*jnp.sin(%s), jnp.sin(%s))"


def xyz(n):
    return XYZ % ("dec" + n, "ra" + n, "dec" + n, "ra" + n, "dec" + n)


PROJ = {"gnomonic": "1/cosd", "stereographic": "2/(1+cosd)", "lambert": "jnp.sqrt(2/(1+cosd))", "postel": "jnp.arccos(cosd)/jnp.sin(jnp.arccos(cosd))", "None": "1/cosd"}


NEAR = {"ra2": [0.3 + 0.21 * k + (0.25 if k % 2 else -0.32) + 0.01 * k for k in range(24)], "dec2": [-1.2 + 0.1 * k + (0.17 if k % 3 else -0.21) + 0.002 * k for k in range(24)]}


def obligations():
    out = []

    def A(name, pre, *prs):
        for p in prs:
            out.append((name, pre, p))

    A("coordinate", C, ("c.ra.rad", "ra"), ("c.dec.rad", "dec"), ("c.rad", "(ra, dec)"), ("c.get_xyz()", xyz("")), ("CelestialCoord.radec_to_xyz(ra, dec)", xyz("")), ("CelestialCoord.radec_to_xyz(ra, dec, pm)", "tuple([pm*t for t in %s])" % xyz("")),
      ("CelestialCoord.xyz_to_radec(*c.get_xyz())", "(rw, dec)"), ("CelestialCoord.xyz_to_radec(*CelestialCoord.radec_to_xyz(ra, dec, pm), return_r=True)", "(rw, dec, pm)"), ("CelestialCoord.xyz_to_radec(*CelestialCoord.radec_to_xyz(ra, dec), return_r=False)", "(rw, dec)"),
      ("CelestialCoord.from_xyz(*c.get_xyz()).ra.rad % (2*math.pi)", "ra % (2*math.pi)"), ("CelestialCoord.from_xyz(*c.get_xyz()).dec.rad", "dec"), ("CelestialCoord.from_xyz(*[pm*t for t in c.get_xyz()]).dec.rad", "dec"),
      ("CelestialCoord(c).ra.rad", "ra"), ("CelestialCoord(c).dec.rad", "dec"), ("c.normal().dec.rad", "dec"), ("CelestialCoord((ra+7.)*radians, dec*radians).normal().ra.rad", "(ra+7.) % (2*math.pi)"), ("c == CelestialCoord(ra*radians, dec*radians)", "True"))
    A("distance", C, ("jnp.cos(c.distanceTo(d).rad)", "cosd"), ("c.distanceTo(d).rad", "d.distanceTo(c).rad"), ("c.distanceTo(c).rad", "0."), ("c.distanceTo(d).rad", "jnp.arccos(cosd)"),
      ("CelestialCoord((ra+math.pi)*radians, -dec*radians).distanceTo(c).rad", "math.pi"), ("jnp.cos(CelestialCoord((ra+math.pi-th9/1000.)*radians, (th9/900.-dec)*radians).distanceTo(c).rad)",
       "jnp.sin(dec)*jnp.sin(th9/900.-dec)+jnp.cos(dec)*jnp.cos(th9/900.-dec)*jnp.cos(math.pi-th9/1000.)"))
    G = C + "t = pm*radians\np = c.greatCirclePoint(d, t)\nx1, y1, z1 = c.get_xyz()\nx2, y2, z2 = d.get_xyz()\nx3, y3, z3 = p.get_xyz()\ndet3 = x1*(y2*z3-z2*y3)+y1*(z2*x3-x2*z3)+z1*(x2*y3-y2*x3)\nD = c.distanceTo(d)\n"
    A("great circle", G, ("c.distanceTo(p).rad", "pm"), ("c.greatCirclePoint(d, D).get_xyz()", "d.get_xyz()"), ("c.greatCirclePoint(d, 0.*radians).get_xyz()", "c.get_xyz()"),
      ("det3", "0."), ("c.greatCirclePoint(d, D*0.5).distanceTo(d).rad", "D.rad/2"), ("c.greatCirclePoint(d, -t).distanceTo(p).rad", "2*pm"))
    B = C + BEAR + "u2, v2 = bear(ra, dec, ra2, dec2)\nu3, v3 = bear(ra, dec, ra3, dec3)\nang = c.angleBetween(d, e)\n"
    A("angles", B, ("jnp.cos(ang.rad)", "(u2*u3+v2*v3)/jnp.sqrt((u2**2+v2**2)*(u3**2+v3**2))"), ("jnp.sin(ang.rad)", "(u3*v2-v3*u2)/jnp.sqrt((u2**2+v2**2)*(u3**2+v3**2))"), ("ang.rad", "-c.angleBetween(e, d).rad"))
    E = C + "a, b, f = c.distanceTo(d).rad, d.distanceTo(e).rad, e.distanceTo(c).rad\ns = (a+b+f)/2\nex = 4*jnp.arctan(jnp.sqrt(jnp.tan(s/2)*jnp.tan((s-a)/2)*jnp.tan((s-b)/2)*jnp.tan((s-f)/2)))\n"
    A("area", E, ("c.area(d, e)", "ex"), ("c.area(d, e)", "c.area(e, d)"), ("c.area(d, e)", "d.area(e, c)"), ("c.area(d, d)", "0."))
    for pr, k in PROJ.items():
        q = repr(pr) if pr != "None" else "None"
        P = C + BEAR + "k = %s\nbu, bv = bear(ra, dec, ra2, dec2)\nu, v = c.project(d, %s)\n" % (k, q)
        # east is towards negative u
        A("project %s" % pr, P, ("u.rad", "-k*bu"), ("v.rad", "k*bv"), ("c.project_rad(ra2, dec2, %s)" % q, "(u.rad, v.rad)"), ("c.deproject(u, v, %s).get_xyz()" % q, "d.get_xyz()"), ("c.deproject(u, v, %s).dec.rad" % q, "dec2"),
          ("c.deproject_rad(u.rad, v.rad, %s)[1]" % q, "dec2"), ("jnp.cos(c.deproject_rad(u.rad, v.rad, %s)[0])" % q, "jnp.cos(ra2)"), ("jnp.sin(c.deproject_rad(u.rad, v.rad, %s)[0])" % q, "jnp.sin(ra2)"),
          ("c.deproject(u, v, %s).ra.rad" % q, "c.deproject_rad(u.rad, v.rad, %s)[0]" % q), ("[x for x in c.project_rad(*c.deproject_rad(tu, tv, %s), projection=%s)]" % (q, q), "[tu, tv]"), ("[x.rad for x in c.project(c, %s)]" % q, "[0., 0.]"),
          ("c.deproject(0.*radians, 0.*radians, %s).get_xyz()" % q, "c.get_xyz()"))
        J = C + "h = 1e-5\ndef f(u, v):\n    return c.deproject_rad(u, v, %s)\nj = c.jac_deproject_rad(tu, tv, %s)\nr1, d1 = f(tu+h, tv)\nr2, d2 = f(tu-h, tv)\nr3, d3 = f(tu, tv+h)\nr4, d4 = f(tu, tv-h)\nr0, d0 = f(tu, tv)\n" % (q, q)
        A("jacobian %s" % pr, J, ("j[0, 0]", "-(r1-r2)/(2*h)*jnp.cos(d0)"), ("j[0, 1]", "-(r3-r4)/(2*h)*jnp.cos(d0)"), ("j[1, 0]", "(d1-d2)/(2*h)"), ("j[1, 1]", "(d3-d4)/(2*h)"),
          *[("c.jac_deproject(tu*radians, tv*radians, %s)[%d, %d]" % (q, i, k_), "j[%d, %d]" % (i, k_)) for i in (0, 1) for k_ in (0, 1)])
    for pr in PROJ:
        q = repr(pr) if pr != "None" else "None"
        Z = "c = CelestialCoord(ra*radians, dec*radians)\nj = c.jac_deproject_rad(0., 0., %s)\n" % q
        A("jacobian %s tangent" % pr, Z, ("[j[0, 0], j[0, 1], j[1, 0], j[1, 1]]", "[1., 0., 0., 1.]"))
    A("poles", "import math\n", ("CelestialCoord.from_xyz(0., 0., pm).dec.rad", "math.pi/2"), ("CelestialCoord.from_xyz(0., 0., -pm).dec.rad", "-math.pi/2"), ("CelestialCoord.from_xyz(0., 0., pm).get_xyz()", "(0., 0., 1.)"), ("CelestialCoord.from_xyz(0., pm, 0.).rad", "(math.pi/2, 0.)"))
    F = C + "l, b = c.galactic()\n"
    A("galactic", F, ("CelestialCoord.from_galactic(l, b).get_xyz()", "c.get_xyz()"), ("CelestialCoord.from_galactic(l, b).dec.rad", "dec"), ("CelestialCoord.from_galactic(ra*radians, dec*radians).galactic()[1].rad", "dec"),
      ("jnp.cos(CelestialCoord(l, b).distanceTo(CelestialCoord(*d.galactic())).rad)", "cosd"), ("CelestialCoord(*[x for x in CelestialCoord(266.405*degrees, -28.936*degrees).galactic()]).distanceTo(CelestialCoord(0.*radians, 0.*radians)).rad < 1e-4", "True"),
      ("CelestialCoord(192.85948*degrees, 27.12825*degrees).galactic()[1].rad > math.pi/2-1e-4", "True"), ("(l.rad >= 0.) & (l.rad <= 2*math.pi)", "True"))
    for ep in ("", "epoch=1950.", "epoch=ep"):
        F = C + "l, b = c.ecliptic(%s)\n" % ep
        A("ecliptic(%s)" % ep, F, ("CelestialCoord.from_ecliptic(l, b%s).get_xyz()" % (ep and ", " + ep), "c.get_xyz()"), ("jnp.cos(CelestialCoord(l, b).distanceTo(CelestialCoord(*d.ecliptic(%s))).rad)" % ep, "cosd"),
          ("CelestialCoord(0.*radians, 0.*radians).ecliptic(%s)[1].rad" % ep, "0."), ("abs(CelestialCoord(0.*radians, math.pi/2*radians).ecliptic(%s)[1].deg - (90-23.439)) < 0.02" % ep, "True"))
    A("precess", C + "p = c.precess(ep, ep2)\n", ("p.precess(ep2, ep).distanceTo(c).rad < 1e-6", "True"), ("c.precess(ep, ep).get_xyz()", "c.get_xyz()"), ("jnp.cos(p.distanceTo(d.precess(ep, ep2)).rad)", "cosd"), ("abs(CelestialCoord(0.*radians, 0.*radians).precess(2000., 2050.).ra.deg-0.6406) < 1e-3", "True"))
    # the published polynomials (Lieske 1977 precession angles; Laskar-type obliquity), at epochs far enough for every term to matter
    PR = C + """T, t = (fe-2000.)/100., (te-fe)/100.
as_ = math.pi/180/3600
ze = as_*((2306.2181+1.39656*T-0.000139*T**2)*t+(0.30188-0.000344*T)*t**2+0.017998*t**3)
zz = as_*((2306.2181+1.39656*T-0.000139*T**2)*t+(1.09468+0.000066*T)*t**2+0.018203*t**3)
th = as_*((2004.3109-0.85330*T-0.000217*T**2)*t-(0.42665+0.000217*T)*t**2-0.041833*t**3)
A_ = jnp.cos(dec)*jnp.sin(ra+ze)
B_ = jnp.cos(th)*jnp.cos(dec)*jnp.cos(ra+ze)-jnp.sin(th)*jnp.sin(dec)
C_ = jnp.sin(th)*jnp.cos(dec)*jnp.cos(ra+ze)+jnp.cos(th)*jnp.sin(dec)
p = c.precess(fe, te)
"""
    A("precession angles", PR, ("p.get_xyz()", "(B_*jnp.cos(zz)-A_*jnp.sin(zz), A_*jnp.cos(zz)+B_*jnp.sin(zz), C_)"), ("jnp.sin(p.dec.rad)", "C_"), ("(p.ra.rad >= 0.) & (p.ra.rad <= 2*math.pi)", "True"))
    OB = C + "T = (fe-2000.)/100.\ne_ = math.pi/180/3600*(23*3600+26*60+21.406-46.836769*T-0.0001831*T**2+0.0020034*T**3)\nl, b = c.ecliptic(epoch=fe)\nx, y, z = c.get_xyz()\n"
    A("obliquity", OB, ("jnp.sin(b.rad)", "z*jnp.cos(e_)-y*jnp.sin(e_)"), ("jnp.sin(l.rad)*jnp.cos(b.rad)", "y*jnp.cos(e_)+z*jnp.sin(e_)"), ("jnp.cos(l.rad)*jnp.cos(b.rad)", "x"), ("(l.rad >= -math.pi) & (l.rad <= math.pi)", "True"))
    GA = C + "l, b = c.galactic()\nk_ = math.pi/180\nr0, d0, l0 = 282.859481208*k_, 62.8717488056*k_, 32.93191857*k_\n"
    A("galactic pole", GA, ("jnp.sin(b.rad)", "jnp.sin(dec)*jnp.cos(d0)-jnp.cos(dec)*jnp.sin(ra-r0)*jnp.sin(d0)"), ("jnp.cos(b.rad)*jnp.cos(l.rad-l0)", "jnp.cos(dec)*jnp.cos(ra-r0)"), ("jnp.cos(b.rad)*jnp.sin(l.rad-l0)", "jnp.sin(dec)*jnp.sin(d0)+jnp.cos(dec)*jnp.sin(ra-r0)*jnp.cos(d0)"))
    A("comparison", C, ("c == d", "False"), ("c != d", "True"), ("c == CelestialCoord(ra*radians, dec2*radians)", "False"), ("c == CelestialCoord(ra2*radians, dec*radians)", "False"), ("c == CelestialCoord(ra*radians, dec*radians)", "True"), ("c != CelestialCoord(ra*radians, dec*radians)", "False"), ("c == (ra, dec)", "False"), ("c != 3", "True"))
    A("poles", "import math\n", ("CelestialCoord.from_xyz(0., 0., pm).ra.rad", "0."), ("CelestialCoord(pm*radians, math.pi/2*radians).dec.rad", "math.pi/2"), ("CelestialCoord(pm*radians, -math.pi/2*radians).dec.rad", "-math.pi/2"), ("CelestialCoord(-7*degrees, -90*degrees).dec.deg", "-90."))
    REJ = ["CelestialCoord(10*degrees, 90.001*degrees)", "CelestialCoord(10*degrees, -90.001*degrees)", "CelestialCoord(10*degrees, Angle(jnp.array(1.6), radians))", "CelestialCoord(10*degrees, Angle(jnp.array(-1.6), radians))", "CelestialCoord(10*degrees)", "CelestialCoord(None, 10*degrees)", "CelestialCoord(c, 10*degrees)", "CelestialCoord(0.3, 10*degrees)", "CelestialCoord(10*degrees, 0.3)",
           "CelestialCoord.from_xyz(0., 0., 0.)", "c.greatCirclePoint(c, 3*degrees)", *["%s, 'tan')" % f for f in ("c.project(d", "c.deproject(3*degrees, 2*degrees", "c.project_rad(0.3, 0.2", "c.deproject_rad(0.03, 0.02", "c.jac_deproject(3*degrees, 2*degrees", "c.jac_deproject_rad(0.03, 0.02")],
           "c.project(d, 'Gnomonic')"]
    for e in REJ:
        out.append(("rejects", "c = CelestialCoord(0.3*radians, 0.2*radians)\nd = CelestialCoord(0.5*radians, 0.1*radians)\n", (e,)))
    W = "import math\nw = %s\np = PositionD(px, py)\nq = w.toWorld(p)\nh = 1e-3\nw1, w2, w3, w4 = w.toWorld(PositionD(px+h, py)), w.toWorld(PositionD(px-h, py)), w.toWorld(PositionD(px, py+h)), w.toWorld(PositionD(px, py-h))\nj = w.jacobian(p)\nt = 180*3600/math.pi/(2*h)\ndef lin(a, b):\n    x, y = q.project(a)\n    X, Y = q.project(b)\n    return ((x.rad-X.rad)*t, (y.rad-Y.rad)*t)\n"
    for v, s in zoo.ZOO["GSFitsWCS"][:1]:
        n = "GSFitsWCS[%s]" % v
        A(n + " world", W % s + "import math\nd = CelestialCoord(ra2*radians, dec2*radians)\n", ("w.toWorld(p, project_center=d)", "PositionD(*[t/arcsec for t in d.project(q)])"), ("w.posToWorld(p, project_center=d, projection='lambert')", "PositionD(*[t/arcsec for t in d.project(q, 'lambert')])"), 
          ("w.xyToradec(px, py, units=arcsec)", "[t.rad*180*3600/math.pi for t in (q.ra, q.dec)]"), ("w.xyToradec(px, py, units='hours')", "[t.rad*12/math.pi for t in (q.ra, q.dec)]"), ("w.radecToxy(*[t.deg for t in (q.ra, q.dec)], units=degrees)", "(px, py)"), ("w.radecToxy(*[t.rad*180*60/math.pi for t in (q.ra, q.dec)], units='arcmin')", "(px, py)"),
          ("w.posToImage(q)", "p"))
        SK = W % s + "im = ImageD(BoundsI(3, 5, 7, 8), init_value=0.)\nw._makeSkyImage(im, pm, None)\ndef area(x, y):\n    (r1, d1), (r2, d2), (r3, d3), (r4, d4), (r0, d0) = [w.xyToradec(x+a, y+b, units='rad') for a, b in ((1., 0.), (-1., 0.), (0., 1.), (0., -1.), (0., 0.))]\n    return abs((r1-r2)*(d3-d4)-(d1-d2)*(r3-r4))/4*jnp.cos(d0)*(radians/arcsec)**2\n"
        A(n + " sky image", SK, *[("im(%d, %d)" % xy, "pm*area(%d., %d.)" % xy) for xy in ((3, 7), (5, 7), (3, 8), (5, 8), (4, 7))], ("im.bounds", "BoundsI(3, 5, 7, 8)"))
        A(n, W % s, ("(j.dudx, j.dvdx)", "lin(w1, w2)"), ("(j.dudy, j.dvdy)", "lin(w3, w4)"), ("w.radecToxy(*w.xyToradec(px, py, units='rad'), units='rad')", "(px, py)"), ("w.xyToradec(px, py, units='rad')", "q.rad"), ("w.xyToradec(px, py, units='deg')", "tuple([t*180/math.pi for t in q.rad])"),
          ("w.xyToradec(px, py, units='degrees')", "w.xyToradec(px, py, units=degrees)"), ("w.toImage(q)", "p"), ("w.isCelestial()", "True"), ("w.isUniform()", "False"), ("w.isLocal()", "False"), ("w.pixelArea(p)", "abs(j.dudx*j.dvdy-j.dudy*j.dvdx)"), ("w.local(p).toWorld(1., 0.)", "(j.dudx, j.dvdx)"),
          ("w.affine(p).toWorld(p)", "PositionD(0., 0.)"), ("w.shiftOrigin(PositionD(sx, sy)).toWorld(PositionD(px+sx, py+sy)).rad", "q.rad"), ("w.withOrigin(PositionD(sx, sy)).toWorld(PositionD(px+sx, py+sy)).rad", "q.rad"),
          ("w.shiftOrigin(PositionD(sx, sy)).radecToxy(*q.rad, units='rad')", "(px+sx, py+sy)"))
    A("GSFitsWCS[]", W % zoo.ZOO["GSFitsWCS"][0][1] + "U = (cd11*(px-crx)+cd12*(py-cry))*math.pi/180\nV = (cd21*(px-crx)+cd22*(py-cry))*math.pi/180\n", ("q.rad", "w.center.deproject_rad(-U, V)"))
    return out


VALS = {"dec": [-1.2 + 0.1 * k + 0.013 for k in range(24)], "dec2": [0.9 - 0.07 * k for k in range(24)], "dec3": [-0.5 + 0.045 * k for k in range(24)], "ra": [0.3 + 0.21 * k for k in range(24)], "ra2": [0.3 + 0.21 * k + (0.25 if k % 2 else -0.32) + 0.01 * k for k in range(24)],
        "ra3": [0.3 + 0.21 * k + (0.05 if k % 2 else 0.22) - 0.02 * k for k in range(24)], "tu": [0.21 - 0.017 * k for k in range(24)], "tv": [-0.13 + 0.011 * k for k in range(24)], "pm": [0.15 + 0.03 * k for k in range(24)], "fe": [1100.0 - 140.0 * k for k in range(24)], "te": [3300.0 + 150.0 * k for k in range(24)], "ep": [1975.0 + 1.7 * k for k in range(24)], "ep2": [2001.0 + 0.9 * k for k in range(24)],
        "cd11": [(1.0 + 0.02 * k) * 1e-4 for k in range(24)], "cd22": [(0.9 - 0.01 * k) * 1e-4 for k in range(24)], "cd12": [(0.37 - 0.01 * k) * 1e-4 for k in range(24)], "cd21": [(0.05 + 0.01 * k) * 1e-4 for k in range(24)]}
TOL = {"GSFitsWCS[]": 1e-5, "jacobian": 1e-6}


def main():
    I = interp()
    R = Report("P28", "distances, angles, areas, great circles, projections with their inverses and jacobians, and the galactic, ecliptic and precessed frames of CelestialCoord equal their spherical-geometry definitions; celestial WCS maps agree with their jacobians and inverses", 120, "Identities decided by value numbering and term fingerprints on symbolic coordinates.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    if n == "rejects":
        for q in p:
            must_raise(I, R, "rejects " + q[0], s + q[0] + "\n")
        return
    laws(I, R, n, s, p, vals=dict(VALS, **NEAR) if n.startswith("project") else VALS, traced=n != "comparison", tol=TOL.get(n.split(" ")[0], 1e-7))
