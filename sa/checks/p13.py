"""P13: coordinate systems obey the laws of (locally) affine maps."""
from ..core import *
from ..eqs import laws, grouped

A, O, W = "dudx, dudy, dvdx, dvdy", "origin=PositionD(x0, y0)", "world_origin=PositionD(u0, v0)"
WCS = {
    "PixelScale": ("PixelScale(scale)", "((scale, 0.), (0., scale))", False),
    "ShearWCS": ("ShearWCS(scale, Shear(g1=g1, g2=g2))", "SH", False),
    "JacobianWCS": ("JacobianWCS(%s)" % A, "((dudx, dudy), (dvdx, dvdy))", False),
    "OffsetWCS": ("OffsetWCS(scale, %s, %s)" % (O, W), "((scale, 0.), (0., scale))", True),
    "OffsetShearWCS": ("OffsetShearWCS(scale, Shear(g1=g1, g2=g2), %s, %s)" % (O, W), "SH", True),
    "AffineTransform": ("AffineTransform(%s, %s, %s)" % (A, O, W), "((dudx, dudy), (dvdx, dvdy))", True),
}
# the shear WCS maps (x, y) to the world by the inverse shear: u = s (1-g1) x - s g2 y, over sqrt(1-g^2)
SH = "((scale*(1.-g1)/jnp.sqrt(1.-g1*g1-g2*g2), -scale*g2/jnp.sqrt(1.-g1*g1-g2*g2)), (-scale*g2/jnp.sqrt(1.-g1*g1-g2*g2), scale*(1.+g1)/jnp.sqrt(1.-g1*g1-g2*g2)))"
POS = ("PositionD", "PositionI")


def wcs_laws(cn):
    src, mat, off = WCS[cn]
    mat = SH if mat == "SH" else mat
    pre = "w = %s\nm = %s\np = PositionD(px, py)\nq = PositionD(qx, qy)\n" % (src, mat)
    ox, oy, ou, ov = ("x0", "y0", "u0", "v0") if off else ("0.", "0.", "0.", "0.")
    pre += "ox = %s\noy = %s\nou = %s\nov = %s\n" % (ox, oy, ou, ov)
    out = []

    def L(lab, body, *pairs):
        out.append((lab, pre + body, list(pairs)))

    L("world map", "",
      ("w.toWorld(p).x", "m[0][0]*(px-ox) + m[0][1]*(py-oy) + ou"), ("w.toWorld(p).y", "m[1][0]*(px-ox) + m[1][1]*(py-oy) + ov"),
      ("w.toWorld(px, py)", "(m[0][0]*(px-ox) + m[0][1]*(py-oy) + ou, m[1][0]*(px-ox) + m[1][1]*(py-oy) + ov)"),
      ("w.toWorld(xs, ys)", "(m[0][0]*(xs-ox) + m[0][1]*(ys-oy) + ou, m[1][0]*(xs-ox) + m[1][1]*(ys-oy) + ov)"),
      ("w.xyTouv(px, py)", "w.toWorld(px, py)"), ("w.uvToxy(qx, qy)", "w.toImage(qx, qy)"),
      ("w.posToWorld(p)", "w.toWorld(p)"), ("w.posToImage(q)", "w.toImage(q)"))
    L("inverse map", "",
      ("w.toImage(w.toWorld(p))", "p"), ("w.toWorld(w.toImage(q))", "q"), ("w.toImage(*w.toWorld(px, py))", "(px, py)"), ("w.toWorld(*w.toImage(qx, qy))", "(qx, qy)"),
      ("w.toImage(*w.toWorld(xs, ys))", "(xs, ys)"))
    arg = "" if not off else "p"
    L("local", "j = w.jacobian(%s)\nl = w.local(p)\nl2 = w.local(world_pos=q)\n" % arg,
      ("((j.dudx, j.dudy), (j.dvdx, j.dvdy))", "m"),
      ("(l.toWorld(1., 0.), l.toWorld(0., 1.))", "((m[0][0], m[1][0]), (m[0][1], m[1][1]))"), ("l.toWorld(0., 0.)", "(0., 0.)"),
      ("(l2.toWorld(1., 0.), l2.toWorld(0., 1.))", "((m[0][0], m[1][0]), (m[0][1], m[1][1]))"),
      ("l.isLocal() and l.isUniform()", "True"), ("w.isUniform()", "True"), ("w.isLocal()", str(not off)), ("w.isCelestial()", "False"),
      ("w.isPixelScale()", str(cn in ("PixelScale", "OffsetWCS"))))
    det = "(m[0][0]*m[1][1]-m[0][1]*m[1][0])"
    fro = "(m[0][0]**2+m[0][1]**2+m[1][0]**2+m[1][1]**2)"
    L("areas", "",
      ("w.pixelArea(p)", "abs(%s)" % det), ("w.minLinearScale(p)*w.maxLinearScale(p)", "abs(%s)" % det),
      ("w.minLinearScale(p)**2+w.maxLinearScale(p)**2", fro), ("w.minLinearScale(p) <= w.maxLinearScale(p)", "True"), ("w.pixelArea(world_pos=q)", "abs(%s)" % det))
    L("affine", "a = w.affine(p)\na2 = w.affine(world_pos=q)\nr = PositionD(rx, ry)",
      ("a.toWorld(r)", "w.toWorld(r)"), ("a2.toWorld(r)", "w.toWorld(r)"), ("a.toImage(r)", "w.toImage(r)"), ("a.origin", "p"), ("a.world_origin", "w.toWorld(p)"))
    L("shiftOrigin", "s = w.shiftOrigin(PositionD(sx, sy))\nt = w.shiftOrigin(PositionD(sx, sy), PositionD(tu, tv))\nr = PositionD(rx, ry)",
      ("s.toWorld(r)", "w.toWorld(PositionD(rx-sx, ry-sy))"), ("s.toImage(s.toWorld(r))", "r"),
      ("t.toWorld(r)", "w.toWorld(PositionD(rx-sx%s, ry-sy%s)) + PositionD(tu, tv)%s" % (("+x0", "+y0", " - PositionD(0., 0.)") if off else ("", "", ""))) if not off else
      ("t.toWorld(r)", "PositionD(m[0][0]*(rx-sx)+m[0][1]*(ry-sy)+tu+u0-w.toWorld(w.origin).x+0., m[1][0]*(rx-sx)+m[1][1]*(ry-sy)+tv+v0-w.toWorld(w.origin).y)"),
      ("w.withOrigin(PositionD(sx, sy)).toWorld(r)", "s.toWorld(r)"), ("w.withOrigin(PositionD(sx, sy), PositionD(tu, tv)).toWorld(r)", "t.toWorld(r)"))
    L("inverse()", "v = w.inverse()\n", ("v.toWorld(q)", "w.toImage(q)"), ("v.toImage(p)", "w.toWorld(p)"))
    g = "g = Gaussian(sigma=sigma, flux=flux).shift(ax, ay)\n"
    L("profiles", g + "k = w.toWorld(g, image_pos=p)\nh = w.toImage(g, image_pos=p)\n",
      ("k.flux", "flux"), ("h.flux", "flux"), ("k.centroid", "PositionD(m[0][0]*ax+m[0][1]*ay, m[1][0]*ax+m[1][1]*ay)"),
      ("w.toImage(k, image_pos=p).kValue(kx, ky)", "g.kValue(kx, ky)"), ("k.kValue(kx, ky)", "g.kValue(m[0][0]*kx+m[1][0]*ky, m[0][1]*kx+m[1][1]*ky)"),
      ("k.xValue(kx, ky)", "g.xValue(w.local(p).toImage(PositionD(kx, ky)))/abs(%s)" % det),
      ("w.profileToWorld(g, image_pos=p, flux_ratio=fr).flux", "flux*fr"), ("w.profileToImage(g, image_pos=p, flux_ratio=fr).flux", "flux*fr"),
      ("w.profileToWorld(g, image_pos=p, offset=PositionD(bx, by)).centroid", "PositionD(m[0][0]*ax+m[0][1]*ay+bx, m[1][0]*ax+m[1][1]*ay+by)"),
      ("w.toImage(w.profileToWorld(g, image_pos=p, offset=PositionD(bx, by)), image_pos=p).centroid", "PositionD(ax, ay) + w.local(p).toImage(PositionD(bx, by))"))
    return out


EXTRA = [
    ("JacobianWCS decomposition", "w = JacobianWCS(dudx, dudy, dvdx, dvdy)\nd = w.getDecomposition()\ns, sh, th, fl = d\nc = jnp.cos(th.rad)\nn = jnp.sin(th.rad)\nf = jnp.where(fl, 1.0, 0.0)\nM = sh.getMatrix()\n"
     "# rotation (and flip) first, then shear, then scale\nr00 = jnp.where(fl, -n, c)\nr01 = jnp.where(fl, c, -n)\nr10 = jnp.where(fl, c, n)\nr11 = jnp.where(fl, n, c)\n",
     [("s*s", "abs(dudx*dvdy-dudy*dvdx)"), ("s*(M[0][0]*r00+M[0][1]*r10)", "dudx"), ("s*(M[0][0]*r01+M[0][1]*r11)", "dudy"), ("s*(M[1][0]*r00+M[1][1]*r10)", "dvdx"), ("s*(M[1][0]*r01+M[1][1]*r11)", "dvdy")]),
    ("JacobianWCS.getMatrix", "w = JacobianWCS(dudx, dudy, dvdx, dvdy)\nm = w.getMatrix()\n", [("m[0, 0]", "dudx"), ("m[0, 1]", "dudy"), ("m[1, 0]", "dvdx"), ("m[1, 1]", "dvdy")]),
    ("compatible", "w = AffineTransform(dudx, dudy, dvdx, dvdy)\nu = OffsetWCS(scale)\n", [("w.origin", "PositionD(0, 0)"), ("w.world_origin", "PositionD(0, 0)"), ("u.origin", "PositionD(0, 0)"), ("u.world_origin", "PositionD(0, 0)"), ("w.x0", "0."), ("w.u0", "0.")]),
]
for _n, (_s, _m, _o) in WCS.items():
    EXTRA.append(("shear %s" % _n, "w = %s\ns = Shear(g1=sg1, g2=sg2)\np = PositionD(px, py)\n" % _s, [("w.toImage(w.toWorld(s, image_pos=p), image_pos=p).g1", "sg1"), ("w.toImage(w.toWorld(s, image_pos=p), image_pos=p).g2", "sg2")]))


def main():
    I = interp()
    R = Report(
        "P13",
        "toWorld is the affine map of the stored matrix and origins, toImage its inverse, local/jacobian/affine/shiftOrigin/inverse/pixelArea/linear scales and profile and shear conversions agree with that map",
        120,
        "Laws of affine maps decided for every Euclidean WCS class on symbolic parameters.",
    )
    items = []
    for cn in WCS:
        for lab, body, pairs in wcs_laws(cn):
            items.append(("%s %s" % (cn, lab), body, pairs))
    items += EXTRA
    parallel(R, items, one)
    return R.finish(I)


def one(I, R, name, src, pairs):
    laws(I, R, name, src, pairs)
