"""P14: positions and bounds obey the arithmetic of vectors and pixel rectangles."""
from ..core import *
from ..eqs import laws, grouped

BD = "b = BoundsD(bx0, bx1, by0, by1)\nc = BoundsD(cx0, cx1, cy0, cy1)\n"
LO = {"BoundsI": "b = BoundsI(ix0, ix1, iy0, iy1)\n", "BoundsI[kw]": "b = BoundsI(xmin=ix0, xmax=ix1, ymin=iy0, ymax=iy1)\n", "BoundsI[delta]": "b = BoundsI(xmin=ix0, deltax=ix1-ix0+1, ymin=iy0, deltay=iy1-iy0+1)\n"}


def box(b):
    return "(%s.xmin, %s.xmax, %s.ymin, %s.ymax)" % (b, b, b, b)


def obligations():
    out = []

    def A(name, pre, *prs):
        for p in prs:
            out.append((name, pre, p))

    for n, pre, e in (("BoundsD", BD, "(bx0, bx1, by0, by1)"), ("BoundsD[kw]", BD.replace("BoundsD(bx0, bx1, by0, by1)", "BoundsD(xmin=bx0, xmax=bx1, ymin=by0, ymax=by1)"), "(bx0, bx1, by0, by1)"),
                      ("BoundsD[delta]", BD.replace("BoundsD(bx0, bx1, by0, by1)", "BoundsD(xmin=bx0, deltax=bx1-bx0, ymin=by0, deltay=by1-by0)"), "(bx0, bx1, by0, by1)"),
                      ("BoundsD[pos]", BD.replace("BoundsD(bx0, bx1, by0, by1)", "BoundsD(PositionD(bx0, by0))"), "(bx0, bx0, by0, by0)"),
                      ("BoundsD[copy]", BD.replace("BoundsD(bx0, bx1, by0, by1)", "BoundsD(BoundsD(bx0, bx1, by0, by1))"), "(bx0, bx1, by0, by1)")):
        A(n, pre, (box("b"), e), ("(b.getXMin(), b.getXMax(), b.getYMin(), b.getYMax())", e), ("b.isDefined()", "True"), ("b.deltax", "b.xmax-b.xmin"), ("b.deltay", "b.ymax-b.ymin"))
    A("BoundsD[2pos]", "b = BoundsD(PositionD(px, py), PositionD(qx, qy))\n", (box("b"), "(jnp.minimum(px, qx), jnp.maximum(px, qx), jnp.minimum(py, qy), jnp.maximum(py, qy))"))
    A("BoundsD[I]", "b = BoundsD(BoundsI(ix0, ix1, iy0, iy1))\n", (box("b"), "(ix0, ix1, iy0, iy1)"))
    A("BoundsI[D]", "b = BoundsI(BoundsD(ix0, ix1, iy0, iy1))\n", (box("b"), "(ix0, ix1, iy0, iy1)"))
    A("BoundsD", BD,
      ("b.area()", "(bx1-bx0)*(by1-by0)"), ("b.center", "PositionD((bx0+bx1)/2, (by0+by1)/2)"), ("b.true_center", "PositionD((bx0+bx1)/2, (by0+by1)/2)"), ("b.origin", "PositionD(bx0, by0)"),
      (box("b.withBorder(border)"), "(bx0-border, bx1+border, by0-border, by1+border)"), (box("b.withBorder(border, border2)"), "(bx0-border, bx1+border, by0-border2, by1+border2)"),
      (box("b.shift(PositionD(sx, sy))"), "(bx0+sx, bx1+sx, by0+sy, by1+sy)"),
      (box("b.expand(mag)"), "((bx0+bx1)/2-(bx1-bx0)/2*mag, (bx0+bx1)/2+(bx1-bx0)/2*mag, (by0+by1)/2-(by1-by0)/2*mag, (by0+by1)/2+(by1-by0)/2*mag)"),
      (box("b.expand(mag, mag2)"), "((bx0+bx1)/2-(bx1-bx0)/2*mag, (bx0+bx1)/2+(bx1-bx0)/2*mag, (by0+by1)/2-(by1-by0)/2*mag2, (by0+by1)/2+(by1-by0)/2*mag2)"),
      (box("(b + PositionD(px, py))"), "(jnp.minimum(bx0, px), jnp.maximum(bx1, px), jnp.minimum(by0, py), jnp.maximum(by1, py))"),
      (box("(b + c)"), "(jnp.minimum(bx0, cx0), jnp.maximum(bx1, cx1), jnp.minimum(by0, cy0), jnp.maximum(by1, cy1))"), ("b + c", "c + b"), ("b + BoundsD()", "b"), ("BoundsD() + b", "b"),
      (box("(BoundsD() + PositionD(px, py))"), "(px, px, py, py)"), ("(BoundsD() & b).isDefined()", "False"), ("BoundsD().isDefined()", "False"), ("BoundsD().area()", "0."),
      ("b.includes(PositionD(px, py))", "(bx0 <= px) & (px <= bx1) & (by0 <= py) & (py <= by1)"), ("b.includes(px, py)", "(bx0 <= px) & (px <= bx1) & (by0 <= py) & (py <= by1)"),
      ("b.includes(c)", "(bx0 <= cx0) & (cx1 <= bx1) & (by0 <= cy0) & (cy1 <= by1)"), ("BoundsD().includes(px, py)", "False"), ("b.includes(BoundsD())", "False"), ("b.includes(b)", "True if True else 0"), ("b == BoundsD(bx0, bx1, by0, by1)", "True"))
    out = [o for o in out if o[2][0] != "b.includes(b)"]
    for n, pre in LO.items():
        A(n, pre, (box("b"), "(ix0, ix1, iy0, iy1)"), ("(b.getXMin(), b.getXMax(), b.getYMin(), b.getYMax())", "(ix0, ix1, iy0, iy1)"), ("b.deltax", "ix1-ix0+1"), ("b.deltay", "iy1-iy0+1"), ("b.numpyShape()", "(iy1-iy0+1, ix1-ix0+1)"),
          ("b.area()", "(ix1-ix0+1)*(iy1-iy0+1)"), ("b.true_center", "PositionD((ix0+ix1)/2., (iy0+iy1)/2.)"), ("b.origin", "PositionI(ix0, iy0)"), ("b.center", "PositionI((ix0+ix1+1)//2, (iy0+iy1+1)//2)"),
          (box("b.shift(PositionI(isx, isy))"), "(ix0+isx, ix1+isx, iy0+isy, iy1+isy)"), (box("b.withBorder(iborder)"), "(ix0-iborder, ix1+iborder, iy0-iborder, iy1+iborder)"),
          (box("b.withBorder(iborder, iborder2)"), "(ix0-iborder, ix1+iborder, iy0-iborder2, iy1+iborder2)"),
          ("b.includes(PositionI(isx, isy))", "(ix0 <= isx) & (isx <= ix1) & (iy0 <= isy) & (isy <= iy1)"), ("b.includes(isx, isy)", "(ix0 <= isx) & (isx <= ix1) & (iy0 <= isy) & (isy <= iy1)"), ("b.isStatic()", "True"),
          (box("(b + PositionI(isx, isy))"), "(jnp.minimum(ix0, isx), jnp.maximum(ix1, isx), jnp.minimum(iy0, isy), jnp.maximum(iy1, isy))"))
    A("BoundsI[pos]", "b = BoundsI(PositionI(isx, isy))\n", (box("b"), "(isx, isx, isy, isy)"), ("b.area()", "1"))
    A("BoundsI[2pos]", "b = BoundsI(PositionI(1, 7), PositionI(5, 3))\n", (box("b"), "(1, 5, 3, 7)"), ("b.area()", "25"), ("b.center", "PositionI(3, 5)"))
    A("BoundsI lit", "b = BoundsI(1, 6, -3, 5)\nc = BoundsI(4, 9, -8, 2)\n", (box("(b & c)"), "(4, 6, -3, 2)"), (box("(b + c)"), "(1, 9, -8, 5)"), ("b & c", "c & b"), ("b.center", "PositionI(4, 1)"), ("b.true_center", "PositionD(3.5, 1.)"), ("b.numpyShape()", "(9, 6)"),
      ("(b & BoundsI(20, 30, 1, 2)).isDefined()", "False"), ("b.includes(c)", "False"), ("b.includes(BoundsI(2, 6, -3, 4))", "True"), ("BoundsI(3, 2, 1, 5).isDefined()", "False"), ("BoundsI(3, 3, 1, 1).isDefined()", "True"), ("BoundsI().area()", "0"), ("BoundsI().numpyShape()", "(0, 0)"),
      (box("b.expand(2)"), "(-2, 9, -7, 9)"), (box("BoundsI(1, 5, 1, 5).expand(1.2)"), "(0, 6, 0, 6)"), ("b == BoundsI(1, 6, -3, 5)", "True"), ("b == c", "False"), ("BoundsD(5., 1., 1., 2.).isDefined()", "False"), ("BoundsD(1., 1., 2., 2.).isDefined()", "True"))
    A("BoundsD lit", "b = BoundsD(1., 6., -3., 5.)\nc = BoundsD(4., 9., -8., 2.)\n", (box("(b & c)"), "(4., 6., -3., 2.)"), ("(b & BoundsD(20., 30., 1., 2.)).isDefined()", "False"), ("b.includes(c)", "False"), ("b.includes(BoundsD(2., 6., -3., 4.))", "True"), ("b == c", "False"))
    A("BoundsI[dyn]", "b = BoundsI(xmin=jx0, deltax=5, ymin=jy0, deltay=4)\n", (box("b"), "(jx0, jx0+4, jy0, jy0+3)"), ("b.numpyShape()", "(4, 5)"), ("b.area()", "20"), ("b.isStatic()", "False"), ("b.center", "PositionI(jx0+2, jy0+2)"), ("b.true_center", "PositionD(jx0+2., jy0+1.5)"), ("b.origin", "PositionI(jx0, jy0)"),
      (box("b.shift(PositionI(isx, isy))"), "(jx0+isx, jx0+isx+4, jy0+isy, jy0+isy+3)"), (box("b.withBorder(2)"), "(jx0-2, jx0+6, jy0-2, jy0+5)"), ("b.includes(PositionI(isx, isy))", "(jx0 <= isx) & (isx <= jx0+4) & (jy0 <= isy) & (isy <= jy0+3)"))
    # positions
    P = "p = PositionD(px, py)\nq = PositionD(qx, qy)\nr = PositionI(isx, isy)\n"
    A("PositionD", P, ("(p.x, p.y)", "(px, py)"), ("p + q", "PositionD(px+qx, py+qy)"), ("p - q", "PositionD(px-qx, py-qy)"), ("p * mag", "PositionD(px*mag, py*mag)"), ("mag * p", "p * mag"), ("p / mag", "PositionD(px/mag, py/mag)"), ("-p", "PositionD(-px, -py)"),
      ("p + r", "PositionD(px+isx, py+isy)"), ("r + p", "PositionD(px+isx, py+isy)"), ("r - p", "PositionD(isx-px, isy-py)"), ("p - r", "PositionD(px-isx, py-isy)"), ("PositionD(p)", "p"), ("PositionD((px, py))", "p"), ("PositionD(x=px, y=py)", "p"), ("PositionD()", "PositionD(0., 0.)"),
      ("PositionD(r)", "PositionD(isx, isy)"), ("p.shear(Shear(g1=sg1, g2=sg2))", "PositionD(((1+sg1)*px+sg2*py)/jnp.sqrt(1-sg1**2-sg2**2), (sg2*px+(1-sg1)*py)/jnp.sqrt(1-sg1**2-sg2**2))"), ("p.round()", "PositionI(jnp.round(px), jnp.round(py))"),
      ("p == PositionD(px, py)", "True"), ("p + BoundsD(bx0, bx1, by0, by1)", "BoundsD(bx0, bx1, by0, by1) + p"))
    A("PositionI", P, ("(r.x, r.y)", "(isx, isy)"), ("r + PositionI(ipx, ipy)", "PositionI(isx+ipx, isy+ipy)"), ("r - PositionI(ipx, ipy)", "PositionI(isx-ipx, isy-ipy)"), ("-r", "PositionI(-isx, -isy)"), ("r * 3", "PositionI(3*isx, 3*isy)"), ("2 * r", "r * 2"), ("PositionI((isx, isy))", "r"),
      ("PositionI(x=isx, y=isy)", "r"), ("PositionI()", "PositionI(0, 0)"), ("r == PositionI(isx, isy)", "True"))
    return out


def main():
    I = interp()
    R = Report(
        "P14",
        "construction forms, centers, areas, borders, shifts, expansion, union, intersection and inclusion of bounds and the vector operations of positions equal their definitions",
        150,
        "Definitions decided by value numbering and term fingerprints on symbolic bounds and positions.",
    )
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    laws(I, R, n, s, p)
