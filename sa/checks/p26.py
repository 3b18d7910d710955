"""P26: composition of profiles obeys the algebra of sums, convolutions and linear maps."""
from ..core import *
from ..eqs import laws, grouped

G1 = "Gaussian(sigma=sigma, flux=flux)"
PROFS = {
    "Gaussian": "Gaussian(sigma=sigma, flux=flux)",
    "Exponential": "Exponential(scale_radius=r0, flux=flux)",
    "Box": "Box(width=width, height=height, flux=flux)",
    "Spergel": "Spergel(nu=nu, scale_radius=r0, flux=flux)",
    "Sum": "Sum([Gaussian(sigma=sigma, flux=flux).shift(ax, ay), Exponential(scale_radius=r0, flux=flux2)])",
    "Convolution": "Convolve([Gaussian(sigma=sigma, flux=flux).shift(ax, ay), Exponential(scale_radius=r0, flux=flux2)])",
    "Transformation": "Transformation(Gaussian(sigma=sigma, flux=flux).shift(ax, ay), jac=[[ja, jb], [jc, jd]], offset=PositionD(ox, oy), flux_ratio=fr)",
    "InterpolatedImage": "InterpolatedImage(Image(arr2, scale=scale, xmin=ix0, ymin=iy0), x_interpolant='cubic', k_interpolant='linear', flux=flux)",
    "Deconvolution": "Deconvolve(Gaussian(sigma=sigma, flux=flux).shift(ax, ay))",
}
NOX = ("Convolution", "Deconvolution")
# operation -> (expression, jac, offset, flux factor)
OPS = {
    "withScaledFlux": ("o.withScaledFlux(frac)", None, None, "frac"),
    "mul": ("o * frac", None, None, "frac"),
    "rmul": ("frac * o", None, None, "frac"),
    "div": ("o / frac", None, None, "1./frac"),
    "neg": ("-o", None, None, "-1."),
    "withFlux": ("o.withFlux(newflux)", None, None, "newflux/o.flux"),
    "expand": ("o.expand(mag)", "mag, 0., 0., mag", None, "1."),
    "dilate": ("o.dilate(mag)", "mag, 0., 0., mag", None, "1./mag**2"),
    "magnify": ("o.magnify(mu)", "jnp.sqrt(mu), 0., 0., jnp.sqrt(mu)", None, "1."),
    "shear": ("o.shear(g1=sg1, g2=sg2)", "(1+sg1)/W, sg2/W, sg2/W, (1-sg1)/W", None, "1."),
    "shear(Shear)": ("o.shear(Shear(g1=sg1, g2=sg2))", "(1+sg1)/W, sg2/W, sg2/W, (1-sg1)/W", None, "1."),
    "lens": ("o.lens(sg1, sg2, mu)", "jnp.sqrt(mu)*(1+sg1)/W, jnp.sqrt(mu)*sg2/W, jnp.sqrt(mu)*sg2/W, jnp.sqrt(mu)*(1-sg1)/W", None, "1."),
    "rotate": ("o.rotate(rot * radians)", "jnp.cos(rot), -jnp.sin(rot), jnp.sin(rot), jnp.cos(rot)", None, "1."),
    "transform": ("o.transform(ta, tb, tc, td)", "ta, tb, tc, td", None, "1."),
    "shift": ("o.shift(sx, sy)", None, "sx, sy", "1."),
    "shift(pos)": ("o.shift(PositionD(sx, sy))", None, "sx, sy", "1."),
    "Transform": ("Transform(o, jac=[ta, tb, tc, td], offset=PositionD(sx, sy), flux_ratio=frac)", "ta, tb, tc, td", "sx, sy", "frac"),
    "Transform(matrix)": ("Transform(o, jac=jnp.array([[ta, tb], [tc, td]]), offset=(sx, sy), flux_ratio=frac)", "ta, tb, tc, td", "sx, sy", "frac"),
    "chain": ("o.transform(ta, tb, tc, td).shift(sx, sy).expand(mag) * frac", "mag*ta, mag*tb, mag*tc, mag*td", "mag*sx, mag*sy", "frac"),
    "shift+rotate": ("o.shift(sx, sy).rotate(rot * radians)", "jnp.cos(rot), -jnp.sin(rot), jnp.sin(rot), jnp.cos(rot)", "jnp.cos(rot)*sx-jnp.sin(rot)*sy, jnp.sin(rot)*sx+jnp.cos(rot)*sy", "1."),
    "shear+shear": ("o.transform(ta, tb, tc, td).transform(ua, ub, uc, ud)", "ua*ta+ub*tc, ua*tb+ub*td, uc*ta+ud*tc, uc*tb+ud*td", None, "1."),
}


def obligations():
    out = []
    for pn, ps in PROFS.items():
        for on, (ex, jac, off, ff) in OPS.items():
            if pn == "InterpolatedImage" and on not in ("mul", "shift", "transform", "Transform", "withFlux"):
                continue
            pre = "import math\no = %s\nW = jnp.sqrt(1-sg1*sg1-sg2*sg2)\nt = %s\na, b, c, d = %s\nex, ey = %s\nF = %s\ndet = a*d-b*c\n" % (ps, ex, jac or "1., 0., 0., 1.", off or "0., 0.", ff)
            pre += "kx1 = a*kx+c*ky\nky1 = b*kx+d*ky\nph = jnp.exp(-1j*(kx*ex+ky*ey))\nx1 = (d*(px-ex)-b*(py-ey))/det\ny1 = (a*(py-ey)-c*(px-ex))/det\n"
            fr = ["t.flux"]
            prs = [("t.flux", "F*abs(det)*o.flux"), ("t.gsparams", "o.gsparams")]
            if jac is None and pn != "InterpolatedImage" or off is None:
                pass
            prs += [("t.kValue(kx, ky)", "o.kValue(kx1, ky1)*ph*F*abs(det)")]
            if pn not in NOX:
                prs.append(("t.xValue(px, py)", "o.xValue(x1, y1)*F"))
            prs += [("t.centroid", "PositionD(a*o.centroid.x+b*o.centroid.y+ex, c*o.centroid.x+d*o.centroid.y+ey)"), ("t.has_hard_edges", "o.has_hard_edges"), ("t.is_analytic_x", "o.is_analytic_x"), ("t.is_analytic_k", "o.is_analytic_k")]
            if pn not in ("Deconvolution", "InterpolatedImage"):
                prs += [("t.max_sb", "o.max_sb*%s" % ("F" if pn in ("Sum", "Convolution", "Transformation") or jac or off else "F"))] if on not in ("neg",) else []
            for p in prs:
                out.append(("%s.%s" % (pn, on), pre, p))
    A, B, C = "Gaussian(sigma=sigma, flux=flux).shift(ax, ay)", "Exponential(scale_radius=r0, flux=flux2).shift(bx, by)", "Box(width=width, height=height, flux=flux3)"
    pre = "import math\na = %s\nb = %s\nc = %s\n" % (A, B, C)
    for ex in ("Sum([a, b, c])", "Sum(a, b, c)", "a + b + c", "Add([a, b, c])", "a + (b + c)", "Sum([Sum([a, b]), c])"):
        for p in [("s.flux", "flux+flux2+flux3"), ("s.kValue(kx, ky)", "a.kValue(kx, ky)+b.kValue(kx, ky)+c.kValue(kx, ky)"), ("s.xValue(px, py)", "a.xValue(px, py)+b.xValue(px, py)+c.xValue(px, py)"),
                  ("s.centroid", "PositionD((flux*ax+flux2*bx)/(flux+flux2+flux3), (flux*ay+flux2*by)/(flux+flux2+flux3))"), ("s.maxk", "jnp.maximum(jnp.maximum(a.maxk, b.maxk), c.maxk)"),
                  ("s.stepk", "jnp.minimum(jnp.minimum(a.stepk, b.stepk), c.stepk)"), ("s.max_sb", "a.max_sb+b.max_sb+c.max_sb"), ("s.has_hard_edges", "True"), ("s.positive_flux", "a.positive_flux+b.positive_flux+c.positive_flux"),
                  ("s.negative_flux", "0."), ("s.is_axisymmetric if False else s.is_analytic_x", "True"), ("len(s.obj_list)", "3"), ("s.is_analytic_k", "True")]:
            out.append((ex, pre + "s = %s\n" % ex, p))
    for ex, sg in (("a - b", "-"),):
        for p in [("s.flux", "flux-flux2"), ("s.kValue(kx, ky)", "a.kValue(kx, ky)-b.kValue(kx, ky)"), ("s.xValue(px, py)", "a.xValue(px, py)-b.xValue(px, py)")]:
            out.append((ex, pre + "s = %s\n" % ex, p))
    for ex in ("Convolve([a, b, c])", "Convolve(a, b, c)", "Convolution([a, b, c])", "Convolve(Convolve(a, b), c)"):
        for p in [("s.flux", "flux*flux2*flux3"), ("s.kValue(kx, ky)", "a.kValue(kx, ky)*b.kValue(kx, ky)*c.kValue(kx, ky)"), ("s.centroid", "PositionD(ax+bx, ay+by)"), ("s.maxk", "jnp.minimum(jnp.minimum(a.maxk, b.maxk), c.maxk)"),
                  ("s.stepk", "1./jnp.sqrt(a.stepk**-2+b.stepk**-2+c.stepk**-2)"), ("s.has_hard_edges", "False"), ("s.is_analytic_x", "False"), ("s.is_analytic_k", "True"), ("s.positive_flux", "flux*flux2*flux3"), ("s.negative_flux", "0."),
                  ("s.max_sb", "s.flux/(a.flux/a.max_sb+b.flux/b.max_sb+c.flux/c.max_sb)"), ("s.real_space", "False")]:
            out.append((ex, pre + "s = %s\n" % ex, p))
    for p in [("Convolve(a).kValue(kx, ky)", "a.kValue(kx, ky)"), ("Convolve(a).flux", "a.flux"), ("Sum(a).kValue(kx, ky)", "a.kValue(kx, ky)"), ("Convolve(a + b, c).kValue(kx, ky)", "(Convolve(a, c) + Convolve(b, c)).kValue(kx, ky)"),
              ("Convolve(a, DeltaFunction(flux=flux9)).kValue(kx, ky)", "a.kValue(kx, ky)*flux9"), ("Convolve(a, b).kValue(kx, ky)", "Convolve(b, a).kValue(kx, ky)"), ("(a + b).kValue(kx, ky)", "(b + a).kValue(kx, ky)"),
              ("Convolve(a.shift(sx, sy), b).kValue(kx, ky)", "Convolve(a, b).shift(sx, sy).kValue(kx, ky)"), ("Convolve(a.shear(g1=sg1, g2=sg2), b.shear(g1=sg1, g2=sg2)).kValue(kx, ky)", "Convolve(a, b).shear(g1=sg1, g2=sg2).kValue(kx, ky)"),
              ("(a + b).rotate(rot * radians).xValue(px, py)", "(a.rotate(rot * radians) + b.rotate(rot * radians)).xValue(px, py)"), ("((a + b) * frac).kValue(kx, ky)", "(a * frac + b * frac).kValue(kx, ky)")]:
        out.append(("algebra", pre, p))
    pre += "s = Deconvolve(a)\n"
    for p in [("s.flux", "1./flux"), ("s.centroid", "PositionD(-ax, -ay)"), ("s.maxk", "a.maxk"), ("s.stepk", "a.stepk"), ("s.orig_obj.kValue(kx, ky)", "a.kValue(kx, ky)"), ("s.is_analytic_x", "False"), ("s.is_analytic_k", "True"), ("s.has_hard_edges", "False"),
              ("Deconvolve(b).kValue(kx, ky)", "1./b.kValue(kx, ky)"), ("Convolve(Deconvolve(b), b).flux", "1.0"), ("Convolve(Deconvolve(b), b, c).kValue(kx, ky)", "c.kValue(kx, ky)")]:
        out.append(("Deconvolve", pre, p))
    T = "Transformation(Gaussian(sigma=sigma, flux=flux), jac=[[ja, jb], [jc, jd]], offset=PositionD(ox, oy), flux_ratio=fr)"
    pre = "import math\ng = Gaussian(sigma=sigma, flux=flux)\nt = %s\nS = jnp.sqrt((ja+jd)**2+(jb-jc)**2)\nD = jnp.sqrt((ja-jd)**2+(jb+jc)**2)\n" % T
    for p in [("t.maxk", "g.maxk/(abs(S-D)/2)"), ("t.stepk", "math.pi/(math.pi/(g.stepk/((S+D)/2))+jnp.sqrt(ox*ox+oy*oy))"), ("t.jac", "jnp.array([[ja, jb], [jc, jd]])"), ("t.offset", "PositionD(ox, oy)"), ("t.flux_ratio", "fr"), ("t.original", "g"),
              ("t.positive_flux", "g.positive_flux*fr*abs(ja*jd-jb*jc)"), ("t.negative_flux", "0.")]:
        out.append(("Transformation", pre, p))
    return out


def main():
    I = interp()
    R = Report(
        "P26",
        "flux, centroid, x and k values of sums, convolutions, deconvolutions and transformations are the sums, products, inverses and linear images of those of their parts, for every nesting and every public operation",
        600,
        "Algebraic laws decided by value numbering and term fingerprints on symbolic profiles, matrices, offsets and positions.",
    )
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    laws(I, R, n, s, p, tol=1e-7, cap=4 if n.startswith('Interp') else 16)
