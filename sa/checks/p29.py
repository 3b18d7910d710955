"""P29: drawn images sample the profile at the documented points."""
from ..core import *
from ..eqs import laws, must_raise, grouped

PF = ("pyf", 0, "f")
SPEC = {n: PF for n in ("ps1", "ps2", "psc", "pdx", "pdy", "parea", "pexp", "pgain", "pcx", "pcy", "px0", "py0", "pu0", "pv0", "pg1", "pg2", "pth", "pk")}
SPEC.update({n: ("pyi", 0, "i") for n in ("hx", "hy")})
G = "o = Gaussian(sigma=ps1, flux=flux).shift(ax, ay)\n"
PROFS = {
    "Gaussian": G,
    "Exponential": "o = Exponential(scale_radius=ps1, flux=flux)\n",
    "Moffat": "o = Moffat(beta=3.3, scale_radius=ps1, flux=flux)\n",
    "Spergel": "o = Spergel(nu=0.3, scale_radius=ps1, flux=flux)\n",
    "Box": "o = Box(width=ps1, height=ps2, flux=flux)\n",
    "Sum": "o = Sum([Gaussian(sigma=ps1, flux=flux).shift(ax, ay), Exponential(scale_radius=ps2, flux=flux2)])\n",
    "Transformation": "o = Transformation(Gaussian(sigma=ps1, flux=flux).shift(ax, ay), jac=[[ja, jb], [jc, jd]], offset=PositionD(ox, oy), flux_ratio=fr)\n",
    "nested": "o = (Gaussian(sigma=ps1, flux=flux).shift(ax, ay).shear(g1=sg1, g2=sg2) * fr + Exponential(scale_radius=ps2, flux=flux2)).transform(ja, jb, jc, jd).shift(ox, oy)\n",
}
XP = ("Gaussian", "Exponential", "Moffat", "Box", "Sum", "Transformation", "nested")
PIX = [(0, 0), (2, 1), (3, 2)]  # pixels (i, j) of a 4 x 3 image


def pix(A, n, src, xf, yf, scale, nx=4, ny=3, img="im", x0=1, y0=1, pixels=PIX, o="o", **kw):
    """value of the image at some pixels; xf, yf: world position of pixel (X, Y)"""
    for i, j in pixels:
        s = "X = %s + %d\nY = %s + %d\n" % (x0, i, y0, j)
        A(n, src + s, ("%s.array[%d, %d]" % (img, j, i), "%s.xValue(PositionD(%s, %s)) * (%s)" % (o, xf, yf, scale)))


def obligations():
    out = []

    def A(n, src, *pairs):
        for p in pairs:
            out.append((n, src, p))

    nx, ny = 4, 3
    cx, cy = "(X - 2.5)", "(Y - 2.)"
    for k in XP:
        src = PROFS[k] + "im = o.drawImage(nx=4, ny=3, scale=psc, method='no_pixel')\n"
        pix(A, "drawImage %s" % k, src, "%s*psc" % cx, "%s*psc" % cy, "psc**2")
        A("drawImage %s" % k, src, ("im.bounds", "BoundsI(1, 4, 1, 3)"), ("im.wcs.scale", "psc"), ("im.array.shape", "(3, 4)"), ("im.added_flux", "im.array.sum()"))
    w = "w = %s\n"
    dr = "im = o.drawImage(nx=4, ny=3, %s, method='no_pixel')\n"
    # keywords of drawImage
    pix(A, "drawImage offset", G + dr % "scale=psc, offset=(pdx, pdy)", "(%s - pdx)*psc" % cx, "(%s - pdy)*psc" % cy, "psc**2")
    pix(A, "drawImage offset position", G + dr % "scale=psc, offset=PositionD(pdx, pdy)", "(%s - pdx)*psc" % cx, "(%s - pdy)*psc" % cy, "psc**2")
    pix(A, "drawImage nominal center", G + dr % "scale=psc, use_true_center=False", "(X - 3)*psc", "(Y - 2)*psc", "psc**2")
    pix(A, "drawImage center", G + "im = o.drawImage(bounds=BoundsI(hx, hx+3, hy, hy+2), scale=psc, center=(pcx, pcy), method='no_pixel')\n", "(X - pcx)*psc", "(Y - pcy)*psc", "psc**2", x0="hx", y0="hy")
    pix(A, "drawImage center and offset", G + "im = o.drawImage(bounds=BoundsI(hx, hx+3, hy, hy+2), scale=psc, center=PositionD(pcx, pcy), offset=(pdx, pdy), method='no_pixel')\n", "(X - pcx - pdx)*psc", "(Y - pcy - pdy)*psc", "psc**2", x0="hx", y0="hy")
    pix(A, "drawImage bounds", G + "im = o.drawImage(bounds=BoundsI(hx, hx+3, hy, hy+2), scale=psc, method='no_pixel')\n", "(X - hx - 1.5)*psc", "(Y - hy - 1.)*psc", "psc**2", x0="hx", y0="hy")
    pix(A, "drawImage area exptime gain", G + dr % "scale=psc, area=parea, exptime=pexp, gain=pgain", "%s*psc" % cx, "%s*psc" % cy, "psc**2*parea*pexp/pgain")
    A("drawImage area exptime gain", G + dr % "scale=psc, area=parea, exptime=pexp, gain=pgain", ("im.added_flux", "im.array.sum()*pgain/(parea*pexp)"))
    pix(A, "drawImage sb", G + "im = o.drawImage(nx=4, ny=3, scale=psc, area=parea, exptime=pexp, gain=pgain, method='sb')\n", "%s*psc" % cx, "%s*psc" % cy, "parea*pexp/pgain")
    # wcs
    for lab, wc, det in (("JacobianWCS", "JacobianWCS(dudx, dudy, dvdx, dvdy)", "jnp.abs(dudx*dvdy-dudy*dvdx)"), ("ShearWCS", "ShearWCS(scale, Shear(g1=pg1, g2=pg2))", None), ("PixelScale", "PixelScale(scale)", "scale**2")):
        if det is None:
            continue
        s = G + w % wc + dr % "wcs=w, offset=(pdx, pdy)"
        pix(A, "drawImage wcs %s" % lab, s + "def u(x, y):\n    p = w.toWorld(PositionD(x, y))\n    return p\n", "u(%s-pdx, %s-pdy).x" % (cx, cy), "u(%s-pdx, %s-pdy).y" % (cx, cy), det)
        A("drawImage wcs %s" % lab, s, ("im.wcs == w", "True"))
    # rendering into an existing image
    ex = "im0 = Image(arrs, xmin=hx, ymin=hy, scale=psc)\na0 = arrs + 0.\n"
    for lab, kw, add in (("image", "", "0."), ("image add", ", add_to_image=True", "a0[%d, %d]")):
        s = G + ex + "im = o.drawImage(image=im0, method='no_pixel'%s)\n" % kw
        for i, j in PIX:
            v = "o.xValue(PositionD((%d - 1.5)*psc, (%d - 1.)*psc))*psc**2" % (i, j)
            A("drawImage %s" % lab, s, ("im0.array[%d, %d]" % (j, i), v + " + " + (add % (j, i) if "%" in add else add)))
        A("drawImage %s" % lab, s, ("im is im0", "True"), ("im0.bounds", "BoundsI(hx, hx+3, hy, hy+2)"), ("im0.wcs.scale", "psc"), ("im0.added_flux", "(im0.array - (%s)).sum()" % ("a0" if kw else "0.")))
    # integer images round, other types cast
    pix_r = G + "im = o.drawImage(nx=4, ny=3, scale=psc, dtype=%s, method='no_pixel')\n"
    for dt, f in (("int", "jnp.around(%s)"), ("jnp.float64", "%s"), ("jnp.int16", "jnp.around(%s)")):
        for i, j in PIX:
            A("drawImage dtype %s" % dt, pix_r % dt, ("im.array[%d, %d]" % (j, i), f % ("o.xValue(PositionD(%r*psc, %r*psc))*psc**2" % (i - 1.5, j - 1.0))))
        A("drawImage dtype %s" % dt, pix_r % dt, ("im.array.dtype == %s" % {"int": "jnp.int32", "float": "jnp.float64"}.get(dt, dt), "True"))
    # a varying wcs is used through its local jacobian at the object
    for lab, kw, cen in (("", "", "PositionD(hx + 1.5, hy + 1.)"), (" offset", ", offset=(pdx, pdy)", "PositionD(hx + 1.5 + pdx, hy + 1. + pdy)"), (" center", ", center=(pcx, pcy)", "PositionD(pcx, pcy)"), (" nominal", ", use_true_center=False", "PositionD(hx + 2., hy + 1.)")):
        s = G + "w = GSFitsWCS(_data=('TAN', jnp.array([px0, py0]), jnp.array([[dudx, dudy], [dvdx, dvdy]]), CelestialCoord(Angle(pu0, radians), Angle(pv0, radians)), None, None, None))\nim = o.drawImage(bounds=BoundsI(hx, hx+3, hy, hy+2), wcs=w%s, method='no_pixel')\nc = %s\nl = w.local(image_pos=c)\n" % (kw, cen)
        for i, j in PIX:
            t = "p = l.toWorld(PositionD(hx + %d - c.x, hy + %d - c.y))\n" % (i, j)
            A("drawImage varying wcs%s" % lab, s + t, ("im.array[%d, %d]" % (j, i), "o.xValue(p) * l.pixelArea()"))
        A("drawImage varying wcs%s" % lab, s, ("im.wcs is w", "True"), ("im.bounds", B4))
    # images in k space
    for k in ("Gaussian", "Exponential", "Spergel", "Box", "Sum", "Transformation", "Convolution", "Deconvolution", "nested"):
        s = PROFS[k] + "im = o.drawKImage(nx=4, ny=3, scale=psc)\n"
        for i, j in PIX:
            v = "o.kValue(PositionD(%d*psc, %d*psc))" % (i - 2, j - 1)
            if k == "Deconvolution":  # documented to vanish beyond the nominal maxk
                v = "jnp.where(%d*psc**2 > o.maxk**2, 0., %s)" % ((i - 2) ** 2 + (j - 1) ** 2, v)
            A("drawKImage %s" % k, s, ("im.array[%d, %d]" % (j, i), v))
        A("drawKImage %s" % k, s, ("im.bounds", "BoundsI(-2, 1, -1, 1)"), ("im.scale", "psc"), ("im.iscomplex", "True"))
    s = G + "im = o.drawKImage(nx=4, ny=3, scale=psc, recenter=False)\n"
    for i, j in PIX:
        A("drawKImage recenter", s, ("im.array[%d, %d]" % (j, i), "o.kValue(PositionD(%d*psc, %d*psc))" % (i + 1, j + 1)))
    A("drawKImage recenter", s, ("im.bounds", "BoundsI(1, 4, 1, 3)"))
    s = G + "im = o.drawKImage(bounds=BoundsI(hx, hx+3, hy, hy+2), scale=psc, recenter=False)\n"
    for i, j in PIX:
        A("drawKImage bounds", s, ("im.array[%d, %d]" % (j, i), "o.kValue(PositionD((hx + %d)*psc, (hy + %d)*psc))" % (i, j)))
    for lab, kw, add in (("image", "", "0."), ("image add", ", add_to_image=True", "arrz[%d, %d]")):
        s = G + "im0 = Image(arrz, xmin=hx, ymin=hy, scale=psc)\nim = o.drawKImage(image=im0, recenter=False%s)\n" % kw
        for i, j in PIX:
            A("drawKImage %s" % lab, s, ("im0.array[%d, %d]" % (j, i), "o.kValue(PositionD((hx + %d)*psc, (hy + %d)*psc)) + %s" % (i, j, add % (j, i) if "%" in add else add)))
        A("drawKImage %s" % lab, s, ("im is im0", "True"), ("im0.bounds", B4), ("im0.scale", "psc"))
    s = G + "im0 = Image(arrz, xmin=hx, ymin=hy, scale=psc)\nim = o.drawKImage(image=im0)\n"
    A("drawKImage recentred image", s, ("im0.bounds", "BoundsI(-2, 1, -1, 1)"), ("im0.array[1, 3]", "o.kValue(PositionD(psc, 0.))"))
    # Fourier rendering: the image is the inverse transform of the sampled k values
    gs = "gs = GSParams(maximum_fft_size=8, minimum_fft_size=8)\n"
    F = gs + "o = Gaussian(sigma=ps1, flux=flux, gsparams=gs).shift(ax, ay)\n"
    fft = "K = (jnp.arange(9) - 4.)*2*jnp.pi/8\nkx = K[None, :]\nky = K[:, None]\nT = flux*jnp.exp(-0.5*(ps1/psc)**2*(kx**2 + ky**2))\nS = jnp.sinc(kx/2/jnp.pi)*jnp.sinc(ky/2/jnp.pi)\nH = 1./(1. + (ps2/psc)**2*(kx**2 + ky**2))**1.5\n"
    for lab, src, dr, val, off, kwf in (
        ("fft", F, "o.drawImage(nx=4, ny=3, scale=psc, method='fft')", "T*S", "0.", "1."),
        ("auto", F, "o.drawImage(nx=4, ny=3, scale=psc)", "T*S", "0.", "1."),
        ("auto options", F, "o.drawImage(nx=4, ny=3, scale=psc, offset=(pdx, pdy), area=parea, exptime=pexp, gain=pgain)", "T*S", "1.", "parea*pexp/pgain"),
        ("convolution no_pixel", gs + "o = Convolve([Gaussian(sigma=ps1, flux=flux), Exponential(scale_radius=ps2, flux=1.)], gsparams=gs).shift(ax, ay)\n", "o.drawImage(nx=4, ny=3, scale=psc, method='no_pixel')", "T*H", "0.", "1."),
        ("convolution auto", gs + "o = Convolve([Gaussian(sigma=ps1, flux=flux), Exponential(scale_radius=ps2, flux=1.)], gsparams=gs).shift(ax, ay)\n", "o.drawImage(nx=4, ny=3, scale=psc)", "T*S*H", "0.", "1."),
    ):
        s = src + "im = %s\n" % dr + fft
        for i, j in PIX:
            A("drawImage %s" % lab, s, ("im.array[%d, %d]" % (j, i), "(%s)/64*jnp.sum(%s*jnp.cos(kx*(%r - ax/psc - (%s)*pdx) + ky*(%r - ay/psc - (%s)*pdy)))" % (kwf, val, i - 1.5, off, j - 1.0, off)))
        A("drawImage %s" % lab, s, ("im.bounds", "BoundsI(1, 4, 1, 3)"), ("im.scale", "psc"), ("im.added_flux", "im.array.sum()/(%s)" % kwf))
    s = F + "im0 = Image(arrs, xmin=hx, ymin=hy, scale=psc)\na0 = arrs + 0.\nim = o.drawImage(image=im0, add_to_image=True)\n" + fft
    for i, j in PIX:
        A("drawImage auto add", s, ("im0.array[%d, %d]" % (j, i), "a0[%d, %d] + jnp.sum(T*S*jnp.cos(kx*(%r - ax/psc) + ky*(%r - ay/psc)))/64" % (j, i, i - 1.5, j - 1.0)))
    # sizes chosen by the library
    A("getGoodImageSize", G, ("o.getGoodImageSize(psc)", "2*((jnp.ceil(2*jnp.pi/(psc*o.stepk)*(1-1e-12)) + 1)//2)"))
    A("setup_only", G + "im = o.drawImage(nx=4, ny=3, scale=psc, setup_only=True)\nik = o.drawKImage(nx=4, ny=3, scale=psc, setup_only=True)\n", ("im.array", "jnp.zeros((3, 4))"), ("im.bounds", "BoundsI(1, 4, 1, 3)"), ("im.scale", "psc"), ("ik.bounds", "BoundsI(-2, 1, -1, 1)"), ("ik.scale", "psc"))
    A("default scale", G + "im = o.drawImage(nx=4, ny=3, method='no_pixel')\n", ("im.scale", "o.nyquist_scale"), ("im.array[2, 3]", "o.xValue(PositionD(1.5*o.nyquist_scale, o.nyquist_scale))*o.nyquist_scale**2"))
    A("nyquist_scale", G, ("o.nyquist_scale", "jnp.pi/o.maxk"))
    return out


B4 = "BoundsI(hx, hx+3, hy, hy+2)"
PROFS["Convolution"] = "o = Convolve([Gaussian(sigma=ps1, flux=flux).shift(ax, ay), Exponential(scale_radius=ps2, flux=flux2)])\n"
PROFS["Deconvolution"] = "o = Deconvolve(Gaussian(sigma=ps1, flux=flux).shift(ax, ay))\n"


def main():
    I = interp()
    R = Report("P29", "every pixel of an image drawn in real or k space is the profile evaluated at the documented position with the documented scaling, Fourier rendering is the inverse transform of the sampled k values, and bounds, wcs, dtype and added_flux follow the arguments", 200, "Rendering laws decided element by element on symbolic images.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


SPEC["arrs"] = ("jax", 2, "f", (3, 4))
SPEC["arrz"] = ("jax", 2, "c", (3, 4))


# scales, areas, times and gains are positive
VALS = {n: [0.3 + 0.07 * ((7 * k + 3 * j) % 24) for k in range(24)] for j, n in enumerate(("psc", "parea", "pexp", "pgain", "scale"))}


def one(I, R, n, s, p):
    laws(I, R, n, s, p, traced=False, spec=SPEC, vals=VALS)
