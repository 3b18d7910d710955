"""P32: an interpolated image is its pixels convolved with its interpolant."""
import math

from ..core import *
from ..eqs import laws, grouped, must_raise

PF = ("pyf", 0, "f")
SPEC = {n: PF for n in ("px", "py", "kx", "ky", "flux", "scl", "ox", "oy", "ja", "jb", "jc", "jd", "sk", "mk", "fill")}
SPEC.update(arr=("jax", 2, "f", (2, 3)), ab=("jax", 2, "f", (4, 4)), arr2=("jax", 2, "f", (2, 3)))
PTS = {"px": [-1.13 + 0.103 * k for k in range(24)], "py": [0.87 - 0.077 * k for k in range(24)], "kx": [0.9 - 0.071 * k for k in range(24)], "ky": [-0.8 + 0.067 * k for k in range(24)], "flux": [1.3 + 0.21 * k for k in range(24)], "scl": [0.4 + 0.03 * k for k in range(24)],
       "ox": [0.31 - 0.043 * k for k in range(24)], "oy": [-0.27 + 0.037 * k for k in range(24)], "ja": [0.5 + 0.02 * k for k in range(24)], "jb": [0.11 - 0.013 * k for k in range(24)], "jc": [-0.07 + 0.011 * k for k in range(24)], "jd": [0.61 - 0.008 * k for k in range(24)],
       "sk": [0.2 + 0.01 * k for k in range(24)], "mk": [3.0 + 0.1 * k for k in range(24)], "fill": [1.1 + 0.1 * k for k in range(24)]}

BASE = """import math
def tot(xs):
    t = 0.
    for x in xs:
        t = t+x
    return t
"""
# the pixels relative to the centre of the image: arr is 2 x 3 (an even and an odd side)
IMG = BASE + "im = ImageD(arr, xmin=3, ymin=5, wcs=%s)\npix = [(im(i, j), i-%s, j-%s) for i in (3, 4, 5) for j in (5, 6)]\n"
XI = {"nearest": "Nearest()", "linear": "Linear()", "cubic": "Cubic()", "quintic": "Quintic()", "lanczos3": "Lanczos(3)"}
# (u, v): image coordinates of the point relative to the centre; (a, b, c, d): jacobian; A: pixel area; fr: flux ratio; (fx, fy): extra offset
REF = """X = %s
K = %s
A = abs(a*d-b*c)
def ref(x, y):
    u, v = (d*x-b*y)/(a*d-b*c), (a*y-c*x)/(a*d-b*c)
    return tot([p*X.xval(u+fx-i)*X.xval(v+fy-j) for p, i, j in pix])*fr/A
def ft(u, v):
    return tot([p*jnp.exp(-1j*(u*(i-fx)+v*(j-fy))) for p, i, j in pix])
dk = 2*math.pi/12
def kgrid(m, n):
    # at the nodes of the padded transform the k interpolant is exact; the same point in world wave numbers
    u, v = m*dk, n*dk
    return o.kValue(PositionD((d*u-c*v)/(a*d-b*c), (a*v-b*u)/(a*d-b*c)))
def kref(m, n):
    u, v = m*dk, n*dk
    return fr*X.kval(u)*X.kval(v)*ft(u, v)
def kany(x, y):
    # between the nodes: k interpolation of the transform about the central pixel, then the phase of the offset
    u, v = a*x+c*y, b*x+d*y
    s = tot([K.xval(u/dk-m)*K.xval(v/dk-n)*ft0(m*dk, n*dk) for m in R for n in R])
    return fr*X.kval(u)*X.kval(v)*s*jnp.exp(1j*(u*(cx0+fx)+v*(cy0+fy)))
def ft0(u, v):
    return tot([p*jnp.exp(-1j*(u*(i+cx0)+v*(j+cy0))) for p, i, j in pix])
"""


def setup(wcs="None", cen=("4.", "5.5"), x="linear", k="linear", jac=("0.5", "0.", "0.", "0.5"), fr="1.", off=("0.", "0.")):
    s = IMG % (wcs, cen[0], cen[1])
    s += "a, b, c, d = %s\nfr = %s\nfx, fy = %s\n" % (", ".join(jac), fr, ", ".join(off))
    # offset of the reference centre from the central pixel (4, 6)
    s += "cx0, cy0 = %s-4., %s-6.\nR = %s\n" % (cen[0], cen[1], {"nearest": "(-2, -1, 0, 1, 2)", "linear": "(-2, -1, 0, 1, 2)", "cubic": "(-3, -2, -1, 0, 1, 2, 3)"}.get(k, "(-4, -3, -2, -1, 0, 1, 2, 3, 4)"))
    return s + REF % (XI[x], XI[k])


def full(name, s, K=True):
    prs = [("o.xValue(PositionD(px, py))", "ref(px, py)"), ("o.xValue(px, py)", "ref(px, py)"), ("o.flux", "fr*tot([p for p, i, j in pix])"), 
           ("o.centroid", "PositionD(*[tot([p*(m[0]*(i-fx)+m[1]*(j-fy)) for p, i, j in pix])/tot([p for p, i, j in pix]) for m in ((a, b), (c, d))])"), ("o.max_sb", "jnp.max(jnp.abs(jnp.array([p for p, i, j in pix])))*fr/A"),
           ]
    if K:
        prs += [("kgrid(2, -1)", "kref(2, -1)"), ("kgrid(-3, 0)", "kref(-3, 0)"), ("kgrid(1, 4)", "kref(1, 4)"), ("kgrid(-2, 3)", "kref(-2, 3)")]
        prs.append(("o.kValue(PositionD(0., 0.))", "o.flux"))
        prs.append(("o.kValue(PositionD(kx, ky))", "kany(kx, ky)"))
    return [(name, s, p) for p in prs]


def obligations():
    out = []
    for x, k in (("linear", "nearest"), ("cubic", "linear"), ("nearest", "nearest"), ("quintic", "cubic"), ("linear", "quintic"), ("lanczos3", "linear")):
        s = setup(x=x, k=k)
        out += full("kernel %s/%s" % (x, k), s + "o = InterpolatedImage(im, x_interpolant=%r, k_interpolant=%s, scale=0.5)\n" % (x, XI[k]), K=x != "lanczos3")
    lin = "x_interpolant='linear', k_interpolant='linear'"
    F = "o = InterpolatedImage(im, %s, " % lin
    # normalisation and flux
    out += full("normalization flux", setup(fr="flux/tot([p for p, i, j in pix])") + F + "scale=0.5, flux=flux)\n")
    out += full("normalization f", setup() + F + "scale=0.5, normalization='f')\n")
    for nm in ("sb", "surface brightness"):
        out += full("normalization " + nm, setup(fr="scl**2", jac=("scl", "0.", "0.", "scl")) + F + "scale=scl, normalization=%r)\n" % nm)
    out += full("normalization sb with flux", setup(fr="flux/tot([p for p, i, j in pix])", jac=("scl", "0.", "0.", "scl")) + F + "scale=scl, normalization='sb', flux=flux)\n")
    # pixel scale and wcs
    J = ("ja", "jb", "jc", "jd")
    out += full("image scale", setup("PixelScale(scl)", jac=("scl", "0.", "0.", "scl")) + F[:-2] + ")\n")
    out += full("scale overrides", setup("PixelScale(0.77)", jac=("scl", "0.", "0.", "scl")) + F + "scale=scl)\n")
    out += full("image wcs", setup("JacobianWCS(ja, jb, jc, jd)", jac=J) + F[:-2] + ")\n")
    out += full("wcs argument", setup("PixelScale(0.77)", jac=J) + F + "wcs=JacobianWCS(ja, jb, jc, jd))\n")
    out += full("affine wcs", setup("AffineTransform(ja, jb, jc, jd, origin=PositionD(ox, oy), world_origin=PositionD(oy, ox))", jac=J) + F + "flux=flux)\n".replace("flux=flux", "normalization='sb'"))[:0]
    out += full("affine wcs sb", setup("AffineTransform(ja, jb, jc, jd, origin=PositionD(ox, oy), world_origin=PositionD(oy, ox))", jac=J, fr="abs(ja*jd-jb*jc)") + F + "normalization='sb')\n")
    # centres and offsets
    O = ("ox", "oy")
    for form in ("PositionD(ox, oy)", "(ox, oy)"):
        out += full("offset " + form, setup(off=O) + F + "scale=0.5, offset=%s)\n" % form)
    out += full("nominal centre", setup(cen=("4.", "6.")) + F + "scale=0.5, use_true_center=False)\n")
    out += full("nominal centre offset", setup("JacobianWCS(ja, jb, jc, jd)", cen=("4.", "6."), jac=J, off=O, fr="flux/tot([p for p, i, j in pix])") + F + "use_true_center=False, offset=PositionD(ox, oy), flux=flux)\n")
    # the padding sets the spacing of the nodes in k
    for pf, n in (("1.", 4), ("2.", 6), ("2.5", 8)):
        s = setup().replace("2*math.pi/12", "2*math.pi/%d" % n)
        out += [("pad_factor %s" % pf, s + F + "scale=0.5, pad_factor=%s)\n" % pf, p) for p in (("o.xValue(PositionD(px, py))", "ref(px, py)"), ("kgrid(2, -1)", "kref(2, -1)"), ("kgrid(-1, 0)", "kref(-1, 0)"), ("o.kValue(PositionD(kx, ky))", "kany(kx, ky)"))]
    # derived quantities
    D = setup() + F + "scale=scl, flux=flux, calculate_stepk=False, calculate_maxk=False)\n"
    out += [("size", D, p) for p in (("o.stepk", "math.pi/math.sqrt(1.+1.)/scl"), ("o.maxk", "X.krange/scl"), ("o.nyquist_scale", "math.pi*scl/X.krange"))]
    for x in ("cubic", "quintic", "nearest"):
        out += [("size " + x, setup(x=x) + "o = InterpolatedImage(im, x_interpolant=%r, scale=scl, calculate_stepk=False, calculate_maxk=False)\n" % x, p) for p in (("o.stepk", "math.pi/math.sqrt(1.+X.xrange**2)/scl"), ("o.maxk", "X.krange/scl"),
                ("o.positive_flux", "tot([jnp.where(p > 0, p, 0.) for p, i, j in pix])*(X.positive_flux**2+X.negative_flux**2)+tot([jnp.where(p < 0, -p, 0.) for p, i, j in pix])*2*X.positive_flux*X.negative_flux"),
                ("o.negative_flux", "tot([jnp.where(p < 0, -p, 0.) for p, i, j in pix])*(X.positive_flux**2+X.negative_flux**2)+tot([jnp.where(p > 0, p, 0.) for p, i, j in pix])*2*X.positive_flux*X.negative_flux"), ("o.positive_flux-o.negative_flux", "o.flux"))]
    G = setup() + F + "scale=0.5, flux=flux)\n"
    out += [("attributes", G, p) for p in (("o.x_interpolant == Linear()", "True"), ("o.k_interpolant == Linear()", "True"), ("o.image.array", "arr"), ("o.withFlux(3.).flux", "3."), ("o.withFlux(3.).xValue(px, py)", "o.xValue(px, py)*3./flux"), ("InterpolatedImage(im, scale=0.5).x_interpolant == Quintic()", "True"), ("InterpolatedImage(im, scale=0.5).k_interpolant == Quintic()", "True"),
            ("InterpolatedImage(im, scale=0.5).flux", "arr.sum()"), ("o.shift(0.3, -0.2).xValue(px, py)", "o.xValue(px-0.3, py+0.2)"), ("o.withGSParams(kvalue_accuracy=1e-6).x_interpolant.gsparams.kvalue_accuracy", "1e-6"), ("o.withGSParams(kvalue_accuracy=1e-6).xValue(px, py)", "o.xValue(px, py)"), ("o.withGSParams(kvalue_accuracy=1e-6).flux", "flux"),
            ("o.withGSParams(maxk_threshold=0.1).gsparams.maxk_threshold", "0.1"), ("o.gsparams == GSParams()", "True"), ("InterpolatedImage(im, scale=0.5, gsparams=GSParams(folding_threshold=0.1)).gsparams.folding_threshold", "0.1"))]
    out += [("input image", G + "w = o.xValue(px, py)\nim *= 2.\nim.setOrigin(7, 9)\n", p) for p in (("o.xValue(px, py)", "w"), ("o.flux", "flux"))]
    C = BASE + "im = ImageD(arr, xmin=-1, ymin=-1, scale=scl)\npix = [(im(i, j), i, j+0.5) for i in (-1, 0, 1) for j in (-1, 0)]\na, b, c, d = scl, 0., 0., scl\nfr = 1.\nfx, fy = 0., 0.\ncx0, cy0 = 0., -0.5\nR = (-2, -1, 0, 1, 2)\n" + REF % ("Linear()", "Linear()") + "o = _InterpolatedImage(im, x_interpolant=Linear(), k_interpolant=Linear(), force_stepk=sk, force_maxk=mk)\n"
    out += [("_InterpolatedImage", C, p) for p in (("o.xValue(px, py)", "ref(px, py)"), ("o.flux", "arr.sum()"), ("o.stepk", "sk"), ("o.maxk", "mk"), ("o.x_interpolant == Linear()", "True"))]
    # drawing
    for nx, ny in ((3, 2), (4, 4)):
        out += [("draw %dx%d" % (nx, ny), G + "d_ = o.drawImage(nx=%d, ny=%d, scale=0.3, method='no_pixel')\ns_ = o.drawImage(nx=%d, ny=%d, scale=0.3, method='sb')\nk_ = o.drawKImage(nx=%d, ny=%d, scale=0.2)\n" % (nx, ny, nx, ny, nx, ny), p)
                for i, j in ((1, 1), (nx, ny), (2, 1)) for p in (("d_(%d, %d)" % (i, j), "o.xValue(%r, %r)*0.09" % (0.3 * (i - (nx + 1) / 2), 0.3 * (j - (ny + 1) / 2))), ("s_(%d, %d)" % (i, j), "o.xValue(%r, %r)" % (0.3 * (i - (nx + 1) / 2), 0.3 * (j - (ny + 1) / 2))))]
        out += [("draw k %dx%d" % (nx, ny), G + "k_ = o.drawKImage(nx=%d, ny=%d, scale=0.2)\n" % (nx, ny), ("k_(%d, %d)" % (i, j), "o.kValue(%r, %r)" % (0.2 * i, 0.2 * j))) for i, j in ((0, 0), (-1, 0), (1, -1), (0, -1)) if nx == 3]
    for e in ("InterpolatedImage(im)", "InterpolatedImage(im, scale=0.5, wcs=PixelScale(0.5))", "InterpolatedImage(im, wcs=0.5)", "InterpolatedImage(im.array, scale=0.5)", "InterpolatedImage(ImageI(3, 3), scale=0.5)", "InterpolatedImage(ImageCD(3, 3), scale=0.5)", "InterpolatedImage(ImageD(), scale=0.5)", "InterpolatedImage(im, scale=0.5, normalization='foo')",
              "InterpolatedImage(im, scale=0.5, pad_factor=0.)", "InterpolatedImage(im, scale=0.5, pad_factor=-1.)", "InterpolatedImage(im, scale=0.5, x_interpolant='foo')", "InterpolatedImage(im, scale=0.5, pad_image=im)", "InterpolatedImage(im, scale=0.5, noise_pad_size=4)", "InterpolatedImage(im, scale=0.5, noise_pad=1.)", "InterpolatedImage(im, scale=0.5, depixelize=True).flux",
              "InterpolatedImage(ImageD(jnp.zeros((3, 3))), scale=0.5)", "InterpolatedImage(ImageD(jnp.zeros((3, 3))), scale=0.5, calculate_stepk=False, calculate_maxk=False, flux=1.)", "InterpolatedImage(ImageD(jnp.zeros((3, 3))), scale=0.5, calculate_stepk=False)", "InterpolatedImage(ImageD(jnp.zeros((3, 3))), scale=0.5, calculate_maxk=False)"):
        out.append(("rejects", "im = ImageD(jnp.ones((2, 3)))\n", (e,)))
    return out


def main():
    I = interp()
    R = Report("P32", "an InterpolatedImage evaluates its pixels convolved with the x interpolant in real space, and the interpolated transform of its padded pixels times the kernel's transform in k space, for every normalisation, flux, scale, wcs, centre, offset and padding; derived sizes and rejections follow", 200, "Identities decided by value numbering and term fingerprints on images of symbolic pixels.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    if n == "rejects":
        for q in p:
            must_raise(I, R, "rejects " + q[0], s + q[0] + "\n", spec=SPEC)
        return
    laws(I, R, n, s, p, spec=SPEC, vals=PTS, traced=False, tol=1e-6)
