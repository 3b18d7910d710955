"""Abstract instances of every public class, built through the public API.

Each entry is an expression in the namespace of jax_galsim; free names are
abstract atoms (see ATOMS for the non-default ones)."""
import ast
from .values import *  # noqa
from . import grade as gr

# name -> (kind, ndim, hint)   default: jax scalar float
ATOMS = {
    "arr2": ("jax", 2, "f"), "arr2b": ("jax", 2, "f"), "arr2c": ("jax", 2, "c"), "varr2": ("jax", 2, "f"), "arrii": ("jax", 2, "f", (12, 10)),
    "pa_x": ("jax", 1, "f"), "pa_y": ("jax", 1, "f"), "pa_f": ("jax", 1, "f"), "pa_dxdz": ("jax", 1, "f"), "pa_dydz": ("jax", 1, "f"),
    "pa_w": ("jax", 1, "f"), "pa_pu": ("jax", 1, "f"), "pa_pv": ("jax", 1, "f"), "pa_t": ("jax", 1, "f"),
    "seed": ("pyi", 0, "i"), "npt": ("pyi", 0, "i"),
    "ix0": ("pyi", 0, "i"), "iy0": ("pyi", 0, "i"), "ix1": ("pyi", 0, "i"), "iy1": ("pyi", 0, "i"),
    "jx0": ("jax", 0, "i"), "jy0": ("jax", 0, "i"), "ipx": ("pyi", 0, "i"), "ipy": ("pyi", 0, "i"),
    "beta": ("pyf", 0, "f"), "nu": ("pyf", 0, "f"),
    "crpix": ("jax", 1, "f"), "cdm": ("jax", 2, "f"), "pvm": ("jax", 3, "f", (2, 4, 4)), "abm": ("jax", 3, "f", (2, 4, 4)), "abpm": ("jax", 3, "f", (2, 4, 4)),
    "pymaxk": ("pyf", 0, "f"), "pykv": ("pyf", 0, "f"), "pyfa": ("pyf", 0, "f"), "pyft": ("pyf", 0, "f"), "pystepk": ("pyf", 0, "f"),
    "pyin": ("pyi", 0, "i"),
}

DTYPES = {"arr2": "float32", "arrii": "float32", "arr2b": "float64"}

# class name -> list of (variant, expression)
ZOO = {
    "Gaussian": [("sigma", "Gaussian(sigma=sigma, flux=flux, gsparams=GSParams(kvalue_accuracy=pykv, maxk_threshold=pymaxk))")],
    "Exponential": [("sr", "Exponential(scale_radius=r0, flux=flux, gsparams=GSParams(kvalue_accuracy=pykv))")],
    "DeltaFunction": [("", "DeltaFunction(flux=flux, gsparams=GSParams(kvalue_accuracy=pykv))")],
    "Box": [("", "Box(width=width, height=height, flux=flux, gsparams=GSParams(kvalue_accuracy=pykv))")],
    "Pixel": [("", "Pixel(scale=scale, flux=flux, gsparams=GSParams(kvalue_accuracy=pykv))")],
    "Moffat": [
        ("", "Moffat(beta=beta, scale_radius=r0, flux=flux, gsparams=GSParams(kvalue_accuracy=pykv))"),
    ],
    "Spergel": [("", "Spergel(nu=nu, scale_radius=r0, flux=flux, gsparams=GSParams(kvalue_accuracy=pykv))")],
    "Sum": [("", "Sum([Gaussian(sigma=sigma, flux=flux), Exponential(scale_radius=r0, flux=flux2)], gsparams=GSParams(kvalue_accuracy=pykv))"),
            ("noprop", "Sum([Gaussian(sigma=sigma, flux=flux), Exponential(scale_radius=r0, flux=flux2)], gsparams=GSParams(kvalue_accuracy=pykv), propagate_gsparams=False)")],
    "Convolution": [("", "Convolution([Gaussian(sigma=sigma, flux=flux), Exponential(scale_radius=r0, flux=flux2)], gsparams=GSParams(kvalue_accuracy=pykv), propagate_gsparams=True)"),
                    ("noprop", "Convolution([Gaussian(sigma=sigma, flux=flux), Exponential(scale_radius=r0, flux=flux2)], gsparams=GSParams(kvalue_accuracy=pykv), propagate_gsparams=False)")],
    "Deconvolution": [("", "Deconvolution(Gaussian(sigma=sigma, flux=flux), gsparams=GSParams(kvalue_accuracy=pykv))"),
                      ("noprop", "Deconvolution(Gaussian(sigma=sigma, flux=flux), gsparams=GSParams(kvalue_accuracy=pykv), propagate_gsparams=False)")],
    "Transformation": [
        ("", "Transformation(Gaussian(sigma=sigma, flux=flux), jac=[[ja, jb], [jc, jd]], offset=PositionD(ox, oy), flux_ratio=fr, gsparams=GSParams(kvalue_accuracy=pykv))"),
        ("noprop", "Transformation(Gaussian(sigma=sigma, flux=flux), jac=[[ja, jb], [jc, jd]], offset=PositionD(ox, oy), flux_ratio=fr, gsparams=GSParams(kvalue_accuracy=pykv), propagate_gsparams=False)"),
    ],
    "InterpolatedImage": [
        ("", "InterpolatedImage(Image(arrii, scale=scale, xmin=ix0, ymin=iy0), x_interpolant='lanczos5', k_interpolant='quintic', scale=iscale, flux=flux, offset=PositionD(ox, oy), use_true_center=False, gsparams=GSParams(kvalue_accuracy=pykv))"),
    ],
    "Position": [],
    "PositionD": [("", "PositionD(x, y)")],
    "PositionI": [("", "PositionI(ipx, ipy)")],
    "BoundsD": [("", "BoundsD(bx0, bx1, by0, by1)"), ("undef", "BoundsD()")],
    "BoundsI": [("static", "BoundsI(ix0, ix1, iy0, iy1)"), ("dyn", "BoundsI(xmin=jx0, deltax=npt, ymin=jy0, deltay=npt)"), ("undef", "BoundsI()")],
    "Angle": [("", "Angle(theta, radians)")],
    "AngleUnit": [("", "AngleUnit(pyfa)")],
    "Shear": [("", "Shear(g1=g1, g2=g2)")],
    "CelestialCoord": [("", "CelestialCoord(Angle(ra, radians), Angle(dec, radians))")],
    "PixelScale": [("", "PixelScale(scale)")],
    "ShearWCS": [("", "ShearWCS(scale, Shear(g1=g1, g2=g2))")],
    "JacobianWCS": [("", "JacobianWCS(dudx, dudy, dvdx, dvdy)")],
    "OffsetWCS": [("", "OffsetWCS(scale, origin=PositionD(x0, y0), world_origin=PositionD(u0, v0))")],
    "OffsetShearWCS": [("", "OffsetShearWCS(scale, Shear(g1=g1, g2=g2), origin=PositionD(x0, y0), world_origin=PositionD(u0, v0))")],
    "AffineTransform": [("", "AffineTransform(dudx, dudy, dvdx, dvdy, origin=PositionD(x0, y0), world_origin=PositionD(u0, v0))")],
    "GSFitsWCS": [
        ("", "GSFitsWCS(_data=('TAN', jnp.array([crx, cry]), jnp.array([[cd11, cd12], [cd21, cd22]]), CelestialCoord(Angle(ra, radians), Angle(dec, radians)), None, None, None))"),
        ("pv", "GSFitsWCS(_data=('TPV', jnp.array([crx, cry]), jnp.array([[cd11, cd12], [cd21, cd22]]), CelestialCoord(Angle(ra, radians), Angle(dec, radians)), pvm, None, None))"),
        ("sip", "GSFitsWCS(_data=('TAN-SIP', jnp.array([crx, cry]), jnp.array([[cd11, cd12], [cd21, cd22]]), CelestialCoord(Angle(ra, radians), Angle(dec, radians)), None, abm, abpm))"),
    ],
    "Image": [
        ("", "Image(arr2, xmin=ix0, ymin=iy0, wcs=JacobianWCS(dudx, dudy, dvdx, dvdy))"),
        ("const", "Image(arr2, xmin=ix0, ymin=iy0, scale=scale, make_const=True)"),
        ("dyn", "Image(arr2, bounds=BoundsI(xmin=jx0, deltax=arr2.shape[1], ymin=jy0, deltay=arr2.shape[0]), scale=scale, make_const=True)"),
        ("drawn", "Gaussian(sigma=sigma, flux=flux).drawImage(nx=9, ny=7, scale=scale, method='no_pixel')"),
        ("phot", "Gaussian(sigma=sigma, flux=flux).drawImage(nx=9, ny=7, scale=scale, method='phot', n_photons=10, rng=BaseDeviate(seed), save_photons=True)"),
    ],
    "BaseDeviate": [("", "BaseDeviate(seed)")],
    "UniformDeviate": [("", "UniformDeviate(seed)")],
    "GaussianDeviate": [("", "GaussianDeviate(seed, mean=dmean, sigma=dsigma)")],
    "BinomialDeviate": [("", "BinomialDeviate(seed, N=dn, p=dp)")],
    "PoissonDeviate": [("", "PoissonDeviate(seed, mean=dmean)")],
    "WeibullDeviate": [("", "WeibullDeviate(seed, a=da, b=db)")],
    "GammaDeviate": [("", "GammaDeviate(seed, k=dk, theta=dtheta)")],
    "Chi2Deviate": [("", "Chi2Deviate(seed, n=dn)")],
    "BaseNoise": [],
    "GaussianNoise": [("", "GaussianNoise(BaseDeviate(seed), sigma=nsig)")],
    "PoissonNoise": [("", "PoissonNoise(BaseDeviate(seed), sky_level=sky)")],
    "CCDNoise": [("", "CCDNoise(BaseDeviate(seed), sky_level=sky, gain=gain, read_noise=rn)")],
    "DeviateNoise": [("", "DeviateNoise(GaussianDeviate(seed, mean=dmean, sigma=dsigma))")],
    "VariableGaussianNoise": [("", "VariableGaussianNoise(BaseDeviate(seed), Image(varr2, xmin=ix0, ymin=iy0, scale=scale))")],
    "PhotonArray": [
        ("", "PhotonArray.fromArrays(pa_x, pa_y, pa_f, dxdz=pa_dxdz, dydz=pa_dydz, wavelength=pa_w, pupil_u=pa_pu, pupil_v=pa_pv, time=pa_t)"),
        ("plain", "PhotonArray(npt, x=pa_x, y=pa_y, flux=pa_f)"),
    ],
    "Sensor": [("", "Sensor()")],
    "Delta": [("", "Delta(gsparams=GSParams(kvalue_accuracy=pykv))")],
    "Nearest": [("", "Nearest(gsparams=GSParams(kvalue_accuracy=pykv))")],
    "SincInterpolant": [("", "SincInterpolant(gsparams=GSParams(kvalue_accuracy=pykv))")],
    "Linear": [("", "Linear(gsparams=GSParams(kvalue_accuracy=pykv))")],
    "Cubic": [("", "Cubic(gsparams=GSParams(kvalue_accuracy=pykv))")],
    "Quintic": [("", "Quintic(gsparams=GSParams(kvalue_accuracy=pykv))")],
    "Lanczos": [("", "Lanczos(4, conserve_dc=False, gsparams=GSParams(kvalue_accuracy=pykv))"), ("dc", "Lanczos(3)")],
    "GSParams": [("", "GSParams(kvalue_accuracy=pykv, maxk_threshold=pymaxk, folding_threshold=pyft)")],
}


def eval_in(I, src, env=None, modname="jax_galsim"):
    """evaluate an expression in the namespace of a module, free names from env"""
    m = I.mods[modname]
    fr = Frame(None, m)
    fr.vars = env if env is not None else {}
    fr.line = 0
    node = ast.parse(src.strip(), "<harness>", "eval").body
    I.stack.append(fr)
    try:
        return I.expr(node, fr)
    finally:
        I.stack.pop()


def exec_in(I, src, env, modname="jax_galsim"):
    m = I.mods[modname]
    fr = Frame(None, m)
    fr.vars = env
    tree = ast.parse(src)
    I.stack.append(fr)
    try:
        I.block(tree.body, fr)
    finally:
        I.stack.pop()
    return env


class AtomEnv(dict):
    """environment creating atoms on demand"""

    def __init__(self, I, traced=False, grades=None, weights=None, spec=None, default=None):
        super().__init__()
        self.I = I
        self.traced = traced
        self.grades = grades or {}
        self.weights = weights or {}
        self.spec = spec or {}
        self.default = default
        self.m = I.mods["jax_galsim"]

    def __contains__(self, n):
        if dict.__contains__(self, n):
            return True
        if n == "jnp":
            self["jnp"] = Ext("jax.numpy")
            return True
        if not isinstance(n, str) or n in self.m.ns or n.startswith("__"):
            return False
        import builtins

        if hasattr(builtins, n):
            return False
        self[n] = self.make(n)
        return True

    def make(self, n):
        sp = self.spec.get(n) or ATOMS.get(n) or self.default or ("jax", 0, "f")
        kind, nd, hint = sp[:3]
        tr = self.traced and kind in ("jax",)
        g = self.grades.get(n, None if self.grades else None)
        w = self.weights.get(n, ())
        ex = {}
        if kind == "jax" and (nd or hint == "i"):
            d = {"f": "float64", "i": "int32", "c": "complex128", "b": "bool_"}.get(hint)
            if nd == 2 and n in DTYPES:
                d = DTYPES[n]
            ex["dtype"] = Ext("jax.numpy." + d)
        if len(sp) > 3:
            ex["shape"] = sp[3]
        return self.I.atom(n, grade=g, kind=kind, ndim=nd, hint=hint, traced=tr, w=w, **ex)
