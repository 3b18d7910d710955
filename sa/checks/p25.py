"""P25: profiles evaluate their documented closed forms."""
from ..core import *
from ..eqs import laws, grouped

TWOPI = "6.283185307179586"
R2 = "(px*px+py*py)"
MK = [
    # name, constructor, xValue at (px,py), kValue at (px,py), extra pairs
    ("Gaussian", "Gaussian(sigma=sigma, flux=flux, gsparams=GP)", "flux/(2*math.pi*sigma**2)*jnp.exp(-R2/(2*sigma**2))", "flux*jnp.exp(-R2*sigma**2/2)",
     [("o.sigma", "sigma"), ("o.half_light_radius", "sigma*math.sqrt(2*math.log(2.))"), ("o.fwhm", "2*sigma*math.sqrt(2*math.log(2.))"), ("o.max_sb", "flux/(2*math.pi*sigma**2)"),
      ("o.maxk", "jnp.sqrt(-2*jnp.log(pymaxk))/sigma"), ("o.stepk", "math.pi/(sigma*jnp.maximum(jnp.sqrt(-2*jnp.log(pyft)), pyhlr*math.sqrt(2*math.log(2.))))"),
      ("o.is_axisymmetric", "True"), ("o.has_hard_edges", "False"), ("o.is_analytic_x and o.is_analytic_k", "True")]),
    ("Exponential", "Exponential(scale_radius=r0, flux=flux, gsparams=GP)", "flux/(2*math.pi*r0**2)*jnp.exp(-jnp.sqrt(R2)/r0)", "flux/(1+R2*r0**2)**1.5",
     [("o.scale_radius", "r0"), ("o.half_light_radius", "r0*1.6783469900166605"), ("o.max_sb", "flux/(2*math.pi*r0**2)"), ("o.maxk", "pymaxk**(-1./3.)/r0"),
      ("o.is_axisymmetric", "True"), ("o.has_hard_edges", "False"), ("o.is_analytic_x and o.is_analytic_k", "True")]),
    ("Box", "Box(width=width, height=height, flux=flux, gsparams=GP)",
     "jnp.where((jnp.abs(px) < width/2) & (jnp.abs(py) < height/2), flux/(width*height), 0.)", "flux*jnp.sin(px*width/2)/(px*width/2)*jnp.sin(py*height/2)/(py*height/2)",
     [("o.width", "width"), ("o.height", "height"), ("o.max_sb", "flux/(width*height)"), ("o.stepk", "math.pi/jnp.maximum(width, height)"), ("o.maxk", "2./(pymaxk*jnp.minimum(width, height))"),
      ("o.has_hard_edges", "True"), ("o.is_axisymmetric", "False"), ("o.is_analytic_x and o.is_analytic_k", "True")]),
    ("Pixel", "Pixel(scale=scale, flux=flux, gsparams=GP)",
     "jnp.where((jnp.abs(px) < scale/2) & (jnp.abs(py) < scale/2), flux/scale**2, 0.)", "flux*jnp.sin(px*scale/2)/(px*scale/2)*jnp.sin(py*scale/2)/(py*scale/2)",
     [("o.scale", "scale"), ("o.width", "scale"), ("o.height", "scale"), ("o.max_sb", "flux/scale**2"), ("o.stepk", "math.pi/scale"), ("o.maxk", "2./(pymaxk*scale)"), ("o.has_hard_edges", "True")]),
    ("DeltaFunction", "DeltaFunction(flux=flux, gsparams=GP)", None, "flux", [("o.is_analytic_x", "False"), ("o.is_analytic_k", "True"), ("o.has_hard_edges", "False")]),
    ("Moffat", "Moffat(beta=beta, scale_radius=r0, flux=flux, gsparams=GP)", "jnp.where(R2/r0**2 > pyxa**(1./(1.-beta))-1, 0., flux*(beta-1)/(math.pi*r0**2)*(1+R2/r0**2)**(-beta))", None,
     [("o.beta", "beta"), ("o.trunc", "0."), ("o.scale_radius", "r0"), ("o.half_light_radius", "r0*jnp.sqrt(0.5**(1./(1.-beta))-1)"), ("o.fwhm", "2*r0*jnp.sqrt(2.**(1./beta)-1)"),
      ("o.max_sb", "flux*(beta-1)/(math.pi*r0**2)"), ("o.stepk", "jnp.where(beta <= 1.1, math.pi/(r0*jnp.sqrt(pyxa**(1./(1.-beta))-1)), math.pi/jnp.maximum(jnp.minimum(pyft**(0.5/(1.-beta))*r0, r0*jnp.sqrt(pyxa**(1./(1.-beta))-1)), pyhlr*o.half_light_radius))"),
      ("o.has_hard_edges", "False"), ("o.is_axisymmetric", "True"), ("o.is_analytic_x and o.is_analytic_k", "True"), ("o.maxk*r0", "Moffat(beta=beta, scale_radius=1., flux=flux, gsparams=GP).maxk")]),
    ("Spergel", "Spergel(nu=nu, scale_radius=r0, flux=flux, gsparams=GP)", None, "flux*(1+R2*r0**2)**(-1.-nu)",
     [("o.nu", "nu"), ("o.scale_radius", "r0"), ("o.maxk", "jnp.sqrt(pymaxk**(-1./(1.+nu))-1)/r0"), ("o.half_light_radius/r0", "Spergel(nu=nu, scale_radius=1.).half_light_radius"),
      ("o.has_hard_edges", "False"), ("o.is_axisymmetric", "True"), ("o.is_analytic_x and o.is_analytic_k", "True")]),
]
PRE = "import math\nGP = GSParams(kvalue_accuracy=pykv, maxk_threshold=pymaxk, folding_threshold=pyft, stepk_minimum_hlr=pyhlr, xvalue_accuracy=pyxa)\nR2 = px*px+py*py\n"

SIZES = [
    ("Gaussian(half_light_radius=hlr, flux=flux)", [("o.half_light_radius", "hlr"), ("o.sigma", "hlr/math.sqrt(2*math.log(2.))"), ("o.flux", "flux")]),
    ("Gaussian(fwhm=fwhm, flux=flux)", [("o.fwhm", "fwhm"), ("o.sigma", "fwhm/math.sqrt(8*math.log(2.))"), ("o.flux", "flux"), ("o.xValue(fwhm/2, 0.)", "o.xValue(0., 0.)/2")]),
    ("Gaussian(sigma=sigma)", [("o.flux", "1.0")]),
    ("Exponential(half_light_radius=hlr, flux=flux)", [("o.half_light_radius", "hlr"), ("o.scale_radius", "hlr/1.6783469900166605"), ("o.flux", "flux")]),
    ("Exponential(scale_radius=r0)", [("o.flux", "1.0")]),
    ("Moffat(beta=beta, half_light_radius=hlr, flux=flux)", [("o.half_light_radius", "hlr"), ("o.beta", "beta"), ("o.flux", "flux"), ("(1+(hlr/o.scale_radius)**2)**(1-beta)", "0.5")]),
    ("Moffat(beta=beta, fwhm=fwhm, flux=flux)", [("o.fwhm", "fwhm"), ("o.beta", "beta"), ("o.flux", "flux"), ("o.xValue(fwhm/2, 0.)", "o.xValue(0., 0.)/2")]),
    ("Moffat(beta=beta, scale_radius=r0)", [("o.flux", "1.0")]),
    ("Spergel(nu=nu, half_light_radius=hlr, flux=flux)", [("o.half_light_radius", "hlr"), ("o.nu", "nu"), ("o.flux", "flux")]),
    ("Spergel(nu=nu, scale_radius=r0)", [("o.flux", "1.0")]),
    ("Box(width, height)", [("o.flux", "1.0"), ("o.width", "width")]),
    ("Pixel(scale)", [("o.flux", "1.0")]),
    ("DeltaFunction()", [("o.flux", "1.0")]),
]
SPEC = {"pymaxk": ("pyf", 0, "f"), "pyft": ("pyf", 0, "f"), "pyhlr": ("pyf", 0, "f"), "pyxa": ("pyf", 0, "f"), "kz": ("jax", 0, "f")}
VALS = {
    "pyhlr": [(5.0 + 0.3 * k) if k % 3 else 0.3 + 0.05 * k for k in range(40)],
    "pyft": [10 ** (-0.7 - 0.11 * ((k * 7) % 24)) for k in range(40)],
    "pymaxk": [0.001 * (1 + k / 7.0) for k in range(40)],
    "pyxa": [10 ** (-0.4 - 0.19 * ((k * 5) % 24)) for k in range(40)],
}
SPER = dict(VALS, nu=[[0.3, -0.6, 1.7, 2.5, 3.9, 0.0, 1.0, -0.2, 2.0, 3.0, 4.0][k % 11] for k in range(40)], px=[[0.3, -0.5, 2.0, 1.1, 4.0][k % 5] * (1 + k * 0.01) for k in range(40)],
            py=[[0.2, -0.7, 1.0, -3.1, 0.01, 2.2, 0.9][k % 7] for k in range(40)], pz=[[1e-13, 3e-12, 1e-11, 0.2, 1.5][k % 5] for k in range(40)], pfr=[0.02 + 0.023 * k for k in range(40)])
# the Bessel function itself is decided by P33
KV = {"jax_galsim/bessel.py:kv": "galsim.bessel.kv"}
SPERGEL = [
    ("o.xValue(px, py)", "flux/(2*math.pi*r0**2*norm)*z**nu*galsim.bessel.kv(nu, z)"),
    ("o.xValue(0., 0.)", "jnp.where(nu > 0, flux/(4*math.pi*r0**2*nu), jnp.inf)"),
    ("o.max_sb", "jnp.where(nu > 0, flux/(4*math.pi*r0**2*nu), jnp.inf)"),
    ("o.calculateIntegratedFlux(z*r0)", "1 - z**(nu + 1)*galsim.bessel.kv(nu + 1, z)/norm"),
    ("o.calculateIntegratedFlux(pz*r0)", "1 - pz**(nu + 1)*galsim.bessel.kv(nu + 1, pz)/norm"),
    ("o.xValue(pz*r0, 0.)", "flux/(2*math.pi*r0**2*norm)*pz**nu*galsim.bessel.kv(nu, pz)"),
    ("o.calculateIntegratedFlux(o.calculateFluxRadius(pfr))", "pfr"),
    ("o.calculateIntegratedFlux(o.half_light_radius)", "0.5"),
    ("o.stepk", "math.pi/jnp.maximum(o.calculateFluxRadius(1 - pyft), pyhlr*o.half_light_radius)"),
]
LOWB = dict(VALS, beta=[1.015 + 0.003 * k for k in range(40)])


def obligations():
    out = []
    for cn, src, xv, kv, extra in MK:
        pre = PRE + "o = " + src + "\n"
        prs = [("o.flux", "flux"), ("o.kValue(0., 0.)", "flux"), ("o.centroid", "PositionD(0., 0.)"), ("o.gsparams", "GP"), ("o.positive_flux", "flux"), ("o.negative_flux", "0."), ("o.nyquist_scale", "math.pi/o.maxk")]
        if cn == "Moffat":
            prs = [p for p in prs if "kValue" not in p[0]]
        if xv:
            prs += [("o.xValue(px, py)", xv), ("o.xValue(PositionD(px, py))", xv), ("o.xValue(x=px, y=py)", xv), ("o.xValue((px, py))", xv), ("o.xValue(-px, -py)", xv)]
            if cn not in ("DeltaFunction",):
                prs.append(("o.xValue(0., 0.)", "o.max_sb"))
        if kv:
            prs += [("o.kValue(px, py)", kv), ("o.kValue(PositionD(px, py))", kv), ("o.kValue(kx=px, ky=py)", kv), ("o.kValue((px, py))", kv), ("o.kValue(-px, -py)", kv)]
        prs += [("o.withFlux(newflux).flux", "newflux"), ("o.withFlux(newflux).gsparams", "GP"), ("o.withFlux(newflux)", src.replace("flux=flux", "flux=newflux"))]
        prs += extra
        for p in prs:
            out.append(("%s" % cn, pre, p))
            if cn == "Moffat":
                out.append(("Moffat[low beta]", pre, p))
    for src, prs in SIZES:
        for p in prs:
            out.append((src, "import math\no = " + src + "\n", p))
    for p in SPERGEL:
        out.append(("Spergel [Bessel]", PRE + "import galsim\nfrom jax.lax import lgamma\no = Spergel(nu=nu, scale_radius=r0, flux=flux, gsparams=GP)\nz = jnp.sqrt(R2)/r0\nnorm = 2.**nu*jnp.exp(lgamma(1. + nu))\n", p))
    return out


def main():
    I = interp()
    R = Report(
        "P25",
        "xValue/kValue/flux/sizes/max_sb/maxk/stepk of each profile equal the documented closed forms; a profile built from one size parameter reports that size",
        90,
        "Closed forms decided by value numbering and term fingerprints on symbolic parameters and positions.",
    )
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    if "Bessel" in n:
        # Pade coefficients of the half-light radius are given to single precision
        for q in p:
            laws(I, R, n, s, [q], spec=dict(SPEC, pz=("jax", 0, "f"), pfr=("jax", 0, "f")), vals=SPER, tol=1e-5 if "half" in q[0] else 3e-8, exact=80, summ=KV)
        return
    laws(I, R, n, s, p, spec=SPEC, vals=LOWB if "low" in n else VALS, tol=3e-8)
