"""P31: noise models add what their parameters say, and their variance algebra agrees with it."""
from ..core import *
from ..eqs import laws, grouped, must_raise

PF = ("pyf", 0, "f")
SPEC = {n: PF for n in ("pm", "ps", "pg", "pr", "pv", "psky", "pq", "psnr", "pu")}
SPEC.update({"a": ("jax", 2, "f", (2, 3)), "vv": ("jax", 2, "f", (2, 3)), "ai": ("jax", 2, "i", (2, 3)), "x0": ("pyi", 0, "i"), "y0": ("pyi", 0, "i")})
POS = [0.3 + 0.11 * i for i in range(24)]
VALS = {n: POS for n in ("ps", "pv", "psnr")}
VALS["vv"] = lambda k, ix: 0.2 + 0.13 * k + 0.31 * sum((j + 1) * x for j, x in enumerate(ix))
VALS.update({"pg": [1.7, 0.4, -0.3, 2.2, 0.0, 1.1] * 4, "pr": [2.3, 0.0, 1.2, 0.7, 3.1, 0.0, 1.4, 2.2] * 3, "psky": [2.0, 0.0, 3.7, 11.3, 0.4, 5.0, 1.9, 8.8, 30.25, 0.0, 7.1, 2.6] * 2, "pq": [0.4 + 0.17 * i for i in range(24)], "pu": [1.7, 0.4, 0.9, 2.2, 3.3, 1.1] * 4})

# constructor, variance (None: none), reference of one application to the float array `z` (deviates of seed 31)
NO = {
    "GaussianNoise": ("GaussianNoise(%s, ps)", "ps**2", "z + GaussianDeviate(31, sigma=ps).generate(z)"),
    "PoissonNoise": ("PoissonNoise(%s, psky)", "psky", "PoissonDeviate(31).generate_from_expectation(jnp.clip(z + psky, 0.)) - psky"),
    "CCDNoise": ("CCDNoise(%s, psky, pg, pr)", "jnp.where(pg > 0., psky/jnp.where(pg > 0., pg, 1.) + (pr/jnp.where(pg > 0., pg, 1.))**2, pr**2)", "ccd(BaseDeviate(31), z, psky, pg, pr)"),
    "DeviateNoise": ("DeviateNoise(GammaDeviate(%s, 2., ps))", None, "z + GammaDeviate(31, 2., ps).generate(z)"),
    "VariableGaussianNoise": ("VariableGaussianNoise(%s, Image(vv))", None, "z + jnp.sqrt(vv)*GaussianDeviate(31).generate(z)"),
}
REF = """import jax
def ccd(r, z, sky, gain, rn):
    z = z + sky
    if gain > 0.:
        z = PoissonDeviate(r).generate_from_expectation(jnp.clip(z*gain, 0.))/gain
        rn = rn/gain
    if rn > 0.:
        z = z + GaussianDeviate(r, sigma=rn).generate(z)
    return z - sky
"""
IM = "z = a\nim = Image(a, xmin=x0, ymin=y0, scale=ps)\n"


def obligations():
    out = []

    def A(n, src, *pairs):
        for p in pairs:
            out.append((n, REF + src, p))

    for c, (mk, var, ref) in NO.items():
        N = lambda s: mk % s
        s = IM + "n = %s\n" % N("BaseDeviate(31)")
        A(c + " applyTo", s + "n.applyTo(im)\n", ("im.array", ref), ("im.bounds", "BoundsI(x0, x0+2, y0, y0+1)"), ("im.scale", "ps"), ("im.dtype", "jnp.float64"))
        A(c + " addNoise", s + "im.addNoise(n)\n", ("im.array", ref), ("im.bounds", "BoundsI(x0, x0+2, y0, y0+1)"))
        A(c + " keeps the caller's array", s + "keep = a + 0.\nim.addNoise(n)\n", ("a", "keep"))
        A(c + " jitted", s + "def f(i, n):\n    i.addNoise(n)\n    return i, n\nq, n2 = jax.jit(f)(im, n)\n", ("q.array", ref), ("q.bounds", "im.bounds"))
        A(c + " jitted stream", s + "def f(i, n):\n    i.addNoise(n)\n    return i, n\nq, n2 = jax.jit(f)(im, n)\nk = Image(a)\nm = %s\nm.applyTo(k)\n" % N("BaseDeviate(31)"), ("n2.rng.raw()", "m.rng.raw()"))
        # integer images are rounded towards zero with the sky still in them (documented)
        if c in ("GaussianNoise", "DeviateNoise", "VariableGaussianNoise"):
            A(c + " integer image", "im = Image(ai)\nz = jnp.zeros((2, 3))\nn = %s\nim.addNoise(n)\n" % N("BaseDeviate(31)"), ("im.array", "ai + jnp.astype(%s, jnp.int32)" % ref), ("im.dtype", "ImageI(1, 1).dtype"))
        else:
            r2 = ref.replace(" - psky", "").replace("ccd(BaseDeviate(31), z, psky, pg, pr)", "ccd(BaseDeviate(31), z, psky, pg, pr) + psky")
            A(c + " integer image", "im = Image(ai)\nz = ai*1.\nfr = psky - int(psky)\nn = %s\nim.addNoise(n)\n" % N("BaseDeviate(31)"), ("im.array", "jnp.astype(%s - fr, jnp.int32) - int(psky)" % r2), ("im.dtype", "ImageI(1, 1).dtype"))
        A(c + " float32 image", "im = ImageF(a)\nn = %s\nim.addNoise(n)\n" % N("BaseDeviate(31)"), ("im.dtype", "ImageF(1, 1).dtype"))
        # sharing of the random state
        A(c + " shares its rng", IM + "r = BaseDeviate(31)\nn = %s\nu = UniformDeviate(r)\nim.addNoise(n)\nm = %s\nk = Image(a)\nm.applyTo(k)\n" % (N("r"), N("BaseDeviate(31)")), ("u()", "UniformDeviate(m.rng)()"))
        A(c + " advances", s + "im.addNoise(n)\nk = im.copy()\nj = Image(a)\nj.addNoise(n)\n", ("jnp.array_equal(j.array, k.array)", "False"))
        A(c + " rng", "r = BaseDeviate(31)\nn = %s\n" % N("r"), ("n.rng.raw()", "BaseDeviate(31).raw()"), ("isinstance(n.rng, BaseDeviate)", "True"))
        A(c + " after draws", IM + "r = BaseDeviate(31)\nn = %s\nr.discard(3)\nim.addNoise(n)\nq = BaseDeviate(31)\nq.discard(3)\nk = Image(a)\nk.addNoise(%s)\n" % (N("r"), N("q")), ("im.array", "k.array"))
        # copies and pytrees
        A(c + " copy", s + "m = n.copy()\nm.applyTo(im)\n", ("im.array", ref), ("type(m) is type(n)", "True"))
        A(c + " copy rng", IM + "n = %s\nm = n.copy(rng=BaseDeviate(31))\nm.applyTo(im)\n" % N("BaseDeviate(77)"), ("im.array", ref), ("n.rng.raw()", "BaseDeviate(77).raw()"))
        A(c + " pytree", s + "ch, ax = n.tree_flatten()\nm = type(n).tree_unflatten(ax, ch)\nm.applyTo(im)\n", ("im.array", ref))
        A(c + " equality", "n = %s\n" % N("BaseDeviate(31)"), ("n == %s" % N("BaseDeviate(31)"), "True"), ("n == %s" % N("BaseDeviate(31)").replace("vv", "2*vv").replace("ps)", "ps + 1.)").replace("psky", "psky + 1."), "False"), ("n != %s" % N("BaseDeviate(31)"), "False"))
        if var:
            A(c + " variance", "n = %s\n" % N("BaseDeviate(31)"), ("n.getVariance()", var), ("n.withScaledVariance(pq).getVariance()", "pq*(%s)" % var),
              ("(n*pq).getVariance()", "pq*(%s)" % var), ("(pq*n).getVariance()", "pq*(%s)" % var), ("(n/pq).getVariance()", "(%s)/pq" % var), ("n.withVariance(pv).getVariance()", "pv"), ("n.copy().getVariance()", var),
              ("n.withVariance(pv).getVariance()", "pv"), ("type(n.withVariance(pv)) is type(n)", "True"), ("type(n*pq) is type(n)", "True"))
            A(c + " original variance", "n = %s\nm = n*pq\nk = n.withVariance(pv)\n" % N("BaseDeviate(31)"), ("n.getVariance()", var))
            for e in ("n.withVariance(pv)", "(n*pq)", "n.copy()"):
                A(c + " %s shares" % e, "n = %s\nm = %s\nm.rng.raw()\n" % (N("BaseDeviate(31)"), e), ("n.rng.raw()", "[q.raw() for i in range(2)][1]") if False else ("n.rng.raw() == BaseDeviate(31).raw()", "False"))
            def B(n, src, *pairs):
                # divisions by the variance: sky level and gain are positive
                f = lambda t: t.replace("psky", "(psky + 1.)").replace("pg", "pu")
                A(n, f(src), *[tuple(f(t) for t in p) for p in pairs])

            B(c + " addNoiseSNR", s + "v = im.addNoiseSNR(n, psnr)\nz = a*(psnr/jnp.sqrt(jnp.sum(a**2)/(%s)))\n" % var, ("v", var), ("im.array", ref))
            B(c + " addNoiseSNR flux", s + "v = im.addNoiseSNR(n, psnr, preserve_flux=True)\nk = Image(a)\nk.addNoise(%s.withVariance(jnp.sum(a**2)/psnr**2))\n" % N("BaseDeviate(31)"), ("v", "jnp.sum(a**2)/psnr**2"), ("im.array", "k.array"), ("n.getVariance()", var))
        else:
            for e in ("n.getVariance()", "n.withVariance(pv)", "n.withScaledVariance(pv)", "n*pv"):
                out.append(("rejects", "n = %s\n" % N("BaseDeviate(31)"), (e,)))
        for e in ("n.applyTo(a)", "n.applyTo(Image(a, make_const=True))", "Image(a, make_const=True).addNoise(n)"):
            out.append(("rejects", "n = %s\n" % N("BaseDeviate(31)"), (e,)))
    # parameters and the noise of a changed variance
    A("GaussianNoise parameters", "", ("GaussianNoise(BaseDeviate(1), pv).sigma", "pv"), ("GaussianNoise(BaseDeviate(1), sigma=pv).sigma", "pv"), ("GaussianNoise(BaseDeviate(1)).sigma", "1."), ("GaussianNoise(BaseDeviate(1), ps).withVariance(pv).sigma", "jnp.sqrt(pv)"), ("(GaussianNoise(BaseDeviate(1), ps)*pv).sigma", "ps*jnp.sqrt(pv)"))
    A("PoissonNoise parameters", "", ("PoissonNoise(BaseDeviate(1), psky).sky_level", "psky"), ("PoissonNoise(BaseDeviate(1)).sky_level", "0."), ("PoissonNoise(BaseDeviate(1), psky).withVariance(pv).sky_level", "pv"))
    A("CCDNoise parameters", "n = CCDNoise(BaseDeviate(1), psky, pg, pr)\nk = CCDNoise(BaseDeviate(1), gain=pg, read_noise=pr, sky_level=psky)\nm = n*pv\nc = n.copy()\n", ("(n.sky_level, n.gain, n.read_noise)", "(psky, pg, pr)"), ("(k.sky_level, k.gain, k.read_noise)", "(psky, pg, pr)"), ("(m.sky_level, m.gain, m.read_noise)", "(pv*psky, pg, jnp.sqrt(pv)*pr)"), ("(c.sky_level, c.gain, c.read_noise)", "(psky, pg, pr)"))
    A("CCDNoise defaults", "n = CCDNoise(BaseDeviate(1))\n", ("(n.sky_level, n.gain, n.read_noise)", "(0., 1., 0.)"), ("n.getVariance()", "0."), ("n.withVariance(pv).getVariance()", "pv"), ("n.withVariance(pv).sky_level", "pv"), ("n.withVariance(pv).gain", "1."))
    A("CCDNoise scaled", "n = CCDNoise(BaseDeviate(1), psky + 1., pu, pr)\nm = n.withVariance(pv)\nq = pv/((psky + 1.)/pu + (pr/pu)**2)\n", ("(m.sky_level, m.gain, m.read_noise)", "(q*(psky + 1.), pu, jnp.sqrt(q)*pr)"))
    A("VariableGaussianNoise parameters", "n = VariableGaussianNoise(BaseDeviate(1), Image(vv))\n", ("n.var_image.array", "vv"), ("n.copy().var_image.array", "vv"))
    # CCD noise without gain or read noise is its simpler counterpart
    A("CCD without read noise", IM + "im.addNoise(CCDNoise(BaseDeviate(31), psky, pu))\n", ("im.array*pu", "PoissonDeviate(31).generate_from_expectation(jnp.clip((a + psky)*pu, 0.)) - pu*psky"))
    A("CCD without gain", IM + "im.addNoise(CCDNoise(BaseDeviate(31), psky, 0., ps))\n", ("im.array", "a + ps*GaussianDeviate(31).generate(a)"))
    A("CCD electrons", IM + "im.addNoise(CCDNoise(BaseDeviate(31), psky, 1., 0.))\nk = Image(a)\nk.addNoise(PoissonNoise(BaseDeviate(31), psky))\n", ("im.array", "k.array"))
    for e in ("VariableGaussianNoise(BaseDeviate(1), Image(vv)).applyTo(Image(4, 4))", "VariableGaussianNoise(BaseDeviate(1), Image(vv)).applyTo(Image(2, 3))", "CCDNoise(5)", "BaseNoise(3)", "BaseNoise(BaseDeviate(1)).getVariance()", "BaseNoise(BaseDeviate(1))*2."):
        out.append(("rejects", "from jax_galsim.noise import BaseNoise\n", (e,)))
    return out


def main():
    I = interp()
    R = Report("P31", "noise models add Poisson and Gaussian noise of the parameters they hold, to every pixel once, from the shared random state, and getVariance, withVariance, scaling and addNoiseSNR follow the documented algebra",
               150, "Images after applyTo are compared with reference formulas by value numbering and fingerprints, random draws being free functions of key and parameters.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    if n == "rejects":
        for q in p:
            must_raise(I, R, "rejects " + s.split("\n")[0][:60] + q[0], REF + s + q[0] + "\n", spec=SPEC)
    else:
        laws(I, R, n, s, p, traced=False, spec=SPEC, vals=VALS, prune=True)
