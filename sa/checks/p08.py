"""P08: random deviates are streams: reproducible, shared, advanced once per value, never reusing a key."""
from ..core import *
from ..eqs import laws, grouped, must_raise

PF = ("pyf", 0, "f")
PI = ("pyi", 0, "i")
SPEC = {n: PF for n in ("pm", "ps", "pp", "pk", "pt", "pn")}
SPEC.update({"pm": ("jax", 0, "f"), "ps": ("jax", 0, "f")})
SPEC.update({"sd": PI, "v6": ("jax", 1, "f", (6,)), "v4": ("jax", 1, "f", (4,)), "arrs": ("jax", 2, "f", (2, 3))})
POS = [0.3 + 0.11 * i for i in range(24)]
VALS = {"ps": POS, "pk": POS, "pt": POS, "pn": POS, "pp": [0.02 + 0.04 * i for i in range(24)], "pm": POS, "pmj": POS, "sd": [3 + 17 * i for i in range(24)], "v6": POS, "v4": POS, "arrs": POS}
DEV = {
    "UniformDeviate": ("UniformDeviate(%s)", ""),
    "GaussianDeviate": ("GaussianDeviate(%s, mean=pm, sigma=ps)", "mean sigma"),
    "BinomialDeviate": ("BinomialDeviate(%s, N=5, p=pp)", "n p"),
    "PoissonDeviate": ("PoissonDeviate(%s, mean=pm)", "mean"),
    "WeibullDeviate": ("WeibullDeviate(%s, a=pk, b=pt)", "a b"),
    "GammaDeviate": ("GammaDeviate(%s, k=pk, theta=pt)", "k theta"),
    "Chi2Deviate": ("Chi2Deviate(%s, n=pn)", "n"),
}
IMP = "import jax\nfrom jax_galsim.random import permute\n"


def obligations():
    out = []

    def A(n, src, *pairs):
        for p in pairs:
            out.append((n, IMP + src, p))

    for c, (mk, _) in DEV.items():
        D = lambda s: mk % s
        s = "d = %s\ne = %s\nc = [e() for i in range(8)]\n" % (D("1234"), D("1234"))
        A(c + " sequence", s + "g = d.generate(jnp.zeros(4))\n", *[("g[%d]" % i, "c[%d]" % i) for i in range(4)])
        A(c + " sequence", s + "g = d.generate(jnp.zeros(4))\n", ("d()", "c[4]"), ("d.raw() == d.raw()", "False"), ("d.has_reliable_discard", "True"), ("d.generates_in_pairs", "False"))
        A(c + " array order", s + "g = d.generate(jnp.zeros((2, 3)))\n", ("g[0, 2]", "c[2]"), ("g[1, 0]", "c[3]"), ("g[1, 2]", "c[5]"), ("g.shape", "(2, 3)"), ("d()", "c[6]"))
        A(c + " add_generate", s + "g = d.add_generate(arrs)\n", ("g[1, 1]", "arrs[1, 1] + c[4]"), ("g[0, 0]", "arrs[0, 0] + c[0]"), ("d()", "c[6]"))
        A(c + " distinct draws", s, *[("c[%d] == c[%d]" % (i, j), "False") for i, j in ((0, 1), (1, 2), (0, 3), (2, 5))] if c not in ("BinomialDeviate", "PoissonDeviate") else [("len(c)", "8")])
        A(c + " discard", s + "d.discard(3)\n", ("d()", "c[3]"))
        A(c + " discard", s + "d.discard(0)\n", ("d()", "c[0]"))
        A(c + " raw advances one", s + "d.raw()\n", ("d()", "c[1]"))
        A(c + " raw", s, ("d.raw()", "BaseDeviate(1234).raw()"))
        A(c + " duplicate", s + "d()\nq = d.duplicate()\n", ("q()", "c[1]"), ("type(q) is type(d)", "True"))
        A(c + " duplicate", s + "q = d.duplicate()\na = [q(), q()]\n", ("d()", "c[0]"), ("a", "[c[0], c[1]]"))
        A(c + " duplicate equal", s + "q = d.duplicate()\nt = q == d\nq()\n", ("t", "True"), ("q == d", "False"))
        A(c + " copy", s + "import copy\nd()\nq = copy.copy(d)\nq()\n", ("d()", "c[1]"))
        A(c + " shared state", s + "r = BaseDeviate(1234)\nu = %s\nv = %s\n" % (D("r"), D("r")), ("[u(), v(), u(), v()]", "c[:4]"), ("[u(), r.discard(1), v()][2]", "c[2]"), ("[r.raw(), u()][1]", "c[1]"), ("[u.generate(jnp.zeros(2)), v()][1]", "c[2]"),
          ("[u.discard(2), v()][1]", "c[2]"), ("[u(), BaseDeviate(v)][1] == r", "True"))
        A(c + " chained shared state", s + "u = %s\nv = %s\nw = %s\n" % (D("1234"), D("u"), D("v")), ("[w(), u(), v(), w()]", "c[:4]"))
        A(c + " seeding", s + "d()\nd.seed(1234)\n", ("d()", "c[0]"))
        A(c + " seeding shared", s + "d()\nv = %s\nd.seed(1234)\n" % D("d"), ("[v(), d()]", "c[:2]"))
        A(c + " seeding float", s + "d()\nd.seed(1234.0)\n", ("d()", "c[0]"))
        A(c + " reset", s + "d()\nd.reset(1234)\n", ("d()", "c[0]"))
        A(c + " reset unlinks", s + "u = %s\nd.reset(77)\nd()\n" % D("d"), ("u()", "c[0]"))
        A(c + " reset links", s + "u = %s\nu.reset(d)\n" % D("99"), ("[u(), d(), u()]", "c[:3]"))
        A(c + " pytree", s + "d()\nch, ax = d.tree_flatten()\nq = type(d).tree_unflatten(ax, ch)\n", ("q()", "c[1]"))
        A(c + " jitted", s + "f = jax.jit(lambda x: [x(), x(), x])\nr = f(d)\n", ("[r[0], r[1]]", "c[:2]"), ("r[2]()", "c[2]"))
        A(c + " serialize", s + "d()\nq = %s\n" % D("d.serialize()"), ("q()", "c[1]"))
        A(c + " symbolic seed", "d = %s\ne = %s\n" % (D("sd"), D("sd")), ("d()", "e()"), ("d.generate(jnp.zeros(3))", "e.generate(jnp.zeros(3))"))
        A(c + " seed types", "import numpy as np\nd = %s\n" % D("7"), ("%s()" % D("np.int64(7)"), "d()"), ("%s()" % D("jnp.array(7)"), "%s()" % D("7")))
        A(c + " equality", "a = %s\nb = %s\n" % (D("5"), D("5")), ("a == b", "True"), ("a == %s" % D("6"), "False"), ("a != b", "False"), ("a == BaseDeviate(5)", "False"))
    A("permute", "r = BaseDeviate(55)\nq = BaseDeviate(55)\nq.discard(1)\na, b = permute(r, v6, 2*v6)\n", ("b", "2*a"), ("r.raw()", "q.raw()"))
    # parameters
    A("Gaussian affine", "z = GaussianDeviate(31)()\n", ("GaussianDeviate(31, mean=pm, sigma=ps)()", "pm + ps*z"), ("GaussianDeviate(31, pm, ps)()", "pm + ps*z"), ("GaussianDeviate(31, sigma=ps)()", "ps*z"), ("GaussianDeviate(31, mean=pm, sigma=ps).generate(jnp.zeros(3))", "pm + ps*GaussianDeviate(31).generate(jnp.zeros(3))"),
      ("(GaussianDeviate(31, pm, ps).mean, GaussianDeviate(31, pm, ps).sigma)", "(pm, ps)"), ("(GaussianDeviate(31).mean, GaussianDeviate(31).sigma)", "(0., 1.)"))
    A("Gaussian variance", "g = GaussianDeviate(31, mean=pm, sigma=ps)\nz = GaussianDeviate(31).generate(jnp.zeros(4))\n", ("g.generate_from_variance(v4)", "jnp.sqrt(v4)*z"))
    A("Gaussian variance", "g = GaussianDeviate(31, mean=pm, sigma=ps)\nh = GaussianDeviate(31, mean=pm, sigma=ps)\nh.discard(4)\ng.generate_from_variance(v4)\n", ("g()", "h()"))
    A("Gaussian variance 2d", "g = GaussianDeviate(31)\nz = GaussianDeviate(31).generate(arrs)\n", ("g.generate_from_variance(arrs)", "jnp.sqrt(arrs)*z"))
    A("Poisson expectation", "g = PoissonDeviate(31, mean=pm)\nx = g.generate_from_expectation(v4)\nh = PoissonDeviate(31, mean=v4[0])\ny = h()\nh3 = PoissonDeviate(31, mean=v4[2])\nh3.discard(2)\n", ("x[0]", "y"), ("x[2]", "h3()"), ("x.shape", "(4,)"), ("[h.discard(3), g()][1]", "PoissonDeviate(h, mean=pm)()"))
    A("Poisson expectation 2d", "g = PoissonDeviate(31)\nx = g.generate_from_expectation(arrs)\nh = PoissonDeviate(31, mean=arrs[1, 1])\nh.discard(4)\n", ("x[1, 1]", "h()"), ("x.shape", "(2, 3)"))
    A("Gamma scale", "", ("GammaDeviate(31, k=pk, theta=pt)()", "pt*GammaDeviate(31, k=pk)()"), ("GammaDeviate(31, pk, pt).generate(jnp.zeros(3))", "pt*GammaDeviate(31, pk).generate(jnp.zeros(3))"), ("(GammaDeviate(31, pk, pt).k, GammaDeviate(31, pk, pt).theta)", "(pk, pt)"))
    A("Weibull scale", "", ("WeibullDeviate(31, a=pk, b=pt)()", "pt*WeibullDeviate(31, a=pk)()"), ("WeibullDeviate(31, pk, pt).generate(jnp.zeros(3))", "pt*WeibullDeviate(31, pk).generate(jnp.zeros(3))"), ("(WeibullDeviate(31, pk, pt).a, WeibullDeviate(31, pk, pt).b)", "(pk, pt)"))
    A("Binomial", "", ("(BinomialDeviate(31, 5, pp).n, BinomialDeviate(31, 5, pp).p)", "(5, pp)"), ("PoissonDeviate(31, pm).mean", "pm"), ("Chi2Deviate(31, pn).n", "pn"), ("BinomialDeviate(31, 3, pp)()*0 == 0", "True"))
    # invalid arguments
    for e in ("GaussianDeviate(1, sigma=-1.)", "PoissonDeviate(1, mean=-2.)", "BaseDeviate(1.5)", "BaseDeviate(1).seed(2.5)", "BaseDeviate([])", "permute(BaseDeviate(1))", "UniformDeviate({})"):
        out.append(("rejects", "", (e,)))
    return out


SCENES = [
    # (name, program): no key may feed two random primitives
    ("%s draws" % c, "r = BaseDeviate(5)\nd = %s\nd()\nd.generate(jnp.zeros(4))\nd.raw()\nd.discard(2)\nd.add_generate(arrs)\nd.seed(9)\nd()\n" % (mk % "r")) for c, (mk, _) in DEV.items()
] + [
    ("linked deviates", "r = BaseDeviate(5)\nu = UniformDeviate(r)\ng = GaussianDeviate(r)\np = PoissonDeviate(u, 3.)\nu(); g(); p(); r.raw(); g.generate(jnp.zeros(3)); u.generate(jnp.zeros(3)); p.generate_from_expectation(v4); g.generate_from_variance(v4)\n"),
    ("permute", "r = BaseDeviate(5)\nu = UniformDeviate(r)\npermute(r, v6)\nu()\npermute(r, v6, v6)\nu()\n"),
] + [
    ("noise %s" % n, "r = BaseDeviate(5)\nim = Image(arrs + 1., scale=1.)\nno = %s\nim.addNoise(no)\nno.applyTo(im)\nUniformDeviate(no.rng)()\n" % n)
    for n in ("GaussianNoise(r, 2.)", "PoissonNoise(r, 3.)", "CCDNoise(r, 3., 2., 1.)", "CCDNoise(r)", "DeviateNoise(UniformDeviate(r))", "VariableGaussianNoise(r, Image(arrs))")
] + [
    ("noise chain", "r = BaseDeviate(5)\nim = Image(arrs + 1., scale=1.)\nim.addNoise(GaussianNoise(r, 2.))\nim.addNoise(PoissonNoise(r, 3.))\nim.addNoise(GaussianNoise(r, 3.).withVariance(2.))\nim.addNoiseSNR(GaussianNoise(r, 3.), 10., preserve_flux=True)\nim.addNoiseSNR(GaussianNoise(r, 3.), 10.)\n"),
] + [
    ("shoot %s" % n, "r = BaseDeviate(5)\no = %s\np = o.shoot(4, r)\nUniformDeviate(r)()\nq = o.shoot(4, r)\n" % e)
    for n, e in (("Gaussian", "Gaussian(sigma=1.3)"), ("Exponential", "Exponential(scale_radius=1.3)"), ("Moffat", "Moffat(beta=2.5, scale_radius=1.3)"), ("Box", "Box(1., 2.)"), ("Pixel", "Pixel(1.)"), ("DeltaFunction", "DeltaFunction(2.)"),
                 ("Sum", "Gaussian(sigma=1.3) + Exponential(scale_radius=1.)"), ("Convolution", "Convolve(Gaussian(sigma=1.3), Exponential(scale_radius=1.))"), ("triple Convolution", "Convolve([Gaussian(sigma=1.3), Exponential(scale_radius=1.), Box(1., 1.)])"), ("AutoConvolution", "AutoConvolve(Gaussian(sigma=1.3))"),
                 ("Transformation", "Gaussian(sigma=1.3).shear(g1=0.1, g2=0.2).shift(1., 2.)*3."), ("Spergel", "Spergel(nu=0.5, scale_radius=1.)"), ("InterpolatedImage", "InterpolatedImage(Image(arrs + 1., scale=1.))"))
] + [
    ("photon convolve", "r = BaseDeviate(5)\np = Gaussian(sigma=1.).shoot(4, r)\nq = Exponential(scale_radius=1.).shoot(4, r)\np.convolve(q, r)\nGaussian(sigma=0.5).applyTo(p, rng=r)\nUniformDeviate(r)()\n"),
    ("photons from image", "r = BaseDeviate(5)\np = PhotonArray.makeFromImage(Image(arrs + 1., scale=1.), rng=r)\nUniformDeviate(r)()\n"),
    ("drawPhot", "r = BaseDeviate(5)\nim = Image(4, 4, scale=1.)\nGaussian(sigma=1.).drawImage(im, method='phot', n_photons=6, rng=r)\nUniformDeviate(r)()\nGaussian(sigma=1.).drawImage(im, method='phot', n_photons=6, rng=r)\n"),
]


def scene(I, R, name, src):
    def h(I):
        env = zoo.AtomEnv(I, False, spec=SPEC)
        zoo.exec_in(I, IMP + src, env)
        seen = {}
        bad = []
        for key, prim, loc, st, rest in I.key_uses:
            if prim in ("key_data", "clone"):
                continue
            k = I.key(key)
            if k in seen and not (prim == seen[k][0] == "permutation" and seen[k][1] == loc):
                bad.append((seen[k], (prim, loc)))
            seen.setdefault(k, (prim, loc))
        return len(seen), bad

    return h


def main():
    I = interp()
    R = Report("P08", "deviates are reproducible streams advanced once per value, deviates built from one another share their state, duplicates do not, and no random key is used by two draws",
               300, "Streams are compared by value numbering and fingerprints with keys as free constructors; key use is an effect analysis over every path of drawing, noise and shooting programs.")
    parallel(R, grouped(obligations()) + [("SCENE", n, s) for n, s in SCENES], one)
    return R.finish(I)


def one(I, R, n, s, p):
    if n == "SCENE":
        key_scene(I, R, s, p)
    elif n == "rejects":
        for q in p:
            must_raise(I, R, "rejects " + q[0], IMP + q[0] + "\n", spec=SPEC)
    else:
        laws(I, R, n, s, p, traced=False, spec=SPEC, vals=VALS)


def key_scene(I, R, name, src):
    ob = "keys used once: " + name
    n = 0
    for r in run(I, scene(I, R, name, src), 24):
        if not r.ok:
            R.undec(ob, r.res)
            return
        n += 1
        cnt, bad = r.res
        for a, b in bad:
            R.violate("keyreuse", "%s|%s|%s" % (name, "%s@%s" % a, "%s@%s" % b), "the key consumed by %s at %s is consumed again by %s at %s" % (a + b), b[1])
        if bad:
            return
    R.hold(ob)
