"""P17: photon arrays: bookkeeping of positions and fluxes, binning, and shooting of profiles."""
from ..core import *
from ..eqs import laws, grouped, must_raise

PF = ("pyf", 0, "f")
SPEC = {n: PF for n in ("ps", "pf", "pg1", "pg2", "pdx", "pdy", "pw", "ph", "pr", "psc", "pb", "pi0", "pn")}
V4 = ("x4", "y4", "f4", "u4", "v4", "w4", "t4", "g4", "h4", "p4")
V3 = ("x3", "y3", "f3", "u3", "v3", "w3", "t3", "g3", "h3", "p3")
SPEC.update({n: ("jax", 1, "f", (4,)) for n in V4})
SPEC.update({n: ("jax", 1, "f", (3,)) for n in V3})
SPEC.update({"a": ("jax", 2, "f", (3, 4)), "ai": ("jax", 2, "i", (3, 4)), "x0": ("pyi", 0, "i"), "y0": ("pyi", 0, "i"), "c4": ("jax", 1, "i", (4,))})
POS = [0.3 + 0.11 * i for i in range(24)]
VALS = {n: POS for n in ("ps", "pw", "ph", "pr", "psc")}
VALS.update({"pg1": [-0.5 + 0.04 * i for i in range(24)], "pg2": [0.4 - 0.03 * i for i in range(24)], "pb": [1.3 + 0.2 * i for i in range(24)], "pn": [-0.6 + 0.19 * i for i in range(24)]})
VALS["a"] = lambda k, ix: round(0.3 + ((k * 7 + 3 * (ix[0] if ix else 0) + 5 * (ix[1] if len(ix) > 1 else 0)) % 17) * 0.21 - 1.1, 6)
VALS["c4"] = lambda k, ix: (k * 3 + 2 * (ix[0] if ix else 0)) % 3
for n, s in (("bx", 1.0), ("by", -1.7)):
    SPEC[n] = ("jax", 1, "f", (4,))
    # photon positions around a 4x3 image at (x0, y0): inside, outside, near edges
    VALS[n] = (lambda s: lambda k, ix: -0.9 + ((k * 5 + 7 * (ix[0] if ix else 0) + (3 if s > 0 else 0)) % 23) * 0.253)(s)
POSN = {"x4": "x", "y4": "y"}
FULL4 = "dxdz=g4, dydz=h4, wavelength=w4, pupil_u=u4, pupil_v=v4, time=t4"
FULL3 = "dxdz=g3, dydz=h3, wavelength=w3, pupil_u=u3, pupil_v=v3, time=t3"
OTHER = ("dxdz", "dydz", "wavelength", "pupil_u", "pupil_v", "time")
O4 = dict(zip(OTHER, ("g4", "h4", "w4", "u4", "v4", "t4")))
O3 = dict(zip(OTHER, ("g3", "h3", "w3", "u3", "v3", "t3")))
PA = "import math, jax\nfrom jax_galsim.photon_array import PhotonArray, fixed_photon_array_size\np = PhotonArray(4, x=x4, y=y4, flux=f4, %s)\n" % FULL4
BARE = "import math, jax\nfrom jax_galsim.photon_array import PhotonArray, fixed_photon_array_size\np = PhotonArray(4, x=x4, y=y4, flux=f4)\n"
ALL = ("x", "y", "flux") + OTHER
SHOOT = "import math\nfrom jax_galsim.photon_array import PhotonArray, fixed_photon_array_size\nr = BaseDeviate(31)\nN = 4\n"
Z = "jnp.zeros(4)"


def obligations():
    out = []

    def A(n, src, *pairs):
        for p in pairs:
            out.append((n, src, p))

    src4 = dict(O4, x="x4", y="y4", flux="f4")
    src3 = dict(O3, x="x3", y="y3", flux="f3")
    q3 = "q = PhotonArray(3, x=x3, y=y3, flux=f3, %s)\n" % FULL3
    # construction
    A("constructor", PA, *[("p.%s" % a, src4[a]) for a in ALL], ("p.size()", "4"), ("len(p)", "4"), ("p._num_keep", "4"))
    A("defaults", BARE + "z = PhotonArray(4)\n", ("z.x", Z), ("z.y", Z), ("z.flux", Z), ("p.hasAllocatedAngles()", "False"), ("p.hasAllocatedWavelengths()", "False"), ("p.hasAllocatedPupil()", "False"), ("p.hasAllocatedTimes()", "False"))
    A("allocated", PA, ("p.hasAllocatedAngles()", "True"), ("p.hasAllocatedWavelengths()", "True"), ("p.hasAllocatedPupil()", "True"), ("p.hasAllocatedTimes()", "True"))
    A("fromArrays", BARE + "p = PhotonArray.fromArrays(x4, y4, f4, %s)\n" % FULL4, *[("p.%s" % a, src4[a]) for a in ALL], ("p.size()", "4"))
    A("fromArrays positional", BARE + "p = PhotonArray.fromArrays(x4, y4, f4, g4, h4, w4, u4, v4, t4)\n", *[("p.%s" % a, src4[a]) for a in ALL])
    A("constructor positional", BARE + "p = PhotonArray(4, x4, y4, f4, g4, h4, w4, u4, v4, t4)\n", *[("p.%s" % a, src4[a]) for a in ALL])
    A("pytree", PA + "ch, ax = p.tree_flatten()\nq = PhotonArray.tree_unflatten(ax, ch)\n", *[("q.%s" % a, src4[a]) for a in ALL], ("q == p", "True"), ("q.size()", "4"))
    for a in ALL:
        A("set " + a, BARE + "p.%s = u4\n" % a, ("p.%s" % a, "u4"), *[("p.%s" % b, src4[b]) for b in ("x", "y", "flux") if b != a])
        A("set scalar " + a, BARE + "p.%s = pf\n" % a, ("p.%s" % a, "pf*jnp.ones(4)"))
        A("set keeps others " + a, PA + "p.%s = p4\n" % a, *[("p.%s" % b, src4[b]) for b in ALL if b != a])
    for a, b in (("dxdz", "dydz"), ("dydz", "dxdz"), ("pupil_u", "pupil_v"), ("pupil_v", "pupil_u")):
        A("partner of " + a, BARE + "p.%s = u4\n" % a, ("p.%s" % b, Z), ("p.hasAllocatedAngles()", str(a[0] == "d")), ("p.hasAllocatedPupil()", str(a[0] == "p")))
    A("constructor copies", BARE + "z = x4 + 0.\nz2 = z + 0.\nq = PhotonArray(4, x=z, y=y4, flux=f4)\nq.scaleXY(ps)\nq.x += 1.\n", ("z", "z2"), ("q.x", "ps*x4 + 1."))
    # flux and position bookkeeping
    A("getTotalFlux", BARE, ("p.getTotalFlux()", "f4[0] + f4[1] + f4[2] + f4[3]"))
    A("setTotalFlux", BARE + "p.setTotalFlux(pf)\n", ("p.getTotalFlux()", "pf"), ("p.flux*jnp.sum(f4)", "f4*pf"), ("p.x", "x4"), ("p.y", "y4"))
    A("scaleFlux", PA + "p.scaleFlux(pf)\n", ("p.flux", "f4*pf"), *[("p.%s" % a, src4[a]) for a in ALL if a != "flux"])
    A("scaleXY", PA + "p.scaleXY(ps)\n", ("p.x", "x4*ps"), ("p.y", "y4*ps"), *[("p.%s" % a, src4[a]) for a in ALL if a not in "xy"])
    A("inplace", BARE + "p.x += pdx\np.y -= pdy\np.flux *= pf\n", ("p.x", "x4 + pdx"), ("p.y", "y4 - pdy"), ("p.flux", "f4*pf"))
    A("equality", PA + "q = PhotonArray(4, x=x4, y=y4, flux=f4, %s)\n" % FULL4, ("p == q", "True"), ("p != q", "False"), ("p == 3", "False"))
    for a in ALL:
        A("equality " + a, PA + "q = PhotonArray(4, x=x4, y=y4, flux=f4, %s)\nq.%s = q.%s + 1.\n" % (FULL4, a, a), ("p == q", "False"))
    # copying between arrays
    t7 = "t = PhotonArray(7)\nt.assignAt(0, p)\nt.assignAt(4, q)\n"
    A("assignAt", PA + q3 + t7, *[("t.%s[%d]" % (a, i), "%s[%d]" % (src4[a], i) if i < 4 else "%s[%d]" % (src3[a], i - 4)) for a in ALL for i in (0, 3, 4, 6)])
    A("assignAt source", PA + q3 + t7, *[("q.%s" % a, src3[a]) for a in ALL])
    A("copyFrom slice", PA + q3 + "p.copyFrom(q, slice(1, 3), slice(0, 2))\n", *[("p.%s[%d]" % (a, i), "%s[%d]" % ((src3[a], i - 1) if i in (1, 2) else (src4[a], i))) for a in ALL for i in range(4)])
    A("copyFrom indices", PA + q3 + "p.copyFrom(q, jnp.array([3, 0]), jnp.array([2, 1]))\n", *[("p.%s[%d]" % (a, i), "%s[%d]" % {3: (src3[a], 2), 0: (src3[a], 1)}.get(i, (src4[a], i))) for a in ALL for i in range(4)])
    A("copyFrom int", PA + q3 + "p.copyFrom(q, 2, 1)\n", *[("p.%s[%d]" % (a, i), "%s[%d]" % {2: (src3[a], 1)}.get(i, (src4[a], i))) for a in ALL for i in range(4)])
    A("copyFrom negative int", PA + q3 + "p.copyFrom(q, -1, -3)\n", *[("p.%s[%d]" % (a, i), "%s[%d]" % {3: (src3[a], 0)}.get(i, (src4[a], i))) for a in ("x", "flux", "time") for i in range(4)])
    for kw, keep in (("do_xy=False", "x y"), ("do_flux=False", "flux"), ("do_other=False", " ".join(OTHER))):
        A("copyFrom " + kw, PA + q3 + "p.copyFrom(q, slice(0, 3), %s)\n" % kw, *[("p.%s[%d]" % (a, i), "%s[%d]" % (src4[a] if a in keep.split() or i == 3 else src3[a], i)) for a in ALL for i in (0, 2, 3)])
    A("copyFrom partly allocated", PA + "q = PhotonArray(3, x=x3, y=y3, flux=f3, time=t3)\np.copyFrom(q, slice(0, 3))\n", ("p.dxdz", "g4"), ("p.dydz", "h4"), ("p.wavelength", "w4"), ("p.pupil_u", "u4"), ("p.pupil_v", "v4"), ("p.time[1]", "t3[1]"), ("p.x[1]", "x3[1]"))
    # convolution adds offsets, multiplies fluxes
    q4 = "q = PhotonArray(4, x=u4, y=v4, flux=p4)\n"
    A("convolve", BARE + q4 + "p.convolve(q, BaseDeviate(5))\n", ("p.x", "x4 + u4"), ("p.y", "y4 + v4"), ("p.flux", "4*f4*p4"), ("q.x", "u4"), ("q.y", "v4"), ("q.flux", "p4"))
    A("convolve attributes", PA + q4 + "p.convolve(q, BaseDeviate(5))\n", *[("p.%s" % a, O4[a]) for a in OTHER])
    A("convolve gains attributes", BARE + "q = PhotonArray(4, x=u4, y=v4, flux=p4, dxdz=g4, dydz=h4, wavelength=w4, pupil_u=x4, pupil_v=y4, time=t4)\np.convolve(q, BaseDeviate(5))\n", ("p.dxdz", "g4"), ("p.dydz", "h4"), ("p.wavelength", "w4"), ("p.pupil_u", "x4"), ("p.pupil_v", "y4"), ("p.time", "t4"))
    A("convolve prefers own attributes", PA + "q = PhotonArray(4, x=u4, y=v4, flux=p4, dxdz=x4, dydz=x4, wavelength=x4, pupil_u=x4, pupil_v=x4, time=x4)\np.convolve(q, BaseDeviate(5))\n", *[("p.%s" % a, O4[a]) for a in OTHER])
    cor = "p._is_corr = jnp.array(%s)\nq._is_corr = jnp.array(%s)\n"
    A("convolve correlated", BARE + q4 + cor % (True, True) + "p.convolve(q, BaseDeviate(5))\n", ("jnp.sum(p.x)", "jnp.sum(x4) + jnp.sum(u4)"), ("jnp.sum(p.y)", "jnp.sum(y4) + jnp.sum(v4)"), ("jnp.sum((p.x - x4)**2)", "jnp.sum(u4**2)"),
      ("jnp.sum((p.x - x4)*(p.y - y4))", "jnp.sum(u4*v4)"), ("jnp.sum(p.flux/f4*(p.x - x4))", "4*jnp.sum(u4*p4)"), ("p._is_corr", "True"), ("q.x", "u4"), ("q.flux", "p4"))
    for b in (True, False):
        A("convolve half correlated %s" % b, BARE + q4 + cor % (b, not b) + "p.convolve(q, BaseDeviate(5))\n", ("p.x", "x4 + u4"), ("p.y", "y4 + v4"), ("p.flux", "4*f4*p4"), ("p._is_corr", "True"))
    A("convolve total flux", BARE + "q = PhotonArray(4, x=u4, y=v4, flux=pf/4)\np.convolve(q, BaseDeviate(5))\n", ("p.getTotalFlux()", "pf*jnp.sum(f4)"))
    A("categorical assignment", PA + "q = PhotonArray(4, x=u4, y=v4, flux=p4, dxdz=x4, dydz=y4, wavelength=f4, pupil_u=g4, pupil_v=h4, time=w4)\np._assign_from_categorical_index(c4, 1, q)\n",
      *[("p.%s" % a, "jnp.where(c4 == 1, %s, %s)" % (s, src4[a])) for a, s in zip(ALL, ("u4", "v4", "p4", "x4", "y4", "f4", "g4", "h4", "w4"))])
    # binning
    IMG = "p = PhotonArray(4, x=bx + x0, y=by + y0, flux=f4)\nim = %s\n"
    pix = "im.array[%d, %d]"
    hit = " + ".join("jnp.where((jnp.floor(bx[%d] + 0.5) == %%d) & (jnp.floor(by[%d] + 0.5) == %%d), f4[%d], 0.)" % (k, k, k) for k in range(4))
    tot = " + ".join("jnp.where((bx[%d] >= -0.5) & (bx[%d] < 3.5) & (by[%d] >= -0.5) & (by[%d] < 2.5), f4[%d], 0.)" % (k, k, k, k, k) for k in range(4))
    for nm, fn in (("addTo", "p.addTo(im)"), ("accumulate", "Sensor().accumulate(p, im)")):
        s = BARE + "from jax_galsim import Sensor\n" + IMG % "Image(a, xmin=x0, ymin=y0)" + "s = %s\n" % fn
        A(nm, s, *[(pix % (y, x), "a[%d, %d] + %s" % (y, x, hit % ((x, y) * 4))) for y in range(3) for x in range(4)])
        A(nm + " returns", s, ("s", tot), ("im.bounds", "BoundsI(x0, x0+3, y0, y0+2)"), ("p.flux", "f4"), ("p.x", "bx + x0"))
    A("addTo total", BARE + IMG % "Image(a, xmin=x0, ymin=y0)" + "s = p.addTo(im)\n", ("jnp.sum(im.array) - jnp.sum(a)", "s"))
    A("addTo float32", BARE + IMG % "ImageF(a, xmin=x0, ymin=y0)" + "p.addTo(im)\n", ("im.dtype", "ImageF(1, 1).dtype"))
    A("addTo int", BARE + IMG % "ImageI(ai, xmin=x0, ymin=y0)" + "s = p.addTo(im)\n", ("im.dtype", "ImageI(1, 1).dtype"), *[(pix % (y, x), "jnp.around(ai[%d, %d] + %s)" % (y, x, hit % ((x, y) * 4))) for y in (0, 2) for x in (0, 1, 3)])
    A("calculate_pixel_areas", "from jax_galsim import Sensor\n", ("Sensor().calculate_pixel_areas(Image(4, 4))", "1."), ("Sensor() == Sensor()", "True"))
    # fixed size arrays: photons that are not kept carry no flux, totals are of the requested photons
    FX = BARE + "with fixed_photon_array_size(4):\n    q = PhotonArray(3, x=x4, y=y4, flux=f4)\n"
    A("fixed size", FX, ("q.size()", "4"), ("q._num_keep", "3"), ("q.flux", "jnp.where(jnp.arange(4) < 3, f4, 0.)"), ("q.getTotalFlux()", "f4[0] + f4[1] + f4[2]"), ("q.x", "x4"))
    A("fixed size restored", FX + "z = PhotonArray(3)\n", ("z.size()", "3"))
    A("fixed size scale", FX + "q.scaleFlux(pf)\nq.scaleXY(ps)\n", ("q.flux", "jnp.where(jnp.arange(4) < 3, f4*pf, 0.)"), ("q.y", "y4*ps"))
    A("fixed size setTotalFlux", FX + "q.setTotalFlux(pf)\n", ("q.getTotalFlux()", "pf"))
    A("fixed size pytree", FX + "ch, ax = q.tree_flatten()\nz = PhotonArray.tree_unflatten(ax, ch)\n", ("z.flux", "q.flux"), ("z._num_keep", "3"), ("z == q", "True"))
    A("fixed size convolve", BARE + "with fixed_photon_array_size(4):\n    q = PhotonArray(3, x=x4, y=y4, flux=f4)\n    t = PhotonArray(3, x=u4, y=v4, flux=p4)\nq.convolve(t, BaseDeviate(5))\n", ("q.flux", "jnp.where(jnp.arange(4) < 3, 3*f4*p4, 0.)"), ("q.x[:3]", "(x4 + u4)[:3]"), ("q.y[:3]", "(y4 + v4)[:3]"), ("q._num_keep", "3"), ("t.flux", "jnp.where(jnp.arange(4) < 3, p4, 0.)"), ("t.x", "u4"))
    hit3 = " + ".join("jnp.where((jnp.floor(bx[%d] + 0.5) == %%d) & (jnp.floor(by[%d] + 0.5) == %%d), f4[%d], 0.)" % (k, k, k) for k in range(3))
    A("fixed size addTo", BARE + "with fixed_photon_array_size(4):\n    p = PhotonArray(3, x=bx + x0, y=by + y0, flux=f4)\nim = Image(a, xmin=x0, ymin=y0)\np.addTo(im)\n", *[(pix % (y, x), "a[%d, %d] + %s" % (y, x, hit3 % ((x, y) * 3))) for y in (0, 2) for x in (0, 2, 3)])
    A("fixed size copyFrom", BARE + "with fixed_photon_array_size(4):\n    q = PhotonArray(3, x=x4, y=y4, flux=f4)\np = PhotonArray(4, x=u4, y=v4, flux=p4)\nq.copyFrom(p, slice(0, 2), slice(0, 2))\n", ("q.flux", "jnp.array([p4[0], p4[1], f4[2], 0.])"), ("q.x", "jnp.array([u4[0], u4[1], x4[2], x4[3]])"))
    A("fixed size fill", BARE + "with fixed_photon_array_size(4):\n    q = PhotonArray(3, x=x4, y=y4, flux=f4)\np = PhotonArray(4, x=u4, y=v4, flux=p4)\nq.copyFrom(p, slice(2, 4), slice(2, 4))\n", ("q.flux", "jnp.array([f4[0], f4[1], p4[2], p4[3]])"), ("q._num_keep", "4"))
    A("fixed size num_keep", FX + "q._num_keep = 2\n", ("q._num_keep", "2"), ("q._nokeep", "jnp.array([False, False, True, True])"), ("q.x", "x4"))
    MK = "q._nokeep = jnp.array([False, True, False, False])\n"
    A("masked convolve", BARE + "q = PhotonArray(4, x=x4, y=y4, flux=f4, " + FULL4 + ")\n" + MK + "t = PhotonArray(4, x=u4, y=v4, flux=p4, " + FULL4 + ")\nt._nokeep = q._nokeep\nF, T = q.flux, t.flux\nq.convolve(t, BaseDeviate(5))\n", *[("%s.%s" % (o, a), O4[a]) for o in "qt" for a in OTHER],
      ("q._nokeep", "jnp.array([False, True, False, False])"), ("t._nokeep", "jnp.array([False, True, False, False])"), ("t.x", "u4"), ("t.y", "v4"), ("t.flux", "T"), ("q.flux", "F*T*3"), ("q.x", "x4 + u4"), ("q.y", "y4 + v4"))
    A("masked scaleXY", BARE + "q = PhotonArray(4, x=x4, y=y4, flux=f4)\n" + MK + "F = q.flux\nq.scaleXY(ps)\nq.scaleFlux(pf)\n", ("q.x", "x4*ps"), ("q.flux", "F*pf"))
    for nm, cp, mk in (("copyFrom", "p.copyFrom(q, slice(0, 2), slice(0, 2))", "jnp.arange(4) < 2"), ("categorical", "p._assign_from_categorical_index(jnp.array([0, 1, 1, 2]), 1, q)", "jnp.array([0, 1, 1, 2]) == 1"), ("categorical other", "p._assign_from_categorical_index(jnp.array([2, 0, 1, 2]), 2, q)", "jnp.array([2, 0, 1, 2]) == 2")):
        A("masked source " + nm, BARE + "q = PhotonArray(4, x=x4, y=y4, flux=f4)\n" + MK + "F = q.flux\np = PhotonArray(4, x=u4, y=v4, flux=p4)\n" + cp + "\n",
          ("p.flux", "jnp.where(%s, F, p4)" % mk), ("p.x", "jnp.where(%s, x4, u4)" % mk), ("p._nokeep", "(%s) & jnp.array([False, True, False, False])" % mk), ("q.flux", "F"))
        A("masked target " + nm, BARE + "p = PhotonArray(4, x=x4, y=y4, flux=f4)\np._nokeep = jnp.array([False, True, False, False])\nF = p.flux\nq = PhotonArray(4, x=u4, y=v4, flux=p4)\n" + cp + "\n",
          ("p.flux", "jnp.where(%s, p4, F)" % mk), ("p.x", "jnp.where(%s, u4, x4)" % mk), ("p._nokeep", "~(%s) & jnp.array([False, True, False, False])" % mk))
    A("equality of bare arrays", BARE + "q = PhotonArray(4, x=x4, y=y4, flux=f4)\np = PhotonArray(4, x=x4, y=y4, flux=f4)\nt = PhotonArray(4, x=x4, y=y4, flux=f4, time=w4)\nm = PhotonArray(4, x=x4, y=y4, flux=f4)\nm._nokeep = jnp.array([False, True, False, False])\na0 = PhotonArray(4, x=x4, y=y4)\nb0 = PhotonArray(4, x=x4, y=y4)\nb0._nokeep = jnp.array([False, True, False, False])\n", ("a0 == b0", "False"), ("p == q", "True"), ("p == t", "False"), ("p == m", "False"))
    A("convolve advances", BARE + "r = BaseDeviate(5)\nPhotonArray(4, x=x4, y=y4, flux=f4).convolve(PhotonArray(4, x=u4, y=v4, flux=p4), r)\nu = UniformDeviate(5)\nu.discard(1)\n", ("UniformDeviate(r).generate(%s)" % Z, "u.generate(%s)" % Z))
    A("makeFromImage advances", BARE + "r = BaseDeviate(5)\nPhotonArray.makeFromImage(Image(jnp.array([[0.5, -0.7]])), rng=r)\nu = UniformDeviate(5)\n", ("UniformDeviate(r).generate(jnp.zeros(2))", "[u.generate(jnp.zeros(2)) for i in range(3)][2]"))
    # photons of an image
    for nm, e, sc in (("", "Image(ab, xmin=3, ymin=-2)", "1."), (" scaled", "Image(ab, xmin=3, ymin=-2, scale=ps)", "ps")):
        s = BARE + "ab = jnp.array([[0.5, -0.7], [0.2, 2.4]])\nim = %s\np = PhotonArray.makeFromImage(im, rng=BaseDeviate(5))\nu = UniformDeviate(5)\nU = u.generate(jnp.zeros(6))\nV = u.generate(jnp.zeros(6))\n" % e
        A("makeFromImage" + nm, s, ("p.size()", "6"), ("p.flux", "jnp.array([0.5, -0.7, 0.2, 0.8, 0.8, 0.8])"), ("p.x", "%s*(2.5 + jnp.array([0, 1, 0, 1, 1, 1]) + U)" % sc), ("p.y", "%s*(-2.5 + jnp.array([0, 0, 1, 1, 1, 1]) + V)" % sc), ("p.getTotalFlux()", "2.4"))
    s = BARE + "ab = jnp.array([[0.5, -0.7], [0.2, 2.4]])\np = PhotonArray.makeFromImage(Image(ab), max_flux=0.6, rng=BaseDeviate(5))\n"
    A("makeFromImage max_flux", s, ("p.size()", "8"), ("p.flux", "jnp.array([0.5, -0.35, -0.35, 0.2, 0.6, 0.6, 0.6, 0.6])"))
    # shooting
    for nm, e, x, y in (
        ("Gaussian", "Gaussian(sigma=ps, flux=pf)", "ps*GaussianDeviate(31).generate(%s)" % Z, "ps*[g.generate(%s) for i in range(2)][1]" % Z),
        ("Box", "Box(pw, ph, flux=pf)", "pw*(UniformDeviate(31).generate(%s) - 0.5)" % Z, "ph*([u.generate(%s) for i in range(2)][1] - 0.5)" % Z),
        ("Pixel", "Pixel(pw, flux=pf)", "pw*(UniformDeviate(31).generate(%s) - 0.5)" % Z, "pw*([u.generate(%s) for i in range(2)][1] - 0.5)" % Z),
        ("DeltaFunction", "DeltaFunction(flux=pf)", Z, Z),
    ):
        A("shoot " + nm, SHOOT + "g = GaussianDeviate(31)\nu = UniformDeviate(31)\np = %s.shoot(N, r)\n" % e, ("p.x", x), ("p.y", y), ("p.flux", "pf/4*jnp.ones(4)"))
    UU = "u = UniformDeviate(31)\nU = u.generate(jnp.zeros(4))\nV = u.generate(jnp.zeros(4))\n"
    # radial profiles: the enclosed flux at the photon radius is the uniform deviate
    for nm, e in (("Moffat", "Moffat(beta=pb, scale_radius=pr, flux=pf)"),):
        cum = "(1. - (1. + (p.x**2 + p.y**2)/pr**2)**(1. - pb))"
        A("shoot " + nm, SHOOT + UU + "p = %s.shoot(N, r)\n" % e, (cum, "V*(%s)" % ("1." if nm == "Moffat" else "1. - 10.**(1. - pb)")), ("p.x*jnp.sin(2*math.pi*U)", "p.y*jnp.cos(2*math.pi*U)"), ("p.flux", "pf/4*jnp.ones(4)"))
    A("shoot Exponential", SHOOT + UU + "p = Exponential(scale_radius=pr, flux=pf).shoot(N, r)\n", ("p.x*jnp.sin(2*math.pi*V)", "p.y*jnp.cos(2*math.pi*V)"), ("p.flux", "pf/4*jnp.ones(4)"), ("pr*Exponential(scale_radius=1.).shoot(N, BaseDeviate(31)).x", "p.x"))
    ER = UU + "o = %s\np = o.shoot(N, r)\nR = jnp.sqrt(p.x**2 + p.y**2)\n"
    A("tables: Exponential", SHOOT + ER % "Exponential(scale_radius=pr, flux=pf)", ("1. + (1. - (1. + R/pr)*jnp.exp(-R/pr))", "1. + U"))
    A("tables: Spergel", SHOOT + ER % "Spergel(nu=pnu, scale_radius=pr, flux=pf)", ("1. + o.calculateIntegratedFlux(R)", "1. + U"), ("p.x*jnp.sin(2*math.pi*V)", "p.y*jnp.cos(2*math.pi*V)"), ("p.flux", "pf/4*jnp.ones(4)"))
    # transformations move the photons of the original
    for nm, base in (("Gaussian", "Gaussian(sigma=ps, flux=pf)"), ("Exponential", "Exponential(scale_radius=pr, flux=pf)")):
        s = SHOOT + "o = %s\nq = o.shoot(N, BaseDeviate(31))\n" % base
        A("shoot shifted " + nm, s + "p = o.shift(pdx, pdy).shoot(N, r)\n", ("p.x", "q.x + pdx"), ("p.y", "q.y + pdy"), ("p.flux", "q.flux"))
        A("shoot scaled " + nm, s + "p = (o*pf).shoot(N, r)\n", ("p.x", "q.x"), ("p.flux", "q.flux*pf"))
        A("shoot expanded " + nm, s + "p = o.expand(psc).shoot(N, r)\n", ("p.x", "psc*q.x"), ("p.y", "psc*q.y"), ("jnp.sum(p.flux)", "psc**2*pf"))
        A("shoot dilated " + nm, s + "p = o.dilate(psc).shoot(N, r)\n", ("p.x", "psc*q.x"), ("jnp.sum(p.flux)", "pf"))
        A("shoot rotated " + nm, s + "p = o.rotate(pg1*radians).shoot(N, r)\n", ("p.x", "jnp.cos(pg1)*q.x - jnp.sin(pg1)*q.y"), ("p.y", "jnp.sin(pg1)*q.x + jnp.cos(pg1)*q.y"), ("p.flux", "q.flux"))
        A("shoot sheared " + nm, s + "p = o.shear(g1=pg1, g2=pg2).shoot(N, r)\nD = jnp.sqrt(1. - pg1**2 - pg2**2)\n", ("D*p.x", "(1. + pg1)*q.x + pg2*q.y"), ("D*p.y", "pg2*q.x + (1. - pg1)*q.y"), ("p.flux", "q.flux"))
        A("shoot transformed " + nm, s + "p = o.transform(ps, pdx, pdy, pr).shift(pg1, pg2).shoot(N, r)\n", ("p.x", "ps*q.x + pdx*q.y + pg1"), ("p.y", "pdy*q.x + pr*q.y + pg2"), ("p.flux", "q.flux*jnp.abs(ps*pr - pdx*pdy)"))
        A("shoot sheared then shifted " + nm, s + "p = o.shift(pdx, pdy).shear(g1=pg1, g2=pg2).shoot(N, r)\nD = jnp.sqrt(1. - pg1**2 - pg2**2)\n", ("D*p.x", "(1. + pg1)*(q.x + pdx) + pg2*(q.y + pdy)"), ("D*p.y", "pg2*(q.x + pdx) + (1. - pg1)*(q.y + pdy)"))
    # compositions
    AB = "A = Gaussian(sigma=ps, flux=pf)\nB = Exponential(scale_radius=pr, flux=pdx)\n"
    A("shoot Convolution", SHOOT + AB + "p = Convolve(A, B).shoot(N, r)\nr2 = BaseDeviate(31)\nqa = A.shoot(N, r2)\nqb = B.shoot(N, r2)\n", ("p.x", "qa.x + qb.x"), ("p.y", "qa.y + qb.y"), ("p.flux", "pf*pdx/4*jnp.ones(4)"), ("jnp.sum(p.flux)", "pf*pdx"))
    A("shoot triple Convolution", SHOOT + AB + "p = Convolve(A, B, Box(pw, ph)).shoot(N, r)\n", ("jnp.sum(p.flux)", "pf*pdx"))
    A("shoot Sum", SHOOT + "A = Gaussian(sigma=ps, flux=psc)\nB = Box(pw, ph, flux=pr)\np = Add(A, B).shoot(N, r)\n", ("p.flux", "(psc + pr)/4*jnp.ones(4)"), ("jnp.sum(p.flux)", "psc + pr"))
    A("shoot Sum positions", SHOOT + "A = DeltaFunction(flux=psc).shift(0., pdy)\nB = DeltaFunction(flux=pr).shift(1., pdx)\np = Add(A, B).shoot(N, r)\n", ("p.y", "jnp.where(p.x == 1., pdx, pdy)"))
    # applying a profile to photons is a convolution with it
    A("applyTo", SHOOT + "p = PhotonArray(4, x=x4, y=y4, flux=f4)\nG = Gaussian(sigma=ps)\nG.applyTo(p, rng=r)\nq = G.shoot(N, BaseDeviate(31))\n", ("p.x", "x4 + q.x"), ("p.y", "y4 + q.y"), ("p.flux", "f4"))
    A("applyTo with wcs", SHOOT + "p = PhotonArray(4, x=x4, y=y4, flux=f4)\nG = Gaussian(sigma=ps)\nG.applyTo(p, local_wcs=PixelScale(psc), rng=r)\nq = G.shoot(N, BaseDeviate(31))\n", ("psc*(p.x - x4)", "q.x"), ("psc*(p.y - y4)", "q.y"), ("p.flux", "f4"))
    A("applyTo keeps attributes", SHOOT + "p = PhotonArray(4, x=x4, y=y4, flux=f4, %s)\nGaussian(sigma=ps).applyTo(p, rng=r)\n" % FULL4, *[("p.%s" % a, O4[a]) for a in OTHER])
    # shooting advances the caller's generator and nothing is shot for zero photons
    A("shoot advances", SHOOT + "A = Gaussian(sigma=ps)\np = A.shoot(N, r)\nq = A.shoot(N, r)\ng = GaussianDeviate(31)\n", ("q.x", "ps*[g.generate(%s) for i in range(3)][2]" % Z))
    A("shoot none", SHOOT + "p = Gaussian(sigma=ps).shoot(0, r)\n", ("p.size()", "0"), ("r.raw()", "BaseDeviate(31).raw()"))
    for e in ("PhotonArray(4, x=x4, y=y4, flux=f4).addTo(Image(a, make_const=True))", "PhotonArray.makeFromImage(Image(a), max_flux=0.)", "PhotonArray.makeFromImage(Image(a), max_flux=-1.)", "PhotonArray(4).convolve(PhotonArray(3))",
              "PhotonArray(4).addTo(Image())", "PhotonArray(4).assignAt(2, PhotonArray(3))", "PhotonArray(4).copyFrom(PhotonArray(3), 4, 0)", "PhotonArray(4).copyFrom(PhotonArray(3), 0, 3)", "PhotonArray(4).copyFrom(PhotonArray(3), -5, 0)",
              "PhotonArray(4).copyFrom(PhotonArray(3), 0, -4)", "GSObject().shoot(3, BaseDeviate(1))", "Deconvolve(Gaussian(sigma=1.)).shoot(3, BaseDeviate(1))", "Sensor().accumulate(PhotonArray(3), Image())"):
        out.append(("rejects", "from jax_galsim import Sensor, GSObject\nfrom jax_galsim.photon_array import PhotonArray\n", (e,)))
    return out


def main():
    I = interp()
    R = Report("P17", "photon arrays keep positions, fluxes and attributes of the photons they hold through scaling, assignment, convolution and fixed-size masking, add each photon's flux to the pixel containing it, and shooting a profile places photons by its distribution with the profile's total flux",
               300, "Attributes after each operation are compared with reference formulas by value numbering and fingerprints, random draws being free functions of key and parameters.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    if n == "rejects":
        for q in p:
            must_raise(I, R, "rejects " + q[0], s + q[0] + "\n", spec=SPEC)
    elif n.startswith("tables"):
        # inverse distributions are tabulated: equal to the resolution of the table
        laws(I, R, n, s, p, traced=False, spec=dict(SPEC, pnu=("jax", 0, "f")), vals=dict(VALS, pnu=[[0.3, -0.6, 1.7, 2.5, 3.9, -0.3, 1.2, -0.2, 2.1, 3.3, 3.7][k % 11] for k in range(40)]), tol=1e-4,
             exact=80, summ={"jax_galsim/bessel.py:kv": "galsim.bessel.kv"})
    else:
        laws(I, R, n, s, p, traced=False, spec=SPEC, vals=VALS, prune=True)
