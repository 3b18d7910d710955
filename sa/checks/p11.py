"""P11: conversion to and from GalSim objects, and FITS files, keeps every value."""
from ..core import *
from ..eqs import laws, must_raise, grouped

A = dict(minimum_fft_size=64, maximum_fft_size=4096, folding_threshold=1e-3, stepk_minimum_hlr=7, maxk_threshold=2e-3, kvalue_accuracy=3e-5, xvalue_accuracy=4e-5, table_spacing=2, realspace_relerr=5e-4, realspace_abserr=6e-6, integration_relerr=7e-6, integration_abserr=8e-8, shoot_accuracy=9e-5)
GSP = ", ".join("%s=%r" % kv for kv in A.items())
PRE = """import galsim as gs
import jax_galsim as jg
from jax_galsim import *
from jax_galsim.fitswcs import GSFitsWCS
def xy(p): return [p.x, p.y]
def box(b): return [b.xmin, b.xmax, b.ymin, b.ymax]
def name(t): return type(t).__name__
"""
PF = ("jax", 0, "f")
SPEC = {n: PF for n in ("px", "py", "pz", "pw", "ox", "oy", "wx", "wy", "scl", "ja", "jb", "jc", "jd", "g1", "g2", "ra", "dec")}
SPEC.update(arr=("jax", 2, "f", (3, 4)), arr2=("jax", 2, "f", (3, 4)), narr=("np", 2, "f", (3, 4)), cube=("jax", 3, "f", (2, 3, 4)), crpix=("jax", 1, "f", (2,)), cd=("jax", 2, "f", (2, 2)), pv=("jax", 3, "f", (2, 4, 4)), ab=("jax", 3, "f", (2, 3, 3)), abp=("jax", 3, "f", (2, 3, 3)))
VALS = {"g1": [0.05 + 0.01 * k for k in range(40)], "g2": [-0.3 + 0.015 * k for k in range(40)], "scl": [0.2 + 0.1 * k for k in range(40)]}


def obligations():
    out = []

    def P(name, src, *prs):
        for p in prs:
            out.append((name, PRE + src, p))

    def bad(src, exc="TypeError"):
        out.append(("rejects " + src, PRE + src, exc))

    for c, x, y in (("PositionD", "px", "py"), ("PositionI", "3", "-7"), ("PositionD", "1.5", "2"), ("PositionI", "0", "0")):
        s = "o = %s(%s, %s)\nt = o.to_galsim()\nf = %s.from_galsim(gs.%s(%s, %s))\nb = jg.position.Position.from_galsim(gs.%s(%s, %s))\n" % (c, x, y, c, c, x, y, c, x, y)
        P("%s(%s, %s)" % (c, x, y), s, ("xy(t)", "[%s, %s]" % (x, y)), ("name(t)", repr(c)), ("name(f)", repr(c)), ("name(b)", repr(c)), ("xy(f)", "[%s, %s]" % (x, y)), ("xy(b)", "[%s, %s]" % (x, y)), ("f == o", "True"), ("%s.from_galsim(t) == o" % c, "True"), ("name(jg.%s.from_galsim(t))" % c, repr(c)))
    for c, e in (("BoundsD", "px, px + 3., py, py + 2."), ("BoundsI", "3, 9, -4, 5"), ("BoundsD", "1., 2., 3.5, 4."), ("BoundsI", "1, 1, 2, 2")):
        s = "o = %s(%s)\nt = o.to_galsim()\nf = %s.from_galsim(gs.%s(%s))\nb = jg.bounds.Bounds.from_galsim(gs.%s(%s))\n" % (c, e, c, c, e, c, e)
        P("%s(%s)" % (c, e), s, ("box(t)", "[%s]" % e), ("name(t)", repr(c)), ("name(f)", repr(c)), ("name(b)", repr(c)), ("box(f)", "[%s]" % e), ("box(b)", "[%s]" % e), ("f == o", "True"), ("%s.from_galsim(t) == o" % c, "True"), ("f.isDefined()", "True"), ("t.isDefined()", "True"))
    for c in ("BoundsD", "BoundsI"):
        P("undefined " + c, "o = %s()\nt = o.to_galsim()\nf = %s.from_galsim(gs.%s())\n" % (c, c, c), ("t.isDefined()", "False"), ("f.isDefined()", "False"), ("name(t)", repr(c)), ("name(f)", repr(c)), ("f == o", "True"))
    for s in ("PositionD.from_galsim(3.)", "PositionI.from_galsim('x')", "PositionD.from_galsim(gs.BoundsD(1., 2., 3., 4.))", "PositionD.from_galsim(PositionD(1., 2.))", "BoundsI.from_galsim(3)", "BoundsD.from_galsim(gs.PositionD(1., 2.))", "BoundsI.from_galsim(BoundsI(1, 2, 3, 4))", "GSParams.from_galsim(GSParams())",
              "GSParams.from_galsim(None)", "GSParams.from_galsim('x')", "BaseWCS.from_galsim(3.)", "BaseWCS.from_galsim(None)", "BaseWCS.from_galsim(gs.Shear(g1=0.1, g2=0.2))"):
        bad(s)
    bad("BaseWCS.from_galsim(gs.UVFunction('x', 'y'))", "NotImplementedError")
    P("Shear", "o = Shear(g1=g1, g2=g2)\nt = o.to_galsim()\nf = Shear.from_galsim(gs.Shear(g1=g1, g2=g2))\n", ("[t.g1, t.g2]", "[g1, g2]"), ("name(t)", "'Shear'"), ("[f.g1, f.g2]", "[g1, g2]"), ("[Shear.from_galsim(t).g1, Shear.from_galsim(t).g2]", "[g1, g2]"))
    P("Angle", "o = px*radians\nt = o.to_galsim()\nf = Angle.from_galsim(gs._Angle(px))\n", ("t.rad", "px"), ("name(t)", "'Angle'"), ("f.rad", "px"), ("name(f)", "'Angle'"), ("Angle.from_galsim((px*degrees).to_galsim()).rad", "(px*degrees).rad"))
    P("CelestialCoord", "o = CelestialCoord(ra*radians, dec*0.01*radians)\nt = o.to_galsim()\nf = CelestialCoord.from_galsim(gs.CelestialCoord(gs._Angle(ra), gs._Angle(dec)))\n", ("[t.ra.rad, t.dec.rad]", "[ra, dec*0.01]"), ("name(t)", "'CelestialCoord'"), ("[f.ra.rad, f.dec.rad]", "[ra, dec]"), ("name(f)", "'CelestialCoord'"), ("name(t.ra)", "'Angle'"))
    P("GSParams", "o = GSParams(%s)\nt = o.to_galsim()\nf = GSParams.from_galsim(gs.GSParams(%s))\n" % (GSP, GSP), ("f == o", "True"), ("GSParams.from_galsim(t) == o", "True"), ("name(t)", "'GSParams'"), ("GSParams.from_galsim(gs.GSParams()) == GSParams()", "True"), *[("t.%s" % n, repr(v)) for n, v in A.items()] + [("f.%s" % n, repr(v)) for n, v in A.items()])
    loc = "origin=%sPositionD(ox, oy), world_origin=%sPositionD(wx, wy)"
    gl, jl = loc % ("gs.", "gs."), loc % ("", "")
    W = (
        ("PixelScale", "scl", "scl", ("scale",)), ("ShearWCS", "scl, Shear(g1=g1, g2=g2)", "scl, gs.Shear(g1=g1, g2=g2)", ("scale", "shear.g1", "shear.g2")), ("JacobianWCS", "ja, jb, jc, jd", "ja, jb, jc, jd", ("dudx", "dudy", "dvdx", "dvdy")),
        ("OffsetWCS", "scl, " + jl, "scl, " + gl, ("scale", "origin.x", "origin.y", "world_origin.x", "world_origin.y")), ("OffsetShearWCS", "scl, Shear(g1=g1, g2=g2), " + jl, "scl, gs.Shear(g1=g1, g2=g2), " + gl, ("scale", "shear.g1", "shear.g2", "origin.x", "origin.y", "world_origin.x", "world_origin.y")),
        ("AffineTransform", "ja, jb, jc, jd, " + jl, "ja, jb, jc, jd, " + gl, ("dudx", "dudy", "dvdx", "dvdy", "origin.x", "origin.y", "world_origin.x", "world_origin.y")),
    )
    for c, j, g, fs in W:
        s = "o = %s(%s)\nt = o.to_galsim()\nf = BaseWCS.from_galsim(gs.%s(%s))\nr = %s.from_galsim(t)\n" % (c, j, c, g, c)
        P("wcs " + c, s, ("name(t)", repr(c)), ("name(f)", repr(c)), ("f == o", "True"), *[("t." + a, "o." + a) for a in fs] + [("f." + a, "o." + a) for a in fs] + [("r." + a, "o." + a) for a in fs])
    for lab, d in (("TAN", "['TAN', crpix, cd, %s, None, None, None]"), ("TPV", "['TPV', crpix, cd, %s, pv, None, None]"), ("TAN-SIP", "['TAN', crpix, cd, %s, None, ab, abp]"), ("SIP without inverse", "['TAN', crpix, cd, %s, None, ab, None]")):
        cj, cg = "CelestialCoord(ra*radians, dec*0.01*radians)", "gs.CelestialCoord(gs._Angle(ra), gs._Angle(dec*0.01))"
        s = "o = GSFitsWCS(_data=%s)\nt = o.to_galsim()\nf = BaseWCS.from_galsim(gs.GSFitsWCS(_data=%s))\n" % (d % cj, d % cg)
        P("wcs " + lab, s, ("name(t)", "'GSFitsWCS'"), ("name(f)", "'GSFitsWCS'"), *[("%s.%s" % (q, a), "o." + a) for q in "tf" for a in ("wcs_type", "crpix", "cd", "pv", "ab", "abp", "center.ra.rad", "center.dec.rad")])
    for b in ("3, 6, -2, 0", "1, 4, 1, 3"):
        for w, g in (("None", "None"), ("PixelScale(scl)", "gs.PixelScale(scl)"), ("AffineTransform(ja, jb, jc, jd, origin=PositionD(ox, oy))", "gs.AffineTransform(ja, jb, jc, jd, origin=gs.PositionD(ox, oy))")):
            s = "o = Image(arr, bounds=BoundsI(%s), wcs=%s)\nt = o.to_galsim()\nf = Image.from_galsim(gs.Image(arr, bounds=gs.BoundsI(%s), wcs=%s))\n" % (b, w, b, g)
            P("image [%s] %s" % (b, w[:12]), s, ("t.array", "arr"), ("box(t.bounds)", "[%s]" % b), ("name(t)", "'Image'"), ("name(t.bounds)", "'BoundsI'"), ("f.array", "arr"), ("box(f.bounds)", "[%s]" % b), ("f.wcs == o.wcs", "True"), ("name(f)", "'Image'"), ("o.array", "arr"),
              *([("t.wcs is None", "True"), ("f.wcs is None", "True")] if w == "None" else [("name(t.wcs)", "name(o.wcs)"), ("t.wcs.%s" % ("scale" if w[0] == "P" else "dvdx"), "scl" if w[0] == "P" else "jc")]))
    P("image header", "g = gs.Image(arr, bounds=gs.BoundsI(1, 4, 1, 3), wcs=None)\ng.header = 'HDR'\nf = Image.from_galsim(g)\n", ("f.header", "'HDR'"))
    # FITS files: what GalSim is given and what is returned
    M = "import sa_model\nsa_model.begin(%s)\nfrom jax_galsim import fits\n"
    G1 = "gs.Image(arr, bounds=gs.BoundsI(3, 6, -2, 0), wcs=gs.PixelScale(scl))"
    G2 = "gs.Image(arr2, bounds=gs.BoundsI(1, 4, 1, 3), wcs=None)"
    for q, call in (("", "fits.read('a.fits', hdu=2)"), (" by keyword", "fits.read(file_name='a.fits', hdu=2)")):
        P("read" + q, M % "" + "g = %s\ng.header = 'HDR'\nsa_model.reads(g)\nr = %s\n" % (G1, call), ("r.array", "arr"), ("box(r.bounds)", "[3, 6, -2, 0]"), ("r.wcs == PixelScale(scl)", "True"), ("r.header", "'HDR'"), ("name(r)", "'Image'"), ("r.isconst", "False"), ("sa_model.asked()[0]", "'read'"), ("sa_model.asked()[2]['hdu']", "2"),
          ("sa_model.asked()[%s" % ("1][0]" if not q else "2]['file_name']"), "'a.fits'"))
    for fn in ("readMulti", "readCube"):
        P(fn, M % "" + "sa_model.reads([%s, %s])\nr = fits.%s('a.fits', hdu=2, compression='none')\n" % (G1, G2, fn), ("len(r)", "2"), ("[x.array for x in r]", "[arr, arr2]"), ("[box(x.bounds) for x in r]", "[[3, 6, -2, 0], [1, 4, 1, 3]]"), ("[name(x) for x in r]", "['Image', 'Image']"), ("r[0].wcs == PixelScale(scl)", "True"), ("r[1].wcs is None", "True"),
          ("sa_model.asked()[0]", repr(fn)), ("sa_model.asked()[1][0]", "'a.fits'"), ("sa_model.asked()[2]['hdu']", "2"), ("sa_model.asked()[2]['compression']", "'none'"))
    IM = "w = PixelScale(scl)\nim = Image(arr, bounds=BoundsI(3, 6, -2, 0), wcs=w)\nim2 = Image(arr2, bounds=BoundsI(1, 4, 1, 3), wcs=w)\n"
    SEEN = lambda e, a, b: (("%s['cls']" % e, "'galsim.Image'"), ("%s['kind']" % e, "'numpy'"), ("%s['array']" % e, a), ("box(%s['bounds'])" % e, "[%s]" % b), ("%s['wcs'].scale" % e, "scl"))
    AFTER = lambda n, a, b: (("name(%s)" % n, "'Image'"), ("type(%s) is Image" % n, "True"), ("isinstance(%s, Image)" % n, "True"), ("%s._array is %s_a" % (n, n), "True"), ("%s.array" % n, a), ("box(%s.bounds)" % n, "[%s]" % b), ("%s.wcs is w" % n, "True"))
    one = (("im", "arr", "3, 6, -2, 0"),)
    two = one + (("im2", "arr2", "1, 4, 1, 3"),)
    keep = "im_a = im._array\nim2_a = im2._array\n"
    for lab, call in (("write", "fits.write(im, 'a.fits', clobber=False)"), ("Image.write", "im.write('a.fits', clobber=False)")):
        P(lab, M % "" + IM + keep + call + "\ng = sa_model.asked()\n", *SEEN("g[1][0]", *one[0][1:]) + AFTER(*one[0]) + (("g[0]", "'write'"), ("g[1][1]", "'a.fits'"), ("g[2]['clobber']", "False"), ("len(g[1])", "2")))
    for fn in ("writeMulti", "writeCube"):
        s = M % "" + IM + keep + "fits.%s([im, im2], 'a.fits', clobber=False)\ng = sa_model.asked()\n" % fn
        P(fn, s, *SEEN("g[1][0][0]", *two[0][1:]) + SEEN("g[1][0][1]", *two[1][1:]) + AFTER(*two[0]) + AFTER(*two[1]) + (("g[0]", repr(fn)), ("g[1][1]", "'a.fits'"), ("g[2]['clobber']", "False"), ("len(g[1][0])", "2")))
        P(fn + " twice the same", M % "" + IM + keep + "fits.%s([im, im], 'a.fits')\ng = sa_model.asked()\n" % fn, *SEEN("g[1][0][0]", *one[0][1:]) + SEEN("g[1][0][1]", *one[0][1:]) + AFTER(*one[0]))
    P("write by keyword", M % "" + IM + "fits.write(im, file_name='a.fits')\ng = sa_model.asked()\n", ("g[1][0]['array']", "arr"), ("g[1][0]['kind']", "'numpy'"), ("g[2]['file_name']", "'a.fits'"))
    P("write of an image by keyword", M % "" + IM + "fits.write(image=im, file_name='a.fits')\ng = sa_model.asked()\n", ("g[2]['image']['array']", "arr"), ("g[2]['file_name']", "'a.fits'"), ("type(im) is Image", "True"))
    for fn in ("writeMulti", "writeCube"):
        P(fn + " by keyword", M % "" + IM + "fits.%s([im, im2], file_name='a.fits')\ng = sa_model.asked()\n" % fn, ("[x['array'] for x in g[1][0]]", "[arr, arr2]"), ("[x['kind'] for x in g[1][0]]", "['numpy', 'numpy']"), ("g[2]['file_name']", "'a.fits'"))
        P(fn + " of a list by keyword", M % "" + IM + "fits.%s(image_list=[im, im2], file_name='a.fits')\ng = sa_model.asked()\n" % fn, ("[x['array'] for x in g[2]['image_list']]", "[arr, arr2]"), ("g[2]['file_name']", "'a.fits'"), ("type(im) is Image", "True"))
    for dt in ("int16", "int32", "uint16", "uint32", "float32", "float64"):
        P("dtype " + dt, M % "" + "q = jnp.array([[1, 2], [3, 4]], dtype=jnp.%s)\nsa_model.reads(gs.Image(q, bounds=gs.BoundsI(3, 4, 5, 6), wcs=None))\nr = fits.read('a.fits')\nf = Image.from_galsim(gs.Image(q, bounds=gs.BoundsI(3, 4, 5, 6), wcs=None))\nt = f.to_galsim()\nfits.write(f, 'a.fits')\ng = sa_model.asked()\n" % dt, ("r.array.dtype == jnp.%s" % dt, "True"), ("f.dtype == jnp.%s" % dt, "True"), ("t.array.dtype == jnp.%s" % dt, "True"), ("g[1][0]['array'].dtype == jnp.%s" % dt, "True"), ("f.array.dtype == jnp.%s" % dt, "True"))
    P("writeCube of arrays", M % "" + "fits.writeCube([arr, arr2], 'a.fits')\ng = sa_model.asked()\n", ("[x['array'] for x in g[1][0]]", "[arr, arr2]"), ("[x['kind'] for x in g[1][0]]", "['np', 'np']"))
    P("writeCube of numpy arrays", M % "" + "fits.writeCube([narr, narr], 'a.fits')\ng = sa_model.asked()\n", ("[x['array'] for x in g[1][0]]", "[narr, narr]"), ("[x['kind'] for x in g[1][0]]", "['np', 'np']"))
    for call in ("fits.write(im, 'a.fits')", "im.write('a.fits')", "fits.writeMulti([im, im2], 'a.fits')", "fits.writeCube([im, im2], 'a.fits')"):
        P("failing " + call, M % "1" + IM + keep + "try:\n    %s\n    ok = 1\nexcept OSError:\n    ok = 0\n" % call, ("ok", "0"), *AFTER(*one[0]) + (AFTER(*two[1]) if "im2" in call else ()))
    return out


def one(I, R, n, s, p):
    if isinstance(p[0], str):
        for exc in p:
            must_raise(I, R, n, s, exc=exc, spec=SPEC)
        return
    laws(I, R, n, s, p, traced=False, spec=SPEC, vals=VALS)


def main():
    I = interp()
    R = Report("P11", "conversion to and from GalSim objects and FITS files keeps every value and leaves the caller's objects as they were", 200,
               "GalSim's classes are records of their constructor arguments and its FITS functions a boundary that logs what it is given; the values on both sides are compared.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)
