"""P07: accuracy parameters (GSParams): defaults, replacement, validation, combination and propagation."""
from ..core import *
from ..eqs import laws, must_raise, grouped

FIELDS = (("minimum_fft_size", 128), ("maximum_fft_size", 8192), ("folding_threshold", 5e-3), ("stepk_minimum_hlr", 5), ("maxk_threshold", 1e-3), ("kvalue_accuracy", 1e-5),
          ("xvalue_accuracy", 1e-5), ("table_spacing", 1), ("realspace_relerr", 1e-4), ("realspace_abserr", 1e-6), ("integration_relerr", 1e-6), ("integration_abserr", 1e-8), ("shoot_accuracy", 1e-5))
MAXED = ("minimum_fft_size", "maximum_fft_size", "stepk_minimum_hlr")
PRE = """import jax_galsim as galsim
from jax_galsim.gsparams import GSParams
names = %r
dflt = %r
A = dict(minimum_fft_size=64, maximum_fft_size=4096, folding_threshold=1e-3, stepk_minimum_hlr=7, maxk_threshold=2e-3, kvalue_accuracy=3e-5, xvalue_accuracy=4e-5, table_spacing=2, realspace_relerr=5e-4, realspace_abserr=6e-6, integration_relerr=7e-6, integration_abserr=8e-8, shoot_accuracy=9e-5)
B = dict(minimum_fft_size=256, maximum_fft_size=1024, folding_threshold=2e-3, stepk_minimum_hlr=3, maxk_threshold=1e-4, kvalue_accuracy=1e-6, xvalue_accuracy=2e-6, table_spacing=3, realspace_relerr=2e-5, realspace_abserr=3e-7, integration_relerr=4e-7, integration_abserr=5e-9, shoot_accuracy=6e-6)
def fields(g): return [getattr(g, n) for n in names]
def vals(d): return [d[n] for n in names]
def new(d): return GSParams(**d)
ga = new(A)
gb = new(B)
g0 = GSParams()
""" % ([f for f, _ in FIELDS], dict(FIELDS))
SIMPLE = {
    "Gaussian": "galsim.Gaussian(sigma=1.3, flux=2.5%s)", "Gaussian (fwhm)": "galsim.Gaussian(fwhm=1.3, flux=2.5%s)", "Gaussian (hlr)": "galsim.Gaussian(half_light_radius=1.3, flux=2.5%s)", "Exponential": "galsim.Exponential(scale_radius=1.7, flux=0.5%s)",
    "Exponential (hlr)": "galsim.Exponential(half_light_radius=1.7, flux=0.5%s)", "Moffat": "galsim.Moffat(beta=3.1, scale_radius=1.2, flux=2.%s)", "Moffat (fwhm)": "galsim.Moffat(beta=3.1, fwhm=1.2, flux=2.%s)", "Spergel": "galsim.Spergel(nu=0.6, scale_radius=1.1, flux=3.%s)",
    "Spergel (hlr)": "galsim.Spergel(nu=0.6, half_light_radius=1.1, flux=3.%s)", "Box": "galsim.Box(width=1.1, height=2.2, flux=1.5%s)", "Pixel": "galsim.Pixel(scale=1.1, flux=1.5%s)", "DeltaFunction": "galsim.DeltaFunction(flux=2.5%s)",
    "InterpolatedImage": "galsim.InterpolatedImage(galsim.ImageD(im5, scale=1.), x_interpolant=galsim.Cubic(), k_interpolant=galsim.Quintic(), calculate_stepk=False, calculate_maxk=False%s)",
}
INTERP = ("Delta()", "Nearest()", "SincInterpolant()", "Linear()", "Cubic()", "Quintic()", "Lanczos(3)", "Lanczos(4, conserve_dc=False)")
TREES = {  # constructor with its components `c1`, `c2` and extra keyword arguments
    "Sum": ("galsim.Sum(%s, %s%%s)", "o.obj_list"), "Sum of a list": ("galsim.Sum([%s, %s]%%s)", "o.obj_list"), "Add": ("galsim.Add(%s, %s%%s)", "o.obj_list"),
    "Convolution": ("galsim.Convolution(%s, %s%%s)", "o.obj_list"), "Convolve": ("galsim.Convolve([%s, %s]%%s)", "o.obj_list"), "Convolution in real space": ("galsim.Convolution(%s, %s, real_space=False%%s)", "o.obj_list"),
}
WRAPS = {"Deconvolution": ("galsim.Deconvolution(%s%%s)", "[o.orig_obj]"), "Deconvolve": ("galsim.Deconvolve(%s%%s)", "[o.orig_obj]"), "Transformation": ("galsim.Transformation(%s, jac=(1.2, 0.1, -0.3, 0.9), flux_ratio=1.5%%s)", "[o.original]"), "Transform": ("galsim.Transform(%s, offset=galsim.PositionD(0.3, 0.4)%%s)", "[o.original]")}
G1 = "galsim.Gaussian(sigma=1.3%s)"
G2 = "galsim.Exponential(scale_radius=0.7%s)"
COMBINED = "GSParams(**{n: (max if n in %r else min)(A[n], B[n]) for n in names})" % (MAXED,)


def obligations():
    out = []

    def P(name, src, *prs):
        for p in prs:
            out.append((name, src, p))

    P("defaults", PRE, ("fields(g0)", "vals(dflt)"), ("fields(GSParams.default)", "vals(dflt)"), ("galsim.GSParams is GSParams", "True"), ("g0 == GSParams.default", "True"))
    P("fields", PRE, ("fields(ga)", "vals(A)"), ("fields(GSParams(*vals(A)))", "vals(A)"), ("fields(gb)", "vals(B)"))
    for f, _ in FIELDS:
        P("one field: " + f, PRE + "h = g0.withParams(%s=A[%r])\nk = GSParams(%s=A[%r])\n" % (f, f, f, f), ("h.%s" % f, "A[%r]" % f), ("[getattr(h, n) for n in names if n != %r]" % f, "[dflt[n] for n in names if n != %r]" % f), ("h == k", "True"), ("h == g0", "False"), ("h != g0", "True"),
          ("fields(k)", "fields(h)"), ("hash(h) == hash(k)", "True"), ("repr(h) == repr(g0)", "False"), ("repr(h) == repr(k)", "True"), ("fields(g0)", "vals(dflt)"),
          ("fields(GSParams.check(None, ga, %s=B[%r]))" % (f, f), "[B[n] if n == %r else A[n] for n in names]" % f), ("fields(GSParams.check(gb, ga, %s=A[%r]))" % (f, f), "[A[n] if n == %r else B[n] for n in names]" % f), ("fields(GSParams.check(None, %s=B[%r]))" % (f, f), "[B[n] if n == %r else dflt[n] for n in names]" % f),
          ("fields(GSParams.combine([ga, gb]))[names.index(%r)]" % f, "%s(A[%r], B[%r])" % ("max" if f in MAXED else "min", f, f)), ("GSParams.combine([gb, ga]).%s" % f, "%s(A[%r], B[%r])" % ("max" if f in MAXED else "min", f, f)),
          ("GSParams.combine([g0, None, ga]).%s" % f, "%s(A[%r], dflt[%r])" % ("max" if f in MAXED else "min", f, f)), ("GSParams.combine([g0, h]).%s" % f, "%s(A[%r], dflt[%r])" % ("max" if f in MAXED else "min", f, f)), ("GSParams.combine([h, g0, g0]).%s" % f, "%s(A[%r], dflt[%r])" % ("max" if f in MAXED else "min", f, f)))
    P("withParams", PRE, ("fields(ga.withParams(folding_threshold=0.3, table_spacing=7))", "[0.3 if n == 'folding_threshold' else 7 if n == 'table_spacing' else A[n] for n in names]"), ("ga.withParams() is ga", "True"), ("fields(ga.withParams(**B))", "vals(B)"))
    P("check", PRE, ("GSParams.check(ga) is ga", "True"), ("GSParams.check(ga, gb) is ga", "True"), ("GSParams.check(None, gb) is gb", "True"), ("GSParams.check(None) == g0", "True"), ("GSParams.check(None, None) == g0", "True"))
    for b in ("GSParams.check('x')", "GSParams.check(3)", "GSParams.check(None, 5.)", "GSParams.check(None, dict(A))", "GSParams.check(ga, bogus=3)", "GSParams.check(None, bogus=3)", "g0.withParams(bogus=3)", "g0.withParams(folding_threshold=0.1, flux=2)", "GSParams(bogus=1)", "GSParams.from_galsim(ga)", "GSParams.from_galsim(None)"):
        out.append(("rejects " + b, PRE + b, "TypeError"))
    P("combine", PRE, ("fields(GSParams.combine([ga, gb]))", "fields(%s)" % COMBINED), ("GSParams.combine([gb, ga]) == GSParams.combine([ga, gb])", "True"), ("GSParams.combine([ga]) is ga", "True"), ("GSParams.combine([ga, new(A)]) == ga", "True"), ("fields(ga)", "vals(A)"),
      ("GSParams.combine([ga, new(A), gb]) == GSParams.combine([ga, gb])", "True"), ("GSParams.combine([ga, gb, GSParams.combine([ga, gb])]) == GSParams.combine([ga, gb])", "True"))
    P("state", PRE + "h = GSParams.__new__(GSParams)\nh.__setstate__(ga.__getstate__())\n", ("fields(h)", "vals(A)"), ("h == ga", "True"))
    P("equality", PRE, ("ga == new(A)", "True"), ("ga != new(A)", "False"), ("ga == gb", "False"), ("ga == 'x'", "False"), ("ga == None", "False"), ("hash(ga) == hash(new(A))", "True"), ("repr(ga) == repr(new(A))", "True"))
    P("galsim objects", PRE + "t = ga.to_galsim()\n", *[("t.%s" % n, "A[%r]" % n) for n, _ in FIELDS] + [("GSParams.from_galsim(t) == ga", "True")])
    for b in ("g0.folding_threshold = 0.1", "g0.table_spacing = 3"):
        out.append(("immutable: " + b, PRE + b, "AttributeError"))
    chain = "[w.gsparams for w in (o.shift(0.1, 0.2), o.shear(g1=0.1), o.dilate(1.2), o.rotate(0.3*galsim.radians), o.withFlux(3.), o*2., -o%s)]"
    for n, c in SIMPLE.items():
        s = PRE + "mk = lambda **kw: %s\no = mk(gsparams=ga)\nd = mk()\np = o.withGSParams(gb)\nq = d.withGSParams(folding_threshold=0.02, maxk_threshold=0.003)\n" % (c % ", **kw")
        P("profile " + n, s, ("fields(o.gsparams)", "vals(A)"), ("fields(d.gsparams)", "vals(dflt)"), ("fields(mk(gsparams=None).gsparams)", "vals(dflt)"), ("fields(p.gsparams)", "vals(B)"), ("fields(o.gsparams)", "vals(A)"), ("p == mk(gsparams=gb)", "True"), ("o == mk()", "False"),
          ("fields(q.gsparams)", "[0.02 if n == 'folding_threshold' else 0.003 if n == 'maxk_threshold' else dflt[n] for n in names]"), ("type(p) is type(o)", "True"), ("p.flux", "o.flux"), ("fields(o.withGSParams(table_spacing=5).gsparams)", "[5 if n == 'table_spacing' else A[n] for n in names]"),
          ("fields(o.withGSParams(gb, table_spacing=5).gsparams)", "[5 if n == 'table_spacing' else B[n] for n in names]"), ("o.withGSParams(ga) is o", "True"), ("o.withGSParams(new(A)) == o", "True"), ("p.withGSParams(ga) == o", "True"), ("fields(d.gsparams)", "vals(dflt)"), ("hash(p) == hash(mk(gsparams=gb))", "True"))
        P("rescaled " + n, s, ("[fields(w) for w in %s]" % (chain % ""), "[vals(A)]*7"), ("fields(o.shift(0.1, 0.2).original.gsparams)", "vals(A)"), ("fields((o*2.).withGSParams(gb).gsparams)", "vals(B)"), ("fields((o*2.).withGSParams(gb).original.gsparams)", "vals(B)"), ("fields(o.gsparams)", "vals(A)"))
        P("pytree " + n, s + "lv, td = o.tree_flatten()\nr = type(o).tree_unflatten(td, lv)\n", ("fields(r.gsparams)", "vals(A)"))
        for b in ("mk(gsparams='x')", "o.withGSParams(3)", "o.withGSParams(bogus=3)"):
            out.append(("profile %s rejects %s" % (n, b), s + b, "TypeError"))
    P("image profile internals", PRE + "o = %s\np = o.withGSParams(gb)\n" % (SIMPLE["InterpolatedImage"] % ", gsparams=ga"), ("fields(o.original.gsparams)", "vals(A)"), ("fields(p.original.gsparams)", "vals(B)"), ("fields(p.x_interpolant.gsparams)", "vals(B)"), ("fields(p.k_interpolant.gsparams)", "vals(B)"), ("fields(o.x_interpolant.gsparams)", "vals(A)"))
    for c in INTERP:
        s = PRE + "o = galsim.%s\np = o.withGSParams(ga)\nq = p.withGSParams(kvalue_accuracy=0.25)\n" % c
        P("interpolant " + c, s, ("fields(o.gsparams)", "vals(dflt)"), ("fields(p.gsparams)", "vals(A)"), ("fields(q.gsparams)", "[0.25 if n == 'kvalue_accuracy' else A[n] for n in names]"), ("p.withGSParams(ga) is p", "True"), ("type(p) is type(o)", "True"), ("p == o", "False"), ("p.withGSParams(g0) == o", "True"), ("fields(o.gsparams)", "vals(dflt)"),
          ("fields(galsim.%s.gsparams)" % (c[:-1] + (", " if c[-2] != "(" else "") + "gsparams=gb)"), "vals(B)"))
    for nm in ("quintic", "lanczos5", "linear", "cubic", "nearest", "delta", "sinc", "lanczos3F"):
        P("named interpolant " + nm, PRE, ("fields(galsim.Interpolant.from_name(%r, gsparams=ga).gsparams)" % nm, "vals(A)"), ("fields(galsim.Interpolant.from_name(%r).gsparams)" % nm, "vals(dflt)"))
    ka, kb = ", gsparams=ga", ", gsparams=gb"
    sub = "[fields(x.gsparams) for x in %s]"
    for n, (t, l) in TREES.items():
        s = PRE + "o = %s\n" % (t % (G1 % ka, G2 % kb) % "")
        P("composite " + n, s, ("fields(o.gsparams)", "fields(%s)" % COMBINED), (sub % l, "[fields(%s)]*2" % COMBINED))
        s = PRE + "ca = %s\ncb = %s\no = %s\n" % (G1 % ka, G2 % kb, t % ("ca", "cb") % ", propagate_gsparams=False")
        P("composite %s without propagation" % n, s, ("fields(o.gsparams)", "fields(%s)" % COMBINED), (sub % l, "[vals(A), vals(B)]"), ("fields(o.withGSParams(g0).gsparams)", "vals(dflt)"), (sub % l.replace("o.", "o.withGSParams(g0)."), "[vals(A), vals(B)]"), (sub % l.replace("o.", "o.withGSParams(g0).withGSParams(table_spacing=9)."), "[vals(A), vals(B)]"),
          ("o == %s" % (t % ("ca", "cb") % ""), "False"), ("o == %s" % (t % ("ca", "cb") % ", propagate_gsparams=False"), "True"))
        s = PRE + "ca = %s\ncb = %s\no = %s\np = o.withGSParams(gb)\nq = o.withGSParams(folding_threshold=0.25)\n" % (G1 % "", G2 % kb, t % ("ca", "cb") % ka)
        P("composite %s with its own" % n, s, ("fields(o.gsparams)", "vals(A)"), (sub % l, "[vals(A)]*2"), ("fields(p.gsparams)", "vals(B)"), (sub % l.replace("o.", "p."), "[vals(B)]*2"), ("fields(o.gsparams)", "vals(A)"), (sub % l, "[vals(A)]*2"), ("fields(ca.gsparams)", "vals(dflt)"), ("fields(cb.gsparams)", "vals(B)"),
          ("fields(q.gsparams)", "[0.25 if n == 'folding_threshold' else A[n] for n in names]"), (sub % l.replace("o.", "q."), "[[0.25 if n == 'folding_threshold' else A[n] for n in names]]*2"), ("o.withGSParams(ga) is o", "True"), ("type(p) is type(o)", "True"), ("p == %s" % (t % ("ca", "cb") % kb), "True"), ("[type(x) is type(y) for x, y in zip(%s, %s)]" % (l.replace("o.", "p."), l), "[True, True]"), ("p.flux", "o.flux"))
        P("composite %s of equals" % n, PRE + "o = %s\n" % (t % (G1 % ka, G2 % ka) % ""), ("fields(o.gsparams)", "vals(A)"), (sub % l, "[vals(A)]*2"))
        P("composite %s transformed" % n, PRE + "o = %s\nw = o.shear(g1=0.1).withGSParams(gb)\n" % (t % (G1 % "", G2 % "") % ka), ("fields(w.gsparams)", "vals(B)"), ("fields(w.original.gsparams)", "vals(B)"), (sub % l.replace("o.", "w.original."), "[vals(B)]*2"), (sub % l, "[vals(A)]*2"))
        out.append(("composite %s rejects a wrong type" % n, PRE + t % (G1 % "", G2 % "") % ", gsparams=3", "TypeError"))
        P("pytree %s" % n, PRE + "o = %s\nlv, td = o.tree_flatten()\nr = type(o).tree_unflatten(td, lv)\n" % (t % (G1 % ka, G2 % kb) % ", propagate_gsparams=False"), ("fields(r.gsparams)", "fields(o.gsparams)"), (sub % l.replace("o.", "r."), "[vals(A), vals(B)]"), (sub % l.replace("o.", "r.withGSParams(g0)."), "[vals(A), vals(B)]"))
    for n, (t, l) in WRAPS.items():
        s = PRE + "c = %s\no = %s\n" % (G1 % ka, t % "c" % "")
        P("wrapper " + n, s, ("fields(o.gsparams)", "vals(A)"), (sub % l, "[vals(A)]"))
        s = PRE + "c = %s\no = %s\np = o.withGSParams(g0)\nq = o.withGSParams(folding_threshold=0.25)\n" % (G1 % ka, t % "c" % kb)
        P("wrapper %s with its own" % n, s, ("fields(o.gsparams)", "vals(B)"), (sub % l, "[vals(B)]"), ("fields(c.gsparams)", "vals(A)"), ("fields(p.gsparams)", "vals(dflt)"), (sub % l.replace("o.", "p."), "[vals(dflt)]"), ("fields(o.gsparams)", "vals(B)"), (sub % l, "[vals(B)]"), ("fields(q.gsparams)", "[0.25 if n == 'folding_threshold' else B[n] for n in names]"),
          (sub % l.replace("o.", "q."), "[[0.25 if n == 'folding_threshold' else B[n] for n in names]]"), ("o.withGSParams(gb) is o", "True"), ("type(p) is type(o)", "True"), ("p.flux", "o.flux"))
        s = PRE + "c = %s\no = %s\np = o.withGSParams(g0)\n" % (G1 % ka, t % "c" % (kb + ", propagate_gsparams=False"))
        P("wrapper %s without propagation" % n, s, ("fields(o.gsparams)", "vals(B)"), (sub % l, "[vals(A)]"), ("fields(p.gsparams)", "vals(dflt)"), (sub % l.replace("o.", "p."), "[vals(A)]"), (sub % l.replace("o.", "p.withGSParams(table_spacing=9)."), "[vals(A)]"), ("o == %s" % (t % "c" % kb), "False"))
        out.append(("wrapper %s rejects a wrong type" % n, PRE + t % (G1 % "") % ", gsparams=3", "TypeError"))
        P("pytree %s" % n, PRE + "o = %s\nlv, td = o.tree_flatten()\nr = type(o).tree_unflatten(td, lv)\n" % (t % (G1 % ka) % (kb + ", propagate_gsparams=False")), ("fields(r.gsparams)", "vals(B)"), (sub % l.replace("o.", "r."), "[vals(A)]"), (sub % l.replace("o.", "r.withGSParams(g0)."), "[vals(A)]"))
    P("nested", PRE + "o = galsim.Convolve(galsim.Add(%s, %s).shift(0.1, 0.2), galsim.Deconvolve(%s))\np = o.withGSParams(gb)\n" % (G1 % "", G2 % "", G1 % ka), ("fields(o.gsparams)", "fields(GSParams.combine([g0, ga]))"), ("fields(o.obj_list[0].original.obj_list[1].gsparams)", "fields(o.gsparams)"), ("fields(p.obj_list[0].original.obj_list[1].gsparams)", "vals(B)"),
      ("fields(p.obj_list[1].orig_obj.gsparams)", "vals(B)"), ("fields(o.obj_list[1].orig_obj.gsparams)", "fields(o.gsparams)"))
    P("sum operators", PRE + "o = %s + %s\nm = %s - %s\n" % (G1 % ka, G2 % kb, G1 % ka, G2 % kb), ("fields(o.gsparams)", "fields(%s)" % COMBINED), ("fields(m.gsparams)", "fields(%s)" % COMBINED), ("[fields(x.gsparams) for x in m.obj_list]", "[fields(%s)]*2" % COMBINED))
    return out


SPEC = {"im5": ("jax", 2, "f", (5, 5))}


def one(I, R, n, s, p):
    if isinstance(p[0], str):
        for exc in p:
            must_raise(I, R, n, s, exc=exc, spec=SPEC)
        return
    laws(I, R, n, s, p, traced=False, spec=SPEC)


def main():
    I = interp()
    R = Report("P07", "accuracy parameters keep their defaults, replace only what is named, combine to the strictest and reach every component they should", 400,
               "Values of the GSParams fields read back from profiles, interpolants and composites are compared with those given, and with the stricter of those combined.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)
