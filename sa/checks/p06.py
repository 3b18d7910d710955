"""P06: calls do not modify their receiver or arguments, and objects do not share mutable state."""
import ast
from ..core import *
from .p01 import show
from .p03 import classes

RNGS = ("BaseDeviate", "UniformDeviate", "GaussianDeviate", "PoissonDeviate", "BinomialDeviate", "WeibullDeviate", "GammaDeviate", "Chi2Deviate")


def snap(I, v, out=None, seen=None):
    """copies of the fields of everything reachable from v"""
    if out is None:
        out, seen = [], set()
    if id(v) in seen:
        return out
    seen.add(id(v))
    if isinstance(v, Obj):
        out.append((v, dict(v.attrs)))
        for x in list(v.attrs.values()):
            snap(I, x, out, seen)
    elif isinstance(v, list):
        out.append((v, list(v)))
        for x in v:
            snap(I, x, out, seen)
    elif isinstance(v, tuple):
        for x in v:
            snap(I, x, out, seen)
    elif isinstance(v, dict):
        out.append((v, dict(v)))
        for x in list(v.values()):
            snap(I, x, out, seen)
    elif isinstance(v, Arr):
        out.append((v, list(v.e)))
    return out


def changed(I, s):
    """first definite change of a snapshot, or None"""
    unk = None
    for v, old in s:
        if isinstance(v, Obj):
            new, what = v.attrs, lambda k: "%s.%s" % (v.cls.name, k)
        elif isinstance(v, dict):
            new, what = v, lambda k: "[%r]" % (k,)
        else:
            cur = list(v.e) if isinstance(v, Arr) else v
            if len(cur) != len(old):
                return "length of a list", None
            new, what = dict(enumerate(cur)), lambda k: "[%d]" % k
            old = dict(enumerate(old))
        for k, o in old.items():
            if k not in new:
                return what(k) + " removed", None
            n = new[k]
            if n is o:
                continue
            r = same(I, o, n)
            if r[0] is False:
                return "%s: %s -> %s" % (what(k), show(o), show(n)), None
            if r[0] is None:
                unk = what(k)
    return None, unk


def hoist(ex):
    """constructor calls among the arguments become named objects"""
    tree = ast.parse(ex, mode="eval")
    out = []

    class H(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Name) and f.id[:1].isupper() and f.id != "Angle":
                nm = "_a%d" % len(out)
                out.append((nm, ast.unparse(n), f.id))
                return ast.copy_location(ast.Name(nm, ast.Load()), n)
            return n

    t = ast.fix_missing_locations(H().visit(tree))
    return out, ast.unparse(t)


# statement-level scenarios: (name, setup, action, objects that must not change)
SETUP_IM = "im = Image(arr2, xmin=ix0, ymin=iy0, scale=scale)\nim2 = Image(im.array * 2.0, xmin=ix0, ymin=iy0, scale=scale)\nb = BoundsI(ix0, ix0, iy0, iy0)\nb2 = BoundsI(ix0, ix1, iy0, iy1)\n"
SETUP_PA = "p = PhotonArray(npt, x=pa_x, y=pa_y, flux=pa_f)\nq = PhotonArray(npt, x=pa_x2, y=pa_y2, flux=pa_f2)\nim = Image(arr2, xmin=ix0, ymin=iy0, scale=scale)\nrng = BaseDeviate(seed)\n"
FRAME = {
    "im += im2": (SETUP_IM, "im += im2", "im2"),
    "im -= im2": (SETUP_IM, "im -= im2", "im2"),
    "im *= im2": (SETUP_IM, "im *= im2", "im2"),
    "im /= im2": (SETUP_IM, "im /= im2", "im2"),
    "im.copyFrom(im2)": (SETUP_IM, "im.copyFrom(im2)", "im2"),
    "im.setSubImage(b, im2)": (SETUP_IM + "im3 = im2.subImage(b)\n", "im.setSubImage(b, im3)", "im3 b im2"),
    "im[b] = im3": (SETUP_IM + "im3 = im2.subImage(b)\n", "im[b] = im3", "im3 b im2"),
    "im.subImage(b)": (SETUP_IM, "r = im.subImage(b)", "im b"),
    "im.wrap(b)": (SETUP_IM, "r = im.wrap(b2)", "b2"),
    "im.resize(b)": (SETUP_IM, "im.resize(b2)", "b2"),
    "im.shift(pos)": (SETUP_IM + "d = PositionI(isx, isy)\n", "im.shift(d)", "d"),
    "im.setCenter(pos)": (SETUP_IM + "d = PositionI(isx, isy)\n", "im.setCenter(d)", "d"),
    "im.calculate_fft()": (SETUP_IM, "r = im.calculate_fft()", "im"),
    "im.copy()": (SETUP_IM, "r = im.copy()", "im"),
    "im + im2": (SETUP_IM, "r = (im + im2, im - im2, im * im2, im / im2)", "im im2"),
    "im.to_galsim": (SETUP_IM, "r = im.to_galsim()", "im"),
    "im.addNoise(n)": (SETUP_IM + "n = GaussianNoise(BaseDeviate(seed), sigma=nsig)\nn2 = VariableGaussianNoise(BaseDeviate(seed), Image(varr2, xmin=ix0, ymin=iy0))\nv = n2.var_image\nw = n.sigma\n", "im.addNoise(n)\nim.addNoise(n2)", "v w"),
    "p.addTo(im)": (SETUP_PA, "t = p.addTo(im)", "p"),
    "p.convolve(q)": (SETUP_PA, "p.convolve(q, rng)", "q"),
    "p.assignAt(i, q)": (SETUP_PA, "p.assignAt(ist, q)", "q"),
    "p.copyFrom(q)": (SETUP_PA, "p.copyFrom(q)", "q"),
    "sensor.accumulate": (SETUP_PA + "s = Sensor()\n", "r = s.accumulate(p, im)", "p"),
    "sensor.calculate_pixel_areas": (SETUP_PA + "s = Sensor()\n", "r = s.calculate_pixel_areas(im)", "im"),
    "makeFromImage": (SETUP_PA, "r = PhotonArray.makeFromImage(im, rng=rng)", "im"),
    "drawImage": (SETUP_IM + "o = Gaussian(sigma=sigma, flux=flux).shear(g1=g1, g2=g2)\nw = PixelScale(scale)\n", "o.drawImage(image=im, add_to_image=True, method='no_pixel', wcs=w, offset=PositionD(ox, oy))", "o w"),
    "drawImage(bounds)": (SETUP_IM + "o = Gaussian(sigma=sigma, flux=flux).shear(g1=g1, g2=g2)\nw = PixelScale(scale)\n", "r = o.drawImage(bounds=b2, method='no_pixel', wcs=w)", "o w b2"),
    "drawImage(phot)": (SETUP_IM + "o = Gaussian(sigma=sigma, flux=flux).shear(g1=g1, g2=g2)\nw = PixelScale(scale)\n", "o.drawImage(image=im, add_to_image=True, method='phot', wcs=w, n_photons=10, rng=BaseDeviate(seed))", "o w"),
    "drawImage(conv)": (SETUP_IM + "o1 = Gaussian(sigma=sigma, flux=flux)\no2 = Exponential(scale_radius=r0, flux=flux2)\no = Convolve(o1, o2)\n", "r = o.drawImage(nx=kx0, ny=ky0, scale=pyscale, method='fft')", "o o1 o2"),
    "drawKImage": (SETUP_IM + "o = Gaussian(sigma=sigma, flux=flux) + Exponential(scale_radius=r0, flux=flux2)\n", "r = o.drawKImage(nx=kx0, ny=ky0, scale=dk)", "o"),
    "Sum(list)": ("l = [Gaussian(sigma=sigma), Exponential(scale_radius=r0)]\n", "o = Sum(l, gsparams=GSParams(kvalue_accuracy=pykv))", "l"),
    "Convolution(list)": ("l = [Gaussian(sigma=sigma), Exponential(scale_radius=r0)]\n", "o = Convolution(l, gsparams=GSParams(kvalue_accuracy=pykv))", "l"),
    "Transformation(obj)": ("a = Gaussian(sigma=sigma)\nd = PositionD(ox, oy)\n", "o = Transformation(a, jac=[[ja, jb], [jc, jd]], offset=d, flux_ratio=fr, gsparams=GSParams(kvalue_accuracy=pykv))", "a d"),
    "Deconvolution(obj)": ("a = Gaussian(sigma=sigma)\n", "o = Deconvolution(a, gsparams=GSParams(kvalue_accuracy=pykv))", "a"),
    "InterpolatedImage(im)": (SETUP_IM, "o = InterpolatedImage(im, flux=flux, offset=PositionD(ox, oy), scale=iscale)\nr = (o.xValue(px, py), o.kValue(px, py), o.maxk)", "im"),
    "CelestialCoord(ra, dec)": ("a = Angle(ra, radians)\nd = Angle(dec, radians)\n", "c = CelestialCoord(a, d)\nr = c.distanceTo(c)", "a d"),
    "BoundsD(pos)": ("a = PositionD(px, py)\nd = PositionD(qx, qy)\n", "b = BoundsD(a, d)\nb2 = b + PositionD(sx, sy)\nb3 = b.shift(a)", "a d"),
    "GSParams.combine": ("a = GSParams(kvalue_accuracy=pykv)\nd = GSParams(kvalue_accuracy=pykv2)\nl = [a, d]\n", "g = GSParams.combine(l)\nh = a.withParams(kvalue_accuracy=pymaxk)", "a d l"),
    "wcs.withOrigin": ("w = JacobianWCS(dudx, dudy, dvdx, dvdy)\na = PositionD(px, py)\nd = PositionD(qx, qy)\n", "r = w.withOrigin(a, d)\nr2 = r.withOrigin(d, a)\nr3 = r.shiftOrigin(a)", "w a d"),
    "wcs.header": ("w = AffineTransform(dudx, dudy, dvdx, dvdy, origin=PositionD(x0, y0), world_origin=PositionD(u0, v0))\nh = FitsHeader()\nb = BoundsI(ix0, ix1, iy0, iy1)\n", "w.writeToFitsHeader(h, b)", "w b"),
    "dev from dev": ("d = BaseDeviate(seed)\n", "e = d.duplicate()\nx = e.raw()", "d"),
    "noise.copy(rng)": ("d = BaseDeviate(seed)\nn = GaussianNoise(d, sigma=nsig)\n", "m = n.copy(rng=BaseDeviate(seed2))\nm2 = n.withVariance(nvar)\nm3 = n * frac", "n"),
}
# (setup, query, action on another object): the query must not see the action
INDEP = {
    "InterpolatedImage keeps its image": (SETUP_IM + "o = InterpolatedImage(im, flux=flux)\n", "(o.xValue(px, py), o.image.array)", "im.fill(frac)"),
    "InterpolatedImage image origin": (SETUP_IM + "o = InterpolatedImage(im, flux=flux)\n", "(o.xValue(px, py), o.image.bounds)", "im.shift(isx, isy)"),
    "Sum keeps its list": ("l = [Gaussian(sigma=sigma), Exponential(scale_radius=r0)]\no = Sum(l)\n", "(o.flux, o.kValue(px, py))", "l.append(Gaussian(sigma=sigma9))"),
    "Convolution keeps its list": ("l = [Gaussian(sigma=sigma), Exponential(scale_radius=r0)]\no = Convolution(l)\n", "(o.flux, o.kValue(px, py))", "l.append(Gaussian(sigma=sigma9))"),
    "Image.copy": (SETUP_IM + "c = im.copy()\n", "c.array", "im.fill(frac)"),
    "Image.copy back": (SETUP_IM + "c = im.copy()\n", "(im.array, im.bounds)", "c += frac\nc.setCenter(isx, isy)"),
    "Image op result": (SETUP_IM + "c = im + frac\nd = im * 2.0\n", "(im.array, im.bounds, im.wcs)", "c += 1.0\nd.shift(isx, isy)\nd.wcs = PixelScale(dscale)"),
    "Image(Image)": (SETUP_IM + "c = Image(im)\n", "(im.array, im.bounds, im.wcs)", "c += 1.0\nc.shift(isx, isy)\nc.wcs = PixelScale(dscale)"),
    "Image.real": (SETUP_IM + "c = im.real\n", "(im.array, im.bounds)", "c += 1.0"),
    "subImage": (SETUP_IM + "c = im.subImage(b)\n", "(im.array, im.bounds)", "c += 1.0\nc.shift(isx, isy)"),
    "transpose": (SETUP_IM + "c = im.transpose()\nd = im.flip_lr()\ne = im.rot_cw()\n", "(im.array, im.bounds)", "c += 1.0\nc.shift(isx, isy)\nd += 1.0\ne += 1.0"),
    "duplicate": ("d = BaseDeviate(seed)\ne = d.duplicate()\n", "e.serialize()", "x = d.raw()"),
    "duplicate back": ("d = GaussianDeviate(seed)\ne = d.duplicate()\n", "d.serialize()", "x = e()"),
    "seeded deviates": ("d = GaussianDeviate(seed)\ne = GaussianDeviate(seed)\n", "d.serialize()", "x = e()"),
    "noise.copy(rng)": ("d = BaseDeviate(seed)\nn = GaussianNoise(d, sigma=nsig)\nm = n.copy(rng=BaseDeviate(seed2))\nim = Image(arr2)\n", "n.rng.serialize()", "im.addNoise(m)"),
    "var_image": ("v = Image(varr2, xmin=ix0, ymin=iy0)\nn = VariableGaussianNoise(BaseDeviate(seed), v)\n", "n.var_image.array", "v.fill(frac)"),
    "PhotonArray op": (SETUP_PA + "p.assignAt(ist, q)\n", "(p.x, p.flux)", "q.scaleFlux(frac)\nq.scaleXY(frac)"),
    "PhotonArray copyFrom": (SETUP_PA + "p.copyFrom(q)\n", "(p.x, p.flux)", "q.scaleFlux(frac)\nq.scaleXY(frac)"),
    "withFlux": ("a = Gaussian(sigma=sigma, flux=flux)\n", "(a.flux, a.kValue(px, py))", "b = a.withFlux(newflux)\nc = a.shear(g1=g1, g2=g2)\nd = a * frac\ne = a.withGSParams(kvalue_accuracy=pykv2)"),
    "original of transform": ("a = Gaussian(sigma=sigma, flux=flux)\nt = a.shear(g1=g1, g2=g2)\n", "(a.flux, a.kValue(px, py), a.gsparams)", "b = t.withFlux(newflux)\nc = t.shift(sx, sy)\nd = t.withGSParams(kvalue_accuracy=pykv2)"),
    "Sum withGSParams": ("a = Gaussian(sigma=sigma, flux=flux)\nt = a + Exponential(scale_radius=r0)\n", "(t.gsparams, t.obj_list[0].gsparams, t.flux)", "d = t.withGSParams(kvalue_accuracy=pykv2)\ne = t.withFlux(newflux)"),
    "Convolution withGSParams": ("a = Gaussian(sigma=sigma, flux=flux)\nt = Convolve(a, Exponential(scale_radius=r0))\n", "(t.gsparams, t.obj_list[0].gsparams, t.flux)", "d = t.withGSParams(kvalue_accuracy=pykv2)\ne = t.withFlux(newflux)"),
    "Interpolant withGSParams": ("a = Lanczos(4, conserve_dc=False)\n", "(a.gsparams, a.krange)", "d = a.withGSParams(kvalue_accuracy=pykv2)"),
}


def main():
    I = interp()
    R = Report(
        "P06",
        "after every public call that is not a documented mutator, every field reachable from the receiver and from the arguments holds the value it had before; after a mutator, every other argument does; "
        "a query on one object gives the same value before and after another, independently owned object is mutated",
        600,
        "Effect and ownership analysis: snapshot of the abstract heap reachable from receiver and arguments, compared after the call.",
    )
    items = []
    for cn, var, src in classes(I):
        for ex in api.API.get(cn, []):
            items.append(("call", cn, var, src, ex))
    for n in FRAME:
        items.append(("frame", n, None, None, None))
    for n in INDEP:
        items.append(("indep", n, None, None, None))
    items.sort(key=lambda t: t[1] not in ("Spergel", "InterpolatedImage"))
    parallel(R, items, one)
    return R.finish(I)


def one(I, R, kind, cn, var, src, ex):
    if kind == "call":
        name = "%s%s::%s" % (cn, "[%s]" % var if var else "", ex)
        args, ex2 = hoist(ex)

        def h(I):
            env = zoo.AtomEnv(I, False)
            o = zoo.eval_in(I, src, env)
            env["o"] = o
            watch = [("self", o)]
            for nm, e, f in args:
                env[nm] = zoo.eval_in(I, e, env)
                if f not in RNGS:
                    watch.append((e, env[nm]))
            snaps = [(w, snap(I, v)) for w, v in watch]
            a = catch(I, lambda: zoo.eval_in(I, ex2, env))
            return a[0], [(w,) + changed(I, s) for w, s in snaps]

    elif kind == "frame":
        name = "frame %s" % cn
        setup, action, keep = FRAME[cn]

        def h(I):
            env = zoo.AtomEnv(I, False)
            zoo.exec_in(I, setup, env)
            snaps = [(w, snap(I, env[w])) for w in keep.split()]
            a = catch(I, lambda: zoo.exec_in(I, action, env))
            return (a[0] if a[0] == "ok" else a), [(w,) + changed(I, s) for w, s in snaps]

    else:
        name = "independence: %s" % cn
        setup, query, action = INDEP[cn]

        def h(I):
            env = zoo.AtomEnv(I, False)
            zoo.exec_in(I, setup, env)
            a = zoo.eval_in(I, query, env)
            zoo.exec_in(I, action, env)
            b = zoo.eval_in(I, query, env)
            r = same(I, a, b)
            if r[0] is False:
                return "ok", [(query, "%s: %s -> %s" % (r[1], show(a), show(b)), None)]
            return "ok", [(query, None, None if r[0] else "%s not comparable" % r[1])]

    res = run(I, h, PATHCAP.get(cn, 8))
    outs = [r.res for r in res if r.ok]
    for r in res:
        if not r.ok:
            R.undec(name, r.res)
    if not outs:
        return
    if kind == "frame" and all(o[0] != "ok" for o in outs):
        R.undec(name, "%s" % (outs[0][0],))
        return
    bad = [o for o in outs if any(c for _, c, _ in o[1])]
    if bad and len(bad) == len(outs):
        w, c, _ = [x for x in bad[0][1] if x[1]][0]
        R.violate("modified", name, "%s changed: %s" % (w, c))
    elif bad:
        R.undec(name, "changed on some paths: %s" % ([x for x in bad[0][1] if x[1]][0],))
    elif any(u for o in outs for _, _, u in o[1]):
        R.undec(name, "unknown: %s" % [u for o in outs for _, _, u in o[1] if u][:1])
    else:
        R.hold(name)
