"""Public calls on abstract instances: what a user of the package can do with
an object `o`.  Expressions are evaluated in the namespace of jax_galsim; free
names are atoms.  `MUT` lists the documented mutators (statements)."""

ATOMS = {
    "px": ("jax", 0, "f"), "py": ("jax", 0, "f"), "qx": ("jax", 0, "f"), "qy": ("jax", 0, "f"),
    "xs": ("jax", 1, "f"), "ys": ("jax", 1, "f"), "us": ("jax", 1, "f"), "vs": ("jax", 1, "f"),
    "nphot": ("pyi", 0, "i"), "isx": ("pyi", 0, "i"), "isy": ("pyi", 0, "i"), "kx0": ("pyi", 0, "i"), "kx1": ("pyi", 0, "i"), "ky0": ("pyi", 0, "i"), "ky1": ("pyi", 0, "i"),
    "iborder": ("pyi", 0, "i"), "iborder2": ("pyi", 0, "i"),
    "seed2": ("pyi", 0, "i"), "seed3": ("pyi", 0, "i"), "mvals": ("jax", 1, "f"),
    "noisy": ("jax", 2, "f"), "pykv2": ("pyf", 0, "f"), "dk": ("pyf", 0, "f"), "gt": ("jax", 0, "f"),
}

GSOBJECT = [
    "o.flux", "o.gsparams", "o.maxk", "o.stepk", "o.nyquist_scale", "o.has_hard_edges", "o.is_axisymmetric",
    "o.is_analytic_x", "o.is_analytic_k", "o.centroid", "o.positive_flux", "o.negative_flux", "o.max_sb",
    "o.kValue(px, py)", "o.kValue(PositionD(px, py))",
    "o.withFlux(newflux)", "o.withScaledFlux(frac)", "o * frac", "frac * o", "o / frac", "-o",
    "o.expand(mag)", "o.dilate(mag)", "o.magnify(mu)", "o.shear(g1=sg1, g2=sg2)", "o.lens(sg1, sg2, mu)",
    "o.rotate(Angle(rot, radians))", "o.transform(ta, tb, tc, td)", "o.shift(sx, sy)", "o.shift(PositionD(sx, sy))",
    "o.withGSParams(kvalue_accuracy=pykv2)", "o.withGSParams(GSParams(kvalue_accuracy=pykv2))",
    "o + Gaussian(sigma=sigma9, flux=flux9)",
    "o.drawKImage(scale=dk, nx=kx1, ny=ky1)",
]
XVAL = ["o.xValue(px, py)", "o.xValue(PositionD(px, py))"]
SHOOT = ["o.shoot(nphot, BaseDeviate(seed2))", "o.makePhot(n_photons=10.0, rng=BaseDeviate(seed2))"]
DRAW = ["o.drawImage(nx=kx0, ny=ky0, scale=dscale, method='no_pixel')", "o.drawImage(nx=kx0, ny=ky0, scale=dscale, method='fft')"]

INTERP = ["o.gsparams", "o.xval(px)", "o.kval(px)", "o.xval(xs)", "o.kval(xs)", "o.xrange", "o.ixrange", "o.krange", "o.unit_integrals()",
          "o.positive_flux", "o.negative_flux", "o.urange()", "o.withGSParams(kvalue_accuracy=pykv2)"]
WCS_ALL = ["o.toWorld(PositionD(px, py))", "o.toImage(PositionD(qx, qy))", "o.withOrigin(PositionD(x9, y9), PositionD(u9, v9))"]
WCS_UNI = ["o.local(PositionD(px, py))", "o.jacobian(PositionD(px, py))", "o.affine(PositionD(px, py))", "o.toWorld(xs, ys)", "o.toImage(us, vs)", "o.pixelArea(PositionD(px, py))",
           "o.toWorld(Gaussian(sigma=sigma9, flux=flux9), image_pos=PositionD(px, py))", "o.toImage(Gaussian(sigma=sigma9, flux=flux9), image_pos=PositionD(px, py))",
           "o.toWorld(Shear(g1=sg1, g2=sg2), image_pos=PositionD(px, py))", "o.toImage(Shear(g1=sg1, g2=sg2), image_pos=PositionD(px, py))", "o.isPixelScale()", "o.isUniform()", "o.isLocal()",
           "o.minLinearScale(PositionD(px, py))", "o.maxLinearScale(PositionD(px, py))", "o.shiftOrigin(PositionD(x9, y9))"]
WCS_LOCAL = ["o.inverse()", "o.jacobian()", "o.affine()"]
DEV = ["o.duplicate()"]
BOUNDS = ["o.xmin", "o.xmax", "o.ymin", "o.ymax", "o.isDefined()", "o.area()", "o.withBorder(border)", "o.withBorder(border, border2)", "o.origin", "o.center", "o.true_center", "o.includes(px, py)",
          "o.includes(PositionD(px, py))", "o.shift(PositionD(sx, sy))", "o.expand(mag)", "o.expand(mag, mag2)", "o + PositionD(px, py)", "o + BoundsD(cx0, cx1, cy0, cy1)",
          "o.getXMin()", "o.getXMax()", "o.getYMin()", "o.getYMax()"]

API = {
    "Gaussian": GSOBJECT + XVAL + SHOOT + ["o.sigma", "o.half_light_radius", "o.fwhm"],
    "Exponential": GSOBJECT + XVAL + SHOOT + ["o.scale_radius", "o.half_light_radius"],
    "DeltaFunction": GSOBJECT + SHOOT,
    "Box": GSOBJECT + XVAL + SHOOT + ["o.width", "o.height"],
    "Pixel": GSOBJECT + XVAL + SHOOT + ["o.width", "o.height", "o.scale"],
    "Moffat": GSOBJECT + XVAL + SHOOT + ["o.beta", "o.trunc", "o.scale_radius", "o.half_light_radius", "o.fwhm"],
    "Spergel": GSOBJECT + XVAL + ["o.nu", "o.scale_radius", "o.half_light_radius", "o.shoot(nphot, BaseDeviate(seed2))"],
    "Sum": GSOBJECT + XVAL + ["o.obj_list", "o.shoot(nphot, BaseDeviate(seed2))"],
    "Convolution": GSOBJECT + ["o.obj_list", "o.real_space", "o.shoot(nphot, BaseDeviate(seed2))"],
    "Deconvolution": [e for e in GSOBJECT if e not in ("o.positive_flux", "o.negative_flux", "o.max_sb")] + ["o.orig_obj"],
    "Transformation": GSOBJECT + XVAL + SHOOT + ["o.original", "o.jac", "o.offset", "o.flux_ratio"],
    "InterpolatedImage": GSOBJECT + XVAL + ["o.x_interpolant", "o.k_interpolant", "o.image", "o.shoot(nphot, BaseDeviate(seed2))"],
    "PositionD": ["o.x", "o.y", "o + PositionD(px, py)", "o - PositionD(px, py)", "o * mag", "mag * o", "o / mag", "-o", "o.shear(Shear(g1=sg1, g2=sg2))", "o.round()"],
    "PositionI": ["o.x", "o.y", "o + PositionI(isx, isy)", "o - PositionI(isx, isy)", "-o"],
    "BoundsD": BOUNDS,
    "BoundsI": ["o.xmin", "o.xmax", "o.ymin", "o.ymax", "o.isDefined()", "o.area()", "o.withBorder(iborder)", "o.origin", "o.center", "o.true_center", "o.shift(PositionI(isx, isy))",
                "o.includes(PositionI(isx, isy))", "o.numpyShape()", "o.isStatic()"],
    "Angle": ["o.rad", "o.deg", "o + Angle(th9, radians)", "o - Angle(th9, radians)", "o * mag", "o / mag", "-o", "o / radians", "o / degrees", "o.wrap()", "o.sin()", "o.cos()", "o.tan()", "o.sincos()"],
    "AngleUnit": ["o.value", "mag * o"],
    "Shear": ["o.g1", "o.g2", "o.g", "o.beta", "o.shear", "o.e1", "o.e2", "o.e", "o.esq", "o.eta1", "o.eta2", "o.eta", "o.q", "-o", "o + Shear(g1=sg1, g2=sg2)", "o - Shear(g1=sg1, g2=sg2)",
              "o.getMatrix()", "o.rotationWith(Shear(g1=sg1, g2=sg2))"],
    "CelestialCoord": ["o.ra", "o.dec", "o.rad", "o.get_xyz()", "o.normal()", "o.distanceTo(CelestialCoord(Angle(ra9, radians), Angle(dec9, radians)))",
                       "o.angleBetween(CelestialCoord(Angle(ra9, radians), Angle(dec9, radians)), CelestialCoord(Angle(ra8, radians), Angle(dec8, radians)))",
                       "o.area(CelestialCoord(Angle(ra9, radians), Angle(dec9, radians)), CelestialCoord(Angle(ra8, radians), Angle(dec8, radians)))",
                       "o.greatCirclePoint(CelestialCoord(Angle(ra9, radians), Angle(dec9, radians)), Angle(th9, radians))",
                       "o.project(CelestialCoord(Angle(ra9, radians), Angle(dec9, radians)))", "o.project(CelestialCoord(Angle(ra9, radians), Angle(dec9, radians)), projection='postel')",
                       "o.project(CelestialCoord(Angle(ra9, radians), Angle(dec9, radians)), projection='lambert')", "o.project(CelestialCoord(Angle(ra9, radians), Angle(dec9, radians)), projection='stereographic')",
                       "o.deproject(Angle(pu, radians), Angle(pv, radians))", "o.deproject(Angle(pu, radians), Angle(pv, radians), projection='postel')",
                       "o.deproject(Angle(pu, radians), Angle(pv, radians), projection='lambert')", "o.deproject(Angle(pu, radians), Angle(pv, radians), projection='stereographic')",
                       "o.jac_deproject(Angle(pu, radians), Angle(pv, radians))", "o.galactic()", "o.precess(2000., 1950.)"],
    "PixelScale": WCS_ALL + WCS_UNI + WCS_LOCAL + ["o.scale"],
    "ShearWCS": WCS_ALL + WCS_UNI + WCS_LOCAL + ["o.scale", "o.shear"],
    "JacobianWCS": WCS_ALL + WCS_UNI + WCS_LOCAL + ["o.dudx", "o.dudy", "o.dvdx", "o.dvdy", "o.getMatrix()", "o.getDecomposition()"],
    "OffsetWCS": WCS_ALL + WCS_UNI + ["o.inverse()", "o.scale", "o.origin", "o.world_origin"],
    "OffsetShearWCS": WCS_ALL + WCS_UNI + ["o.inverse()", "o.scale", "o.shear", "o.origin", "o.world_origin"],
    "AffineTransform": WCS_ALL + WCS_UNI + ["o.inverse()", "o.dudx", "o.dudy", "o.dvdx", "o.dvdy", "o.origin", "o.world_origin"],
    "GSFitsWCS": ["o.toWorld(PositionD(px, py))", "o.local(PositionD(px, py))", "o.center", "o.crpix", "o.cd"],
    "Image": ["o.array", "o.bounds", "o.wcs", "o.dtype", "o.nrow", "o.ncol", "o.isconst", "o.iscomplex", "o.isinteger", "o.xmin", "o.ymin", "o.xmax", "o.ymax", "o.outer_bounds", "o.real", "o.imag", "o.conjugate",
              "o.copy()", "o.get_pixel_centers()", "o.center", "o.true_center", "o.origin", "o.transpose()", "o.flip_lr()", "o.flip_ud()", "o.rot_cw()", "o.rot_ccw()", "o.rot_180()",
              "o.subImage(BoundsI(ix0, ix0, iy0, iy0))", "o.shift(PositionI(isx, isy))" if False else "o.view()",
              "o + frac", "o - frac", "o * frac", "o / frac", "o ** 2", "-o" if False else "o + Image(arr2b, bounds=o.bounds)" if False else "o * 2.0", "o.getValue(ix0, iy0)", "o(ix0, iy0)", "o.added_flux", "o.photons"],
    "UniformDeviate": DEV, "BaseDeviate": DEV,
    "GaussianDeviate": DEV + ["o.mean", "o.sigma"], "BinomialDeviate": DEV + ["o.n", "o.p"], "PoissonDeviate": DEV + ["o.mean"],
    "WeibullDeviate": DEV + ["o.a", "o.b"], "GammaDeviate": DEV + ["o.k", "o.theta"], "Chi2Deviate": DEV + ["o.n"],
    "GaussianNoise": ["o.sigma", "o.rng", "o.getVariance()", "o.withVariance(nvar)", "o.withScaledVariance(nratio)", "o * nratio", "o / nratio", "o.copy()"],
    "PoissonNoise": ["o.sky_level", "o.rng", "o.getVariance()", "o.withVariance(nvar)", "o.withScaledVariance(nratio)", "o * nratio", "o / nratio", "o.copy()"],
    "CCDNoise": ["o.sky_level", "o.gain", "o.read_noise", "o.rng", "o.getVariance()", "o.withVariance(nvar)", "o.withScaledVariance(nratio)", "o * nratio", "o / nratio", "o.copy()"],
    "DeviateNoise": ["o.rng", "o.copy()"],
    "VariableGaussianNoise": ["o.rng", "o.var_image", "o.copy()"],
    "PhotonArray": ["o.x", "o.y", "o.flux", "o.dxdz", "o.dydz", "o.wavelength", "o.pupil_u", "o.pupil_v", "o.time", "o.size()", "len(o)", "o.hasAllocatedAngles()", "o.hasAllocatedWavelengths()",
                    "o.hasAllocatedPupil()", "o.hasAllocatedTimes()", "o.isCorrelated()", "o.getTotalFlux()"],
    "Sensor": [],
    "GSParams": ["o.folding_threshold", "o.maxk_threshold", "o.kvalue_accuracy", "o.xvalue_accuracy", "o.minimum_fft_size", "o.maximum_fft_size", "o.stepk_minimum_hlr", "o.table_spacing", "o.shoot_accuracy",
                 "o.withParams(kvalue_accuracy=pykv2)", "GSParams.combine([o, GSParams(kvalue_accuracy=pykv2)])"],
}
for _n in ("Delta", "Nearest", "SincInterpolant", "Linear", "Cubic", "Quintic"):
    API[_n] = list(INTERP)
API["Lanczos"] = INTERP + ["o.n", "o.conserve_dc"]

GP = "GSParams(minimum_fft_size=128, maximum_fft_size=128)"
# multi-step uses of the package: statements over abstract inputs, result in `r`
_PROF = {
    "gauss": "Gaussian(sigma=sigma, flux=flux, gsparams=%s)" % GP,
    "exp": "Exponential(scale_radius=r0, flux=flux, gsparams=%s)" % GP,
    "moffat": "Moffat(beta=beta, scale_radius=r0, flux=flux, gsparams=%s)" % GP,
    "sum": "Gaussian(sigma=sigma, flux=flux, gsparams={0}) + Exponential(scale_radius=r0, flux=flux2, gsparams={0})".format(GP),
    "conv": "Convolve(Gaussian(sigma=sigma, flux=flux, gsparams={0}), Exponential(scale_radius=r0, flux=flux2, gsparams={0}))".format(GP),
    "trans": "Gaussian(sigma=sigma, flux=flux, gsparams=%s).shear(g1=sg1, g2=sg2).shift(sx, sy) * frac" % GP,
    "box": "Box(width=width, height=height, flux=flux, gsparams=%s)" % GP,
}
SCEN = {}
for _p, _e in _PROF.items():
    SCEN["draw:fft:" + _p] = "o = %s\nr = o.drawImage(nx=kx0, ny=ky0, scale=pyscale, method='fft').array" % _e
    SCEN["draw:auto:" + _p] = "o = %s\nr = o.drawImage(nx=kx0, ny=ky0, scale=pyscale).array" % _e
    SCEN["draw:no_pixel:" + _p] = "o = %s\nr = o.drawImage(nx=kx0, ny=ky0, scale=pyscale, method='no_pixel', offset=(ox, oy)).array" % _e
    SCEN["draw:sb:" + _p] = "o = %s\nr = o.drawImage(nx=kx0, ny=ky0, scale=pyscale, method='sb').array" % _e
    SCEN["draw:k:" + _p] = "o = %s\nr = o.drawKImage(nx=kx0, ny=ky0, scale=dk).array" % _e
    SCEN["draw:image:" + _p] = "o = %s\nim = Image(arr2, scale=pyscale)\no.drawImage(image=im, add_to_image=True)\nr = im.array" % _e
    SCEN["draw:bounds:" + _p] = "o = %s\nr = o.drawImage(bounds=BoundsI(ix0, ix1, iy0, iy1), scale=pyscale, center=PositionD(px, py)).array" % _e
for _p in ("gauss", "exp", "moffat", "trans", "box", "conv", "sum"):
    SCEN["draw:phot:" + _p] = "o = %s\nrng = BaseDeviate(seed)\nr = o.drawImage(nx=kx0, ny=ky0, scale=pyscale, method='phot', n_photons=10, rng=rng).array" % _PROF[_p]
for _w in ("JacobianWCS(dudx, dudy, dvdx, dvdy)", "AffineTransform(dudx, dudy, dvdx, dvdy, origin=PositionD(x0, y0), world_origin=PositionD(u0, v0))", "ShearWCS(pyscale, Shear(g1=g1, g2=g2))", "PixelScale(pyscale)", "OffsetWCS(pyscale, origin=PositionD(x0, y0))"):
    SCEN["draw:wcs:" + _w.split("(")[0]] = "o = %s\nr = o.drawImage(nx=kx0, ny=ky0, wcs=%s).array" % (_PROF["gauss"], _w)
SCEN["draw:area"] = "o = %s\nr = o.drawImage(nx=kx0, ny=ky0, scale=pyscale, area=frac, exptime=fr, gain=gain).array" % _PROF["gauss"]
SCEN["draw:deconv"] = "o = Convolve(Deconvolve({0}), {1})\nr = o.drawImage(nx=kx0, ny=ky0, scale=pyscale, method='no_pixel').array".format(_PROF["gauss"], _PROF["exp"])
SCEN["draw:ii"] = "o = InterpolatedImage(Image(arr2, scale=scale, xmin=ix0, ymin=iy0), flux=flux, gsparams=%s)\nr = o.drawImage(nx=kx0, ny=ky0, scale=pyscale).array" % GP
for _n, _e in {
    "GaussianNoise": "GaussianNoise(rng, sigma=nsig)", "PoissonNoise": "PoissonNoise(rng, sky_level=sky)", "CCDNoise": "CCDNoise(rng, sky_level=sky, gain=gain, read_noise=rn)",
    "DeviateNoise": "DeviateNoise(GaussianDeviate(rng, mean=dmean, sigma=dsigma))", "VariableGaussianNoise": "VariableGaussianNoise(rng, Image(varr2, xmin=ix0, ymin=iy0))",
}.items():
    SCEN["noise:" + _n] = "rng = BaseDeviate(seed)\nn = %s\nim = Image(%s, xmin=ix0, ymin=iy0)\nim.addNoise(n)\nr = im.array" % (_e, "arr2" if _n != "VariableGaussianNoise" else "varr2")
SCEN["noise:snr"] = "rng = BaseDeviate(seed)\nim = Image(arr2)\nr = im.addNoiseSNR(GaussianNoise(rng), snr=frac)"
for _n, _e in {
    "UniformDeviate": "", "GaussianDeviate": ", mean=dmean, sigma=dsigma", "BinomialDeviate": ", N=dn, p=dp", "PoissonDeviate": ", mean=dmean", "WeibullDeviate": ", a=da, b=db", "GammaDeviate": ", k=dk9, theta=dtheta", "Chi2Deviate": ", n=dn",
}.items():
    SCEN["deviate:call:" + _n] = "d = %s(seed%s)\nr = d()" % (_n, _e)
    SCEN["deviate:generate:" + _n] = "d = %s(seed%s)\nr = d.generate(xs)" % (_n, _e)
    SCEN["deviate:add:" + _n] = "d = %s(seed%s)\nr = d.add_generate(xs)" % (_n, _e)
SCEN["deviate:expect:GaussianDeviate"] = "d = GaussianDeviate(seed)\nr = d.generate_from_variance(xs)"
SCEN["deviate:expect:PoissonDeviate"] = "d = PoissonDeviate(seed)\nr = d.generate_from_expectation(xs)"
SCEN["deviate:raw"] = "d = BaseDeviate(seed)\nr = d.raw()"
SCEN["photon:addTo"] = "p = PhotonArray(npt, x=pa_x, y=pa_y, flux=pa_f)\nim = Image(arr2, xmin=ix0, ymin=iy0, scale=scale)\nt = p.addTo(im)\nr = (im.array, t)"
SCEN["photon:scaleFlux"] = "p = PhotonArray(npt, x=pa_x, y=pa_y, flux=pa_f)\np.scaleFlux(frac)\nr = p.flux"
SCEN["photon:scaleXY"] = "p = PhotonArray(npt, x=pa_x, y=pa_y, flux=pa_f)\np.scaleXY(frac)\nr = (p.x, p.y)"
SCEN["photon:total"] = "p = PhotonArray(npt, x=pa_x, y=pa_y, flux=pa_f)\np.setTotalFlux(newflux)\nr = p.flux"
SCEN["photon:assignAt"] = "p = PhotonArray(npt, x=pa_x, y=pa_y, flux=pa_f)\nq = PhotonArray(npt2, x=pa_x2, y=pa_y2, flux=pa_f2)\np.assignAt(ist, q)\nr = (p.x, p.flux)"
SCEN["image:setCenter"] = "im = Image(arr2, xmin=ix0, ymin=iy0, scale=scale)\nim.setCenter(isx, isy)\nim.shift(isx, isy)\nim.setOrigin(isx, isy)\nr = (im.array, im.xmin)"
SCEN["image:setValue"] = "im = Image(arr2, xmin=ix0, ymin=iy0, scale=scale)\nim.setValue(ix0, iy0, frac)\nim.addValue(ix0, iy0, frac)\nr = im.array"
SCEN["image:fill"] = "im = Image(arr2, xmin=ix0, ymin=iy0, scale=scale)\nim.fill(frac)\nim += frac\nim *= frac\nim -= frac\nim /= frac\nim **= 2\nr = im.array"
SCEN["image:invertSelf"] = "im = Image(arr2, xmin=ix0, ymin=iy0, scale=scale)\nim.invertSelf()\nim.replaceNegative(0.0)\nr = im.array"
SCEN["image:copyFrom"] = "im = Image(arr2, xmin=ix0, ymin=iy0, scale=scale)\nim2 = Image(im.array * 2.0, xmin=ix0, ymin=iy0)\nim.copyFrom(im2)\nim += im2\nr = im.array"
SCEN["image:setSubImage"] = "im = Image(arr2, xmin=ix0, ymin=iy0, scale=scale)\nb = BoundsI(ix0, ix0, iy0, iy0)\nim[b] = im[b] * 2.0\nr = im.array"
SCEN["image:getitem"] = "im = Image(arr2, xmin=ix0, ymin=iy0, scale=scale)\nr = (im[ix0, iy0], im(ix0, iy0), im.getValue(ix0, iy0))"
SCEN["image:fft"] = "im = Image(arr2, xmin=ix0, ymin=iy0, scale=pyscale)\nr = im.calculate_fft().array"
SCEN["image:wrap"] = "im = Image(arr2, xmin=ix0, ymin=iy0, scale=scale)\nr = im.wrap(BoundsI(ix0, ix1, iy0, iy1)).array"
SCEN["bounds:plus"] = "b = BoundsD(bx0, bx1, by0, by1)\nr = b + BoundsD(cx0, cx1, cy0, cy1)"
SCEN["bounds:positions"] = "b = BoundsD(PositionD(px, py), PositionD(sx, sy))\nr = (b.area(), b.includes(px, py), b.center)"
SCEN["bounds:and"] = "b = BoundsD(bx0, bx1, by0, by1)\nr = b & BoundsD(cx0, cx1, cy0, cy1)"
for _k in ("g1=g1, g2=g2", "e1=e1, e2=e2", "eta1=eta1, eta2=eta2", "g=gmag, beta=Angle(theta, radians)", "e=gmag, beta=Angle(theta, radians)", "eta=gmag, beta=Angle(theta, radians)", "q=qq, beta=Angle(theta, radians)"):
    SCEN["shear:" + _k.split(",")[0]] = "s = Shear(%s)\nr = (s.g1, s.g2)" % _k
for _k in ("Gaussian(half_light_radius=hlr)", "Gaussian(fwhm=fwhm)", "Exponential(half_light_radius=hlr)", "Moffat(beta=beta, half_light_radius=hlr)", "Moffat(beta=beta, fwhm=fwhm)", "Spergel(nu=nu, half_light_radius=hlr)"):
    SCEN["size:" + _k] = "o = %s\nr = (o.half_light_radius, o.kValue(px, py), o.maxk)" % _k
for _k in ("bulge", "halo"):
    pass
ATOMS.update({
    "pyscale": ("pyf", 0, "f"), "npt2": ("pyi", 0, "i"), "ist": ("pyi", 0, "i"), "pa_x2": ("jax", 1, "f"), "pa_y2": ("jax", 1, "f"), "pa_f2": ("jax", 1, "f"),
})
