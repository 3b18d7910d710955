P(
    "P01",
    "A pytree round trip changes nothing a user can see",
    "For every object type registered with JAX and every instance of it, flattening the object and rebuilding it from the result never fails, and every public query, conversion and operation gives the same result (or the same error) on the rebuilt object as on the original.",
    ["inputs", "programs"],
    "all registered types, all parameter values and option combinations, all public calls",
    "Tests rebuild a few instances per type and compare with ==; an attribute that is dropped, defaulted or re-derived on rebuild only shows for particular options and queries.",
    ["gsobject.py", "noise.py", "random.py", "wcs.py", "fitswcs.py", "image.py", "bounds.py", "photon_array.py", "transform.py", "interpolatedimage.py", "core/utils.py"],
    "tree_flatten/tree_unflatten of every class; the result of every public call is compared on the original and the rebuilt abstract object",
    AI + "; equality of results by global value numbering and term fingerprints",
    "Decides the round trip for every registered class on abstract instances with symbolic parameters, for all calls listed in sa/api.py." + TRUST,
)
P(
    "P02",
    "Parameters travel as traced leaves and rebuilt objects hold no stale values",
    "Every numeric parameter of an object that may be an array appears among its traced pytree leaves and never in the static part, and an object rebuilt with fresh leaf values behaves as if it had been constructed with those values: no result still depends on the old ones. Flattening the rebuilt object gives back exactly the leaves it was built from.",
    ["inputs", "programs"],
    "all registered types, all leaf values substituted by jit, vmap or grad",
    "A cached or static copy of a parameter only shows when an object crosses a transformation boundary with different values, which tests do for a handful of profiles.",
    ["gsobject.py", "noise.py", "random.py", "wcs.py", "fitswcs.py", "image.py", "bounds.py", "transform.py", "sum.py", "convolve.py", "interpolatedimage.py", "shear.py", "angle.py", "celestial.py"],
    "tree_flatten children/aux; dependence of every public result on the leaves after rebuilding with fresh symbols",
    AI + "; dependency (taint) domain over pytree leaves",
    "Dependency analysis of rebuilt objects: a public result that depends on a value of the original object is a violation; static data that depends on an array-valued parameter is a violation." + TRUST,
)
P(
    "P03",
    "Equality and hashing agree",
    "Two objects built from equal inputs compare equal and have equal hashes, whether each parameter is given as a Python number, a NumPy value or a JAX array. Objects that differ in any parameter, option or settings object that affects their behaviour do not compare equal. Objects documented as hashable can be hashed for every supported input kind.",
    ["inputs"],
    "all public value types, all parameter kinds, all single-parameter differences",
    "Tests compare a few hand-written instances; a parameter left out of __eq__ or formatted differently in __hash__ only shows for the pair that differs in exactly that parameter.",
    ["gsobject.py", "gaussian.py", "moffat.py", "spergel.py", "transform.py", "sum.py", "convolve.py", "wcs.py", "fitswcs.py", "bounds.py", "position.py", "angle.py", "shear.py", "celestial.py", "image.py", "noise.py", "gsparams.py", "interpolant.py"],
    "__eq__ and __hash__ of every public value class, compared over instances that share or differ in one parameter",
    AI + "; equality by value numbering",
    "For every class: equal-input pairs (also across input kinds) must be equal with equal hashes, single-parameter differences must make __eq__ false on every path." + TRUST,
)
P(
    "P04",
    "repr of an object evaluates back to an equal object",
    "For every public value type and every instance of it, including parameters given as JAX arrays, repr() is a Python expression over the public namespace, and evaluating it gives an object equal to the original. The text never contains the raw representation of a JAX array.",
    ["inputs"],
    "all public value types and option combinations, parameters as numbers or arrays",
    "Round trips of repr are tested for a few instances; an argument that is omitted or printed in the wrong slot shows only when that option differs from its default.",
    ["gsobject.py", "transform.py", "sum.py", "convolve.py", "wcs.py", "fitswcs.py", "bounds.py", "noise.py", "random.py", "interpolant.py", "interpolatedimage.py", "image.py", "shear.py", "celestial.py", "angle.py"],
    "__repr__ evaluated to a template whose holes are the formatted values; the template is parsed and evaluated abstractly",
    AI + " of __repr__ to a string template, evaluated back in the same domain",
    "Decides the repr round trip for every public class on abstract instances." + TRUST,
)
P(
    "P05",
    "The API works under tracing: no call needs a concrete parameter value",
    "Objects can be built inside, and passed into, jit, vmap and grad with every array-valued parameter traced, and every public query, operation and drawing pipeline of fixed size then runs without needing the concrete value of a traced parameter. "
    "Only what is documented as static (array sizes, image bounds given as Python ints, FFT sizes, GSParams, the Moffat slope, seeds, the pixel scale that fixes a drawing grid) must be concrete.",
    ["programs", "inputs"],
    "all public classes, calls and drawing scenarios in sa/api.py, all parameters traced",
    "A Python branch, float() or numpy call on a traced value only fails when that particular call is traced with that particular argument; tests trace a few dozen combinations.",
    ["gsobject.py", "image.py", "bounds.py", "wcs.py", "noise.py", "random.py", "photon_array.py", "shear.py", "celestial.py", "convolve.py", "sum.py", "core/draw.py", "core/utils.py"],
    "binding-time analysis of every public call: bool/int/float/index/hash/numpy sinks reached by traced values on every path",
    AI + " with a binding-time (taint) domain: traced values must not reach a sink that needs a concrete one",
    "Every public call in sa/api.py and every drawing/noise/photon scenario is interpreted twice, with the object built inside the traced function and with the object passed into it. Known findings: BinomialDeviate, BoundsD & BoundsD, Transformation.is_axisymmetric, Image.getValue with an array origin." + TRUST,
)
P(
    "P06",
    "Calls leave their receiver and arguments untouched",
    "No public query, operator or conversion changes its receiver or any argument: only the documented mutators (in-place image operators, set*/fill/shift/addNoise/addTo/applyTo, deviate draws, photon setters) modify state, and they modify only what they document. An object built from another object, or returned by a call, does not change when the documented mutators are later applied to the other one, unless the sharing is documented (views, shared random state).",
    ["inputs", "histories"],
    "all public classes, all calls in sa/api.py, all mutators applied afterwards",
    "Aliasing and hidden writes only show when the other object is looked at afterwards; tests rarely look at inputs again.",
    ["image.py", "photon_array.py", "noise.py", "random.py", "gsobject.py", "wcs.py", "fitswcs.py", "bounds.py", "position.py", "shear.py", "transform.py", "sum.py", "convolve.py", "interpolatedimage.py", "core/draw.py"],
    "effect analysis: every field reachable from the receiver and the arguments before and after each public call; aliasing of returned objects under the mutators",
    AI + " with an effect/ownership domain: snapshots of every reachable field compared by value numbering",
    "Decides absence of writes to receivers and arguments, and of undocumented sharing, for every call listed in sa/api.py." + TRUST,
)

LAW = AI + "; both sides of each law are interpreted on every path and compared by value numbering and arithmetic fingerprints of their terms"
P(
    "P13",
    "Euclidean WCS obey the laws of affine maps",
    "For every Euclidean WCS class and all parameter values, toWorld is the affine map given by the stored matrix, origin and world origin, and toImage is its exact inverse, for positions, scalars and arrays. "
    "local, jacobian, affine, shiftOrigin, withOrigin and inverse describe that same map, and pixelArea, minLinearScale and maxLinearScale are its determinant and singular values. "
    "Profiles and shears converted to world coordinates and back are unchanged, and flux_ratio and offset of profileToWorld/profileToImage apply exactly once.",
    ["inputs"],
    "all Euclidean WCS classes, all matrices, origins, positions, profiles",
    "Tests compare a few WCS objects with special values; a sign or transposition confined to a rarely used argument (world_pos, world_origin, arrays) is invisible for them.",
    ["wcs.py", "transform.py", "shear.py", "position.py"],
    "each WCS class's _u/_v/_x/_y, _local, _newOrigin, _profileTo*, getDecomposition compared with the affine map of its constructor arguments",
    LAW,
    "Decides about 320 laws for symbolic parameters." + TRUST,
)
P(
    "P14",
    "Bounds and positions obey the arithmetic of rectangles and vectors",
    "For all bounds and positions, in every construction form, the corners, sizes, area, centers, origin, array shape, borders, shifts, expansion, union, intersection and inclusion equal their definitions on (pixel) rectangles. "
    "Undefined bounds are neutral for + and absorbing for &, and inclusion in them is false. "
    "Positions add, subtract, scale, negate, round and shear componentwise, with integers staying integer.",
    ["inputs"],
    "all bounds (float, integer, array-valued, undefined) and positions",
    "Tests use a handful of small integers; the even/odd center rule, undefined operands and array-valued bounds need values outside that handful.",
    ["bounds.py", "position.py"],
    "constructors, properties and operators of Bounds/BoundsD/BoundsI/Position*",
    LAW,
    "Decides about 165 definitions on symbolic bounds and positions." + TRUST,
)
P(
    "P25",
    "Profiles evaluate their closed forms with consistent size parameters",
    "For all parameter values, xValue and kValue of the analytic profiles are their documented closed forms, kValue at the origin is the flux, and the flux, centroid, maximum surface brightness, positive and negative flux, maxk and stepk follow from the same parameters and GSParams. "
    "Every alternative size argument (half_light_radius, fwhm, scale_radius, sigma) builds the same profile as the equivalent basic one and reads back unchanged. "
    "Default flux is 1.",
    ["inputs"],
    "all analytic profiles, all sizes, fluxes, slopes and gsparams",
    "Numerical comparisons with GalSim sample a few sizes with default gsparams; a dropped flux factor in one branch or an accuracy parameter that is ignored needs a non-default value.",
    ["gaussian.py", "exponential.py", "moffat.py", "spergel.py", "box.py", "deltafunction.py", "gsobject.py"],
    "_xValue, _kValue, _maxk, _stepk, _max_sb and the size properties of each profile class",
    LAW,
    "Decides about 245 closed-form laws, the Spergel's by its Bessel function (decided by P33); the k-space form of the Moffat is compared only for its scaling." + TRUST,
)
P(
    "P26",
    "Sums, convolutions and transformations are linear images of their parts",
    "For all profiles and nestings, flux, centroid, xValue and kValue of a sum are the sums, those of a convolution the products (or centroid sums), and those of a deconvolution the inverses of the values of the parts. "
    "shift, rotate, shear, lens, dilate, magnify, expand, transform, withFlux, withScaledFlux and arithmetic operators act on flux, centroid, xValue and kValue as the affine map they document, compose in order and undo their inverse. "
    "maxk and stepk follow the parts and the map.",
    ["inputs", "programs"],
    "all compositions of public profile operations with symbolic arguments",
    "Tests check single operations on single profiles; errors that need a composition, an off-centre profile or a flux factor together with an area change stay hidden.",
    ["gsobject.py", "transform.py", "sum.py", "convolve.py", "core/utils.py"],
    "methods of GSObject, Transformation, Sum, Convolution, Deconvolution, AutoConvolution, AutoCorrelation",
    LAW,
    "Decides about 1640 algebraic laws." + TRUST,
)
P(
    "P27",
    "Every parametrisation of a shear or an angle describes the same distortion",
    "For all values, a Shear built from g, e, eta, q or complex forms reports g, e, eta, q, beta and matrix of one and the same distortion; composition, difference and negation agree with products of the matrices up to a rotation, which rotationWith returns. "
    "Angles and angle units convert exactly between units, add, scale, compare and wrap as real numbers, and print and parse as sexagesimal strings. Out-of-range, incomplete or mixed parameter sets are rejected.",
    ["inputs"],
    "all shears with |g| < 1, all angles and units",
    "Tests compare a few shears; a wrong branch for a small or pure-component shear, or an error confined to one of the keyword forms, is invisible.",
    ["shear.py", "angle.py"],
    "Shear constructor branches, properties and operators; Angle/AngleUnit arithmetic",
    LAW,
    "Decides about 570 identities and rejections." + TRUST,
)
P(
    "P28",
    "Celestial coordinates obey spherical geometry",
    "For all coordinates, distance, angle, triangle area and great-circle points equal their spherical-trigonometry definitions, the four projections are inverted by deproject and linearised by jac_deproject, and galactic, ecliptic and precessed coordinates are the documented rotations of the sphere, which their inverses undo. "
    "A celestial WCS maps pixels through its affine part and projection, inverts that map, and its jacobian is the derivative of it. Declinations beyond the poles, arguments that are not angles, unknown projections and undefined directions are rejected.",
    ["inputs"],
    "all coordinates, tangent points, projections, epochs",
    "Tests sample a few points; errors near particular configurations (near-antipodal points, non-default epoch or projection) are missed.",
    ["celestial.py", "fitswcs.py", "wcs.py"],
    "methods of CelestialCoord; GSFitsWCS._radec/_xy/_local and CelestialWCS wrappers",
    LAW,
    "Decides about 175 identities; the iterative inversion of distortion polynomials is not covered." + TRUST,
)
P(
    "P15",
    "FITS headers and WCS objects describe the same map",
    "For every header with CRPIX, CRVAL, CD or PC with CDELT, CUNIT, either axis order, TAN, STG, ZEA or ARC projections and SIP, TPV or TNX distortions, the WCS that is read maps pixels as those keywords define, and its local jacobian is the derivative of that map. "
    "Writing any WCS class with an origin to a header and reading it back gives the same map.",
    ["inputs"],
    "all keyword values, pixel positions and writable WCS classes",
    "No test writes or reads a header with distortions, swapped axes or PC matrices; an index slip in a coefficient table shows only off axis.",
    ["fitswcs.py", "wcs.py"],
    "GSFitsWCS reading and writing, TanWCS, FitsWCS, readFromFitsHeader, BaseWCS.writeToFitsHeader",
    LAW,
    "Decides about 160 identities; TNX functions other than polynomials and Chebyshev, and the convergence of inverted distortions, are not covered." + TRUST,
)
P(
    "P29",
    "Drawn images sample the profile at the right points with the right scaling",
    "For every profile and every choice of size, bounds, existing image, scale or WCS, offset, center, area, exptime, gain, dtype and adding to an image, drawImage sets each pixel to the profile (surface brightness, or flux per pixel through the inverse Fourier transform of its sampled k values) at the world position of that pixel times the documented factor. "
    "drawKImage sets each pixel to the k value at its wave number. "
    "The returned bounds, wcs, dtype and added_flux agree with the pixels.",
    ["inputs", "programs"],
    "all analytic profiles and compositions; all keyword combinations of drawImage and drawKImage other than photon shooting",
    "The repository's own tests draw a few profiles at default settings; mistakes in parity, centering, orientation, gain or accumulation need odd/even sizes, offsets or existing images to appear.",
    ["gsobject.py", "core/draw.py", "transform.py", "convolve.py", "image.py"],
    "GSObject.drawImage, drawReal, drawFFT, drawKImage and their helpers; draw_by_xValue, draw_by_kValue, apply_kImage_phases",
    LAW,
    "Decides about 245 pixel laws on 4x3 images with symbolic bounds, scales and parameters, and 8x8 transforms; the aliasing error of Fourier rendering is part of the reference and not bounded." + TRUST,
)
P(
    "P30",
    "Image operations act on the pixel at the stated coordinates and keep its type",
    "For all images, arithmetic and in-place arithmetic act pixel by pixel and keep bounds, WCS and (in place) the dtype, reading and writing by coordinate touches exactly the named pixels, and sub-images, transposes, flips and rotations place each pixel as documented. "
    "Shifting the origin moves the bounds and keeps the world coordinates of every pixel; wrap sums all aliases, the discrete Fourier transforms are the defining sums and invert each other, and unweighted moments are the moment sums. "
    "Copies share nothing with the original.",
    ["inputs", "histories"],
    "all image contents, origins, dtypes and operations",
    "Tests compare a few images whose origin is the default; off-by-one and transposition errors cancel for square images at the default origin.",
    ["image.py", "core/wrap_image.py", "utilities.py", "bounds.py"],
    "Image constructors, operators and methods; wrap_image functions; unweighted_moments and unweighted_shape",
    LAW,
    "Decides about 480 laws on small images with symbolic contents and origins; larger images are decided by the same code paths only where no size-dependent branch exists (the wrap code is decided on both of its branches)." + TRUST,
)
P(
    "P08",
    "Random deviates are reproducible shared streams that never reuse randomness",
    "For every deviate class and seed, the sequence of values is a function of the seed alone: one call, an array fill, discard, raw and seeding consume it in the documented order, duplicates and serialised states continue it independently, and deviates built from one another share and advance one state, inside jit too. "
    "Parameters act as documented (location, scale, per-element mean or variance). "
    "No operation of the package feeds the same random key to two independent draws.",
    ["inputs", "histories"],
    "all seeds, parameters and sequences of deviate, noise, photon and permutation operations",
    "Tests check statistics of a few deviates; a reused key, a lost state update inside a loop or a draw that does not advance a shared state leaves the marginal statistics right.",
    ["random.py", "noise.py", "photon_array.py", "gsobject.py", "sum.py", "convolve.py"],
    "deviate classes and permute; every split of a key reachable from noise, shoot and drawPhot",
    "path-partitioned abstract interpretation with random keys as uninterpreted linear resources: value numbering of deviate sequences and an effect analysis recording which construct consumes each key",
    "Decides about 420 identities of the deviates and 35 usage scenarios for key reuse; distributions of the JAX primitives are assumed." + TRUST,
)
P(
    "P16",
    "Interpolants are the kernels they are documented to be",
    "For every abscissa and frequency, each interpolant's xval and kval equal its kernel and the kernel's Fourier transform, and its ranges, unit integrals, positive and negative flux, equality and pickling are consistent with that kernel. "
    "Akima splines pass through their nodes, reproduce straight lines and use the documented end slopes. "
    "Invalid settings are rejected.",
    ["inputs"],
    "all abscissae, frequencies, Lanczos orders 1 to 5 and node values",
    "Tests compare a few abscissae with stored numbers; a wrong digit in one tabulated Lanczos row or a wrong end slope shows for one order or one interval only.",
    ["interpolant.py", "core/interpolate.py"],
    "interpolant classes, the Lanczos coefficient tables and akima_interp",
    LAW,
    "Decides about 1080 identities; the tabulated interpolation of the Lanczos transform is decided through its ingredients." + TRUST,
)
P(
    "P31",
    "Noise models add the noise their parameters define, from the shared state",
    "For every image, random state and parameter values (including zero or negative gain and zero read noise), applying a noise model adds to each pixel exactly one draw of the documented Poisson, Gaussian or variable-variance form, keeps the image's bounds, WCS and dtype, and advances the state it shares with its creator. "
    "getVariance, withVariance, scaling and addNoiseSNR follow the documented algebra without changing the original. "
    "Unsupported variance requests and invalid or constant images are rejected.",
    ["inputs", "histories"],
    "all image contents, parameter values and random states",
    "Tests compare sample variances; a read noise not divided by gain, a missing clip or a lost state update at one parameter combination is inside the statistical tolerance or never exercised.",
    ["noise.py", "random.py", "image.py"],
    "noise classes and Image.addNoise/addNoiseSNR",
    "path-partitioned abstract interpretation; images after applyTo compared with reference formulas by value numbering and term fingerprints, random draws being free functions of key and parameters",
    "Decides about 235 identities; the distributions of the JAX primitives are assumed." + TRUST,
)
P(
    "P32",
    "An interpolated image is its pixels convolved with its interpolant",
    "For every float image, pair of interpolants and choice of normalization, flux, scale, WCS, offset, centre convention and padding, xValue of an InterpolatedImage is the sum of its pixels times the x interpolant at the documented positions and scaling, and kValue is the k-interpolated transform of the padded pixels times the kernel's transform. "
    "Flux, centroid, max_sb, positive and negative flux, stepk and maxk, transformed copies and drawn images follow from the same pixels, and the caller's image is neither changed nor shared. "
    "Integer, undefined or zero-flux images, missing or doubled pixel scales and unsupported or invalid options are rejected.",
    ["inputs"],
    "all pixel values of 2x3 images of any origin, points, wave numbers, fluxes, offsets and jacobians; six pairs of interpolants",
    "Tests draw a few stored images; a neighbour left out by one interpolant, an offset missing from one query or a wrap-around index shows only at some sub-pixel positions or wave numbers.",
    ["interpolatedimage.py", "interpolant.py"],
    "InterpolatedImage, _InterpolatedImageImpl, _xValue_arr, _kValue_arr and their helpers",
    LAW,
    "Decides about 310 identities; the searches that choose stepk and maxk from the pixels are decided only when switched off or forced." + TRUST,
)
P(
    "P07",
    "GSParams keep defaults, replace what is named, combine strictly and propagate",
    "GSParams has GalSim's thirteen fields and defaults, is immutable, compares, hashes and prints by value, replaces exactly the fields named in withParams or check, rejects unknown names and wrong types, and combine takes the largest FFT sizes and stepk_minimum_hlr and the smallest of every other field. "
    "Every profile and interpolant keeps the GSParams it was built with, withGSParams returns an object of the same kind and flux that differs only in them and leaves the original alone, and every transformation of a profile inherits them. "
    "Sums, convolutions, deconvolutions and transformations combine or take over those of their components and hand them to every component, at construction and in withGSParams, exactly when propagate_gsparams is set, a flag that survives withGSParams and pytree rebuilding.",
    ["inputs", "histories"],
    "all field values and combinations, all profile, interpolant and composite classes, nested composites, chains of withGSParams",
    "Tests change one or two fields on one or two profiles; a field dropped or exchanged, or a component that is not reached, shows only with other fields or other nesting.",
    ["gsparams.py", "gsobject.py", "sum.py", "convolve.py", "transform.py", "interpolatedimage.py", "interpolant.py"],
    "GSParams (withParams, check, combine, to_galsim, from_galsim), withGSParams of every class, constructors taking gsparams= and propagate_gsparams=",
    LAW,
    "Decides about 970 laws on the fields read back." + TRUST,
)
P(
    "P11",
    "Conversion to and from GalSim objects and FITS files keeps every value",
    "to_galsim returns the GalSim class of the same name holding the same values, and from_galsim the JAX-GalSim object equal to the one built from them, for positions, bounds (also undefined), shears, angles, celestial coordinates, GSParams, images and every supported WCS; anything else is rejected with TypeError or, for a WCS class without counterpart, NotImplementedError. "
    "fits.read, readMulti and readCube return exactly the images, bounds, WCS and headers that GalSim reads from the file, with every argument passed on. "
    "fits.write, Image.write, writeMulti and writeCube hand GalSim the arrays, bounds and WCS of the images given, and leave those images as they were, also when the write fails.",
    ["inputs", "histories"],
    "all values of all convertible classes; lists with repeated images; writes that fail",
    "The baseline tests never write a FITS file and convert single examples; an exchanged field or an image left converted after a failed write needs particular values or a failure.",
    ["angle.py", "bounds.py", "celestial.py", "fits.py", "gsparams.py", "image.py", "position.py", "shear.py", "wcs.py"],
    "from_galsim, to_galsim, fits.read*, fits.write*, _image_as_numpy",
    LAW,
    "Decides about 590 laws. GalSim's own classes are modelled as records of their constructor arguments and its FITS functions as a boundary; what GalSim does with the file is trusted." + TRUST,
)
P(
    "P33",
    "Special functions, tables, quadrature and root finding compute what they define",
    "For every order and argument in their domain kv, si and j0 equal the Bessel and sine-integral functions they are named after, with the exact derivative rule, the limits at zero and the rejection of negative arguments. "
    "Akima tables are Hermite cubics through every knot with Akima's slopes and vanish outside, int1d integrates over finite and infinite ranges and raises when any of its quadratures fails, Clenshaw-Curtis weights integrate polynomials exactly, and bisection ends inside the final bracket around the sign change. "
    "horner, horner2d, g1g2_to_e1e2 and safe_sqrt equal their defining formulas for scalars and arrays.",
    ["inputs"],
    "all orders, arguments, knots, coefficients and integration limits; both recurrence regimes of kv",
    "Tests compare a handful of arguments with GalSim; a wrong regime boundary, coefficient or recurrence bound shows at other orders or arguments only.",
    ["bessel.py", "integ.py", "core/integrate.py", "core/interpolate.py", "core/utils.py", "core/math.py", "utilities.py"],
    "kv and its derivative rule, si, j0, akima_interp, akima_interp_coeffs, int1d, quad_integral, bisect_for_root, horner, horner2d",
    LAW,
    "Decides about 70 identities; recurrences are followed until their exit test is decided, the adaptive quadrature of quadax is replaced by a fixed rule, and the numpy twin of the Akima coefficients is not analysed." + TRUST,
)
P(
    "P17",
    "Photon arrays keep, combine, bin and shoot photons faithfully",
    "For every set of photon positions, fluxes and attributes, and for fixed-size arrays with any photons masked, scaling, setting totals, copying, assignment, convolution and pytree round trips act on exactly the documented photons and attributes, masked photons carry no flux, and adding to an image puts each photon's flux in the pixel containing it and drops those outside. "
    "Shooting a profile (with its shifts, shears, rotations, scalings, sums and convolutions) places photons by that profile's transformed radial law with the profile's total flux and advances the caller's random state. "
    "Size mismatches, constant or undefined images and profiles that cannot be shot are rejected.",
    ["inputs", "histories"],
    "all photon positions, fluxes, attributes and masks; profile parameters",
    "Tests bin a few thousand photons and compare moments loosely; a mask lost in one operation, a flux ratio computed before the mask changed or a swapped axis shows only for partly masked arrays or one attribute.",
    ["photon_array.py", "sensor.py", "gsobject.py", "convolve.py", "transform.py"],
    "PhotonArray, Sensor.accumulate and the _shoot methods",
    LAW,
    "Decides about 760 identities for arrays of a few photons; that the draws of the JAX primitives follow their distributions is assumed." + TRUST,
)
