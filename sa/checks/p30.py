"""P30: image operations act pixel by pixel at the documented coordinates."""
from ..core import *
from ..eqs import laws, grouped

PF = ("pyf", 0, "f")
PI = ("pyi", 0, "i")
SPEC = {n: PF for n in ("psc", "pa", "pb", "px0", "py0", "pcx", "pcy")}
SPEC.update({n: PI for n in ("hx", "hy", "hn", "hm", "kx", "ky")})
SPEC.update({"arrs": ("jax", 2, "f", (3, 4)), "arrt": ("jax", 2, "f", (3, 4)), "arri": ("jax", 2, "i", (3, 4)), "arrj": ("jax", 2, "i", (3, 4)), "arrc": ("jax", 2, "c", (3, 4)), "arr6": ("jax", 2, "f", (6, 8)), "arr4": ("jax", 2, "f", (4, 4)), "arr5": ("jax", 2, "f", (4, 5)), "sm": ("jax", 2, "f", (2, 2)),
             "jx": ("jax", 0, "i"), "jy": ("jax", 0, "i"), "arrb": ("jax", 2, "f", (24, 24))})
IM = "im = Image(arrs + 0., xmin=hx, ymin=hy, wcs=AffineTransform(dudx, dudy, dvdx, dvdy, origin=PositionD(px0, py0), world_origin=PositionD(u0, v0)))\nw0 = im.wcs\na0 = arrs + 0.\n"
IT = "it = Image(arrt + 0., xmin=kx, ymin=ky, scale=psc)\n"
II = "im = Image(arri + 0, xmin=hx, ymin=hy, scale=psc)\na0 = arri + 0\nij = Image(arrj + 0, xmin=hx, ymin=hy, scale=psc)\n"
B = "BoundsI(hx, hx+3, hy, hy+2)"
PIX = [(0, 0), (3, 1), (1, 2)]
ARITH = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
INT = {"floordiv": "//", "mod": "%"}
BIT = {"and": "&", "xor": "^", "or": "|"}


def obligations():
    out = []

    def A(n, src, *pairs):
        for p in pairs:
            out.append((n, src, p))

    # construction
    A("Image(ncol, nrow)", "im = Image(4, 3, scale=psc)\n", ("im.array.shape", "(3, 4)"), ("im.array[2, 3]", "0."), ("im.bounds", "BoundsI(1, 4, 1, 3)"), ("im.array.dtype == jnp.float32", "True"), ("im.scale", "psc"), ("(im.ncol, im.nrow)", "(4, 3)"))
    A("Image(ncol, nrow, init)", "im = Image(4, 3, init_value=pa, dtype=float, xmin=hx, ymin=hy)\n", ("im.array[2, 3]", "pa"), ("im.array[0, 0]", "pa"), ("im.bounds", B), ("im.array.dtype == jnp.float64", "True"), ("im.wcs is None", "True"))
    A("Image(bounds)", "im = Image(%s, init_value=pa, dtype=float, scale=psc)\n" % B, ("im.array[2, 3]", "pa"), ("im.array.shape", "(3, 4)"), ("im.bounds", B), ("im.scale", "psc"))
    A("Image(array)", IM, ("im.array", "arrs"), ("im.bounds", B), ("im.wcs is w0", "True"), ("im.array.dtype == jnp.float64", "True"), ("(im.xmin, im.xmax, im.ymin, im.ymax)", "(hx, hx+3, hy, hy+2)"), ("(im.isconst, im.iscomplex, im.isinteger)", "(False, False, False)"))
    A("Image(array, bounds)", "im = Image(arrs, bounds=%s, scale=psc, make_const=True)\n" % B, ("im.array", "arrs"), ("im.bounds", B), ("im.scale", "psc"), ("im.isconst", "True"))
    A("Image(array, dtype)", "im = Image(arrs, dtype=int)\n", ("im.array", "jnp.around(arrs)"), ("im.isinteger", "True"))
    A("Image(image)", IM + "ib = Image(im, dtype=int)\nic = Image(im, scale=psc)\nid = Image(image=im)\n", ("ib.array", "jnp.around(arrs)"), ("ib.bounds", B), ("ib.wcs == w0", "True"), ("ic.array", "arrs"), ("ic.scale", "psc"), ("id.array", "arrs"), ("id.bounds", B))
    for c, d in (("US", "uint16"), ("UI", "uint32"), ("S", "int16"), ("I", "int32"), ("F", "float32"), ("D", "float64"), ("CF", "complex64"), ("CD", "complex128")):
        A("Image%s" % c, "im = Image%s(4, 3, scale=psc)\n" % c, ("im.array.dtype == jnp.%s" % d, "True"), ("im.dtype == jnp.%s" % d, "True"), ("im.bounds", "BoundsI(1, 4, 1, 3)"))
    A("complex parts", "im = Image(arrc, xmin=hx, ymin=hy, scale=psc)\n", ("im.real.array", "arrc.real"), ("im.imag.array", "arrc.imag"), ("im.conjugate.array", "jnp.conj(arrc)"), ("(im.real.bounds, im.imag.bounds, im.conjugate.bounds)", "(%s, %s, %s)" % (B, B, B)),
      ("(im.real.scale, im.imag.scale, im.conjugate.scale)", "(psc, psc, psc)"), ("(im.real.isreal if False else im.real.iscomplex, im.iscomplex)", "(False, True)"))
    # arithmetic
    for n, o in ARITH.items():
        A("image %s image" % n, IM + IT + "ir = im %s it\n" % o, ("ir.array", "arrs %s arrt" % o), ("ir.bounds", B), ("ir.wcs is w0", "True"), ("im.array", "arrs"), ("it.array", "arrt"))
        A("image %s scalar" % n, IM + "ir = im %s pa\n" % o, ("ir.array", "arrs %s pa" % o), ("ir.bounds", B), ("ir.wcs is w0", "True"), ("im.array", "arrs"))
        A("scalar %s image" % n, IM + "ir = pa %s im\n" % o, ("ir.array", "pa %s arrs" % o), ("ir.bounds", B), ("ir.wcs is w0", "True"))
        A("image i%s image" % n, IM + IT + "ir = im\nir %s= it\n" % o, ("ir.array", "arrs %s arrt" % o), ("ir is im", "True"), ("im.array", "arrs %s arrt" % o), ("im.bounds", B), ("im.wcs is w0", "True"), ("it.array", "arrt"))
        A("image i%s scalar" % n, IM + "ir = im\nir %s= pa\n" % o, ("ir.array", "arrs %s pa" % o), ("ir is im", "True"), ("im.bounds", B), ("im.dtype == im.array.dtype", "True"))
        # integer images round when they take float results in place
        A("integer image i%s float image" % n, II + IT + "im %s= it\n" % o, ("im.array", "jnp.around(arri %s arrt)" % o), ("im.isinteger", "True"))
        A("integer image i%s image" % n, II + "im %s= ij\n" % o, ("im.array", ("arri %s arrj" % o) if o != "/" else "jnp.around(arri / arrj)"), ("im.isinteger", "True"))
    A("image pow", IM + "ir = im ** pa\n", ("ir.array", "arrs ** pa"), ("ir.bounds", B), ("ir.wcs is w0", "True"))
    A("image ipow", IM + "im **= 2\n", ("im.array", "arrs ** 2"), ("im.bounds", B))
    A("image neg", IM + "ir = -im\n", ("ir.array", "-arrs"), ("im.array", "arrs"), ("ir.bounds", B), ("ir.wcs == w0", "True"))
    for n, o in dict(INT, **BIT).items():
        A("integer image %s image" % n, II + "ir = im %s ij\n" % o, ("ir.array", "arri %s arrj" % o), ("ir.bounds", B), ("ir.scale", "psc"), ("im.array", "arri"))
        A("integer image %s scalar" % n, II + "ir = im %s 5\n" % o, ("ir.array", "arri %s 5" % o))
        A("integer scalar %s image" % n, II + "ir = 21 %s im\n" % o, ("ir.array", "21 %s arri" % o))
        A("integer image i%s image" % n, II + "im %s= ij\n" % o, ("im.array", "arri %s arrj" % o), ("im.bounds", B), ("ij.array", "arrj"))
        A("integer image i%s scalar" % n, II + "im %s= 5\n" % o, ("im.array", "arri %s 5" % o))
    # access by pixel coordinate
    for i, j in PIX:
        X, Y = "hx + %d" % i, "hy + %d" % j
        rd = ["im(%s, %s)" % (X, Y), "im[%s, %s]" % (X, Y), "im(PositionI(%s, %s))" % (X, Y), "im[PositionI(%s, %s)]" % (X, Y), "im.getValue(%s, %s)" % (X, Y), "im._getValue(%s, %s)" % (X, Y), "im(x=%s, y=%s)" % (X, Y)]
        A("read pixel", IM, *[(r, "arrs[%d, %d]" % (j, i)) for r in rd])
        chk = "arrs.at[%d, %d].%%s(pa)" % (j, i)
        for n, st, m in (("setValue", "im.setValue(%s, %s, pa)" % (X, Y), "set"), ("setValue pos", "im.setValue(PositionI(%s, %s), pa)" % (X, Y), "set"), ("setValue keywords", "im.setValue(x=%s, y=%s, value=pa)" % (X, Y), "set"), ("setitem", "im[%s, %s] = pa" % (X, Y), "set"),
                         ("setitem pos", "im[PositionI(%s, %s)] = pa" % (X, Y), "set"), ("addValue", "im.addValue(%s, %s, pa)" % (X, Y), "add"), ("addValue pos", "im.addValue(PositionI(%s, %s), pa)" % (X, Y), "add"), ("_setValue", "im._setValue(%s, %s, pa)" % (X, Y), "set"), ("_addValue", "im._addValue(%s, %s, pa)" % (X, Y), "add")):
            A("%s (%d, %d)" % (n, i, j), IM + st + "\n", ("im.array", chk % m), ("im.bounds", B))
    # sub-images
    SB = "BoundsI(hx+1, hx+2, hy+1, hy+2)"
    for n, e in (("subImage", "im.subImage(b)"), ("getitem bounds", "im[b]")):
        A(n, IM + "b = %s\nir = %s\n" % (SB, e), ("ir.array", "arrs[1:3, 1:3]"), ("ir.bounds", SB), ("ir.wcs is w0", "True"), ("im.array", "arrs"))
    DY = "im = Image(arrs + 0., bounds=BoundsI(xmin=jx, deltax=4, ymin=jy, deltay=3), scale=psc)\nb = BoundsI(xmin=jx+1, deltax=2, ymin=jy+1, deltay=2)\n"
    A("subImage dynamic", DY + "ir = im[b]\n", ("ir.array", "arrs[1:3, 1:3]"), ("ir.bounds", "b"), ("ir.scale", "psc"))
    for n, e in (("setSubImage", "im.setSubImage(b, ib)"), ("setitem bounds", "im[b] = ib")):
        A(n, IM + "b = %s\nib = Image(sm, scale=psc)\n%s\n" % (SB, e), ("im.array", "arrs.at[1:3, 1:3].set(sm)"), ("im.bounds", B), ("im.wcs is w0", "True"))
        A(n + " dynamic", DY + "ib = Image(sm, scale=psc)\n%s\n" % e, ("im.array", "arrs.at[1:3, 1:3].set(sm)"))
        A(n + " integer", II + "b = %s\nib = Image(sm, scale=psc)\n%s\n" % (SB, e), ("im.array", "arri.at[1:3, 1:3].set(jnp.around(sm))"), ("im.isinteger", "True"))
    A("copyFrom", IM + IT + "im.copyFrom(it)\n", ("im.array", "arrt"), ("im.bounds", B), ("im.wcs is w0", "True"), ("it.array", "arrt"))
    A("copyFrom integer", II + IT + "im.copyFrom(it)\n", ("im.array", "jnp.around(arrt)"), ("im.isinteger", "True"))
    A("array setter", II + "im.array = arrt\n", ("im.array", "jnp.around(arrt)"), ("im.isinteger", "True"))
    A("fill", IM + "im.fill(pa)\n", ("im.array", "jnp.full((3, 4), pa)"), ("im.bounds", B))
    A("setZero", IM + "im.setZero()\n", ("im.array", "jnp.zeros((3, 4))"), ("im.bounds", B), ("im.wcs is w0", "True"))
    A("invertSelf", IM + "im.invertSelf()\n", ("im.array", "1./arrs"))
    A("invertSelf zero", "im = Image(jnp.zeros((3, 4)))\nim.invertSelf()\n", ("im.array", "jnp.zeros((3, 4))"))
    A("replaceNegative", IM + "im.replaceNegative(pa)\n", ("im.array", "jnp.where(arrs < 0, pa, arrs)"))
    A("replaceNegative default", IM + "im.replaceNegative()\n", ("im.array", "jnp.where(arrs < 0, 0., arrs)"))
    # geometry of the pixel array
    T = "BoundsI(hy, hy+2, hx, hx+3)"
    for n, e, b in (("transpose", "arrs.T", T), ("flip_lr", "arrs[:, ::-1]", B), ("flip_ud", "arrs[::-1, :]", B), ("rot_cw", "arrs.T[::-1, :]", T), ("rot_ccw", "arrs.T[:, ::-1]", T), ("rot_180", "arrs[::-1, ::-1]", B)):
        A(n, IM + "ir = im.%s()\n" % n, ("ir.array", e), ("ir.bounds", b), ("im.array", "arrs"), ("im.bounds", B), ("ir.wcs is None", "True"))
    # moving the origin keeps the world coordinates of the pixels
    mv = "p = PositionD(x, y)\n"
    wp = ("(im.wcs.toWorld(p + PositionD(im.xmin - hx, im.ymin - hy)).x, im.wcs.toWorld(p + PositionD(im.xmin - hx, im.ymin - hy)).y)", "(w0.toWorld(p).x, w0.toWorld(p).y)")
    for n, st, b in (("shift", "im.shift(kx, ky)", "BoundsI(hx+kx, hx+3+kx, hy+ky, hy+2+ky)"), ("shift pos", "im.shift(PositionI(kx, ky))", "BoundsI(hx+kx, hx+3+kx, hy+ky, hy+2+ky)"), ("shift keywords", "im.shift(dx=kx, dy=ky)", "BoundsI(hx+kx, hx+3+kx, hy+ky, hy+2+ky)"),
                     ("setOrigin", "im.setOrigin(kx, ky)", "BoundsI(kx, kx+3, ky, ky+2)"), ("setOrigin pos", "im.setOrigin(PositionI(kx, ky))", "BoundsI(kx, kx+3, ky, ky+2)"), ("setCenter", "im.setCenter(kx, ky)", "BoundsI(kx-2, kx+1, ky-1, ky+1)"), ("setCenter pos", "im.setCenter(PositionI(kx, ky))", "BoundsI(kx-2, kx+1, ky-1, ky+1)")):
        A(n, IM + mv + st + "\n", ("im.bounds", b), wp, ("im.array", "arrs"))
    A("centers", IM, ("im.center", "PositionI(hx+2, hy+1)"), ("im.true_center", "PositionD(hx+1.5, hy+1)"), ("im.origin", "PositionI(hx, hy)"), ("im.outer_bounds", "BoundsD(hx-0.5, hx+3.5, hy-0.5, hy+2.5)"))
    A("get_pixel_centers", IM + "xx, yy = im.get_pixel_centers()\n", *[("(xx[%d, %d], yy[%d, %d])" % (j, i, j, i), "(hx + %d, hy + %d)" % (i, j)) for i, j in PIX])
    # copies
    A("copy", IM + "ic = im.copy()\nic += pa\nic.setOrigin(kx, ky)\n", ("im.array", "arrs"), ("ic.array", "arrs + pa"), ("im.bounds", B), ("im.wcs is w0", "True"))
    A("copy same", IM + "ic = im.copy()\n", ("ic.array", "arrs"), ("ic.bounds", B), ("ic.wcs == w0", "True"), ("ic.dtype == im.dtype", "True"), ("ic.isconst", "False"))
    A("copy const", "im = Image(arrs, scale=psc, make_const=True)\nic = im.copy()\nid = im.copy(make_const=True)\n", ("ic.isconst", "False"), ("id.isconst", "True"))
    A("copy options", IM + mv + "ic = im.copy(origin=PositionI(kx, ky))\nid = im.copy(center=PositionI(kx, ky))\nie = im.copy(scale=psc)\nig = im.copy(dtype=int)\n", ("ic.bounds", "BoundsI(kx, kx+3, ky, ky+2)"), ("id.bounds", "BoundsI(kx-2, kx+1, ky-1, ky+1)"), ("ie.scale", "psc"), ("ig.array", "jnp.around(arrs)"),
      ("im.bounds", B), ("(ic.wcs.toWorld(p + PositionD(kx - hx, ky - hy)).x, ic.wcs.toWorld(p + PositionD(kx - hx, ky - hy)).y)", "(w0.toWorld(p).x, w0.toWorld(p).y)"))
    A("resize", IM + "im.resize(BoundsI(kx, kx+1, ky, ky+4))\n", ("im.array", "jnp.zeros((5, 2))"), ("im.bounds", "BoundsI(kx, kx+1, ky, ky+4)"), ("im.dtype == jnp.float64", "True"), ("im.wcs is w0", "True"))
    A("resize wcs", IM + "im.resize(BoundsI(kx, kx+1, ky, ky+4), wcs=PixelScale(psc))\n", ("im.scale", "psc"), ("im.array.shape", "(5, 2)"))
    A("scale setter", "im = Image(arrs, scale=psc)\nim.scale = pa\n", ("im.scale", "pa"), ("im.array", "arrs"))
    # wrapping onto a smaller image
    for x0, y0, bx, by, nx, ny, e in ((1, 1, 3, 2, 4, 3, "arr6"), (-4, -3, -2, -1, 4, 2, "arr6"), (-4, -3, 0, 0, 3, 3, "arr6"), (-12, -12, -1, -1, 3, 3, "arrb")):
        n1, n2 = SPEC[e][3][1], SPEC[e][3][0]
        s = "im = Image(%s + 0., xmin=%d, ymin=%d, scale=psc)\nir = im.wrap(BoundsI(%d, %d, %d, %d))\n" % (e, x0, y0, bx, bx + nx - 1, by, by + ny - 1)
        for i, j in ((0, 0), (nx - 1, ny - 1), (1, 1)):
            al = ["%s[%d, %d]" % (e, q, p) for p in range(n1) for q in range(n2) if (p + x0 - bx - i) % nx == 0 and (q + y0 - by - j) % ny == 0]
            A("wrap %s %dx%d at %d,%d" % (e, nx, ny, bx, by), s, ("ir.array[%d, %d]" % (j, i), " + ".join(al)))
        A("wrap %s %dx%d at %d,%d" % (e, nx, ny, bx, by), s, ("ir.bounds", "BoundsI(%d, %d, %d, %d)" % (bx, bx + nx - 1, by, by + ny - 1)), ("ir.scale", "psc"))
    # Hermitian wrapping: the negative half plane is the conjugate
    for h in "xy":
        n1, n2 = (5, 9) if h == "x" else (9, 5)
        x0, y0 = (0, -4) if h == "x" else (-4, 0)
        bx, by, nx, ny = (0, -2, 3, 4) if h == "x" else (-2, 0, 4, 3)
        SPEC["arh%s" % h] = ("jax", 2, "c", (n2, n1))
        s = "im = Image(arh%s + 0., xmin=%d, ymin=%d, scale=psc)\nir = im.wrap(BoundsI(%d, %d, %d, %d), hermitian='%s')\n" % (h, x0, y0, bx, bx + nx - 1, by, by + ny - 1, h)
        px, py = (2 * (bx + nx - 1), ny) if h == "x" else (nx, 2 * (by + ny - 1))
        for i, j in ((0, 0), (nx - 1, ny - 1), (1, 1), (0, 2), (2, 0)):
            al = []
            for X in range(-4, 5):
                for Y in range(-4, 5):
                    if (X - bx - i) % px or (Y - by - j) % py:
                        continue
                    if (h == "x" and X >= 0) or (h == "y" and Y >= 0):
                        al.append("arh%s[%d, %d]" % (h, Y - y0, X - x0))
                    else:
                        al.append("jnp.conj(arh%s[%d, %d])" % (h, -Y - y0, -X - x0))
            A("wrap hermitian %s" % h, s, ("ir.array[%d, %d]" % (j, i), " + ".join(al)))
        A("wrap hermitian %s" % h, s, ("ir.bounds", "BoundsI(%d, %d, %d, %d)" % (bx, bx + nx - 1, by, by + ny - 1)))
    # Fourier transforms of images are the defining sums
    s = "im = Image(arr4, xmin=-2, ymin=-2, scale=psc)\nik = im.calculate_fft()\ndk = 2*jnp.pi/(4*psc)\n"
    A("calculate_fft", s, ("ik.bounds", "BoundsI(0, 2, -2, 1)"), ("ik.scale", "dk"), ("ik.isinteger", "False"), ("ik.iscomplex", "True"))
    for i, j in ((0, 0), (1, 3), (2, 1)):
        A("calculate_fft", s, ("ik.array[%d, %d]" % (j, i), "psc**2*(" + " + ".join("arr4[%d, %d]*jnp.exp(-1j*(%d)*jnp.pi/2)" % (q, p, i * (p - 2) + (j - 2) * (q - 2)) for p in range(4) for q in range(4)) + ")"))
    s = "im = Image(sm, xmin=0, ymin=-2, scale=psc)\nik = im.calculate_fft()\n"
    for i, j in ((0, 0), (1, 3), (2, 1)):
        A("calculate_fft padded", s, ("ik.array[%d, %d]" % (j, i), "psc**2*(" + " + ".join("sm[%d, %d]*jnp.exp(-1j*(%d)*jnp.pi/2)" % (q, p, i * p + (j - 2) * (q - 2)) for p in range(2) for q in range(2)) + ")"))
    A("calculate_fft padded", s, ("ik.bounds", "BoundsI(0, 2, -2, 1)"), ("ik.scale", "2*jnp.pi/(4*psc)"))
    s = "im = Image(arr4, xmin=-2, ymin=-2, scale=psc)\nir = im.calculate_fft().calculate_inverse_fft()\n"
    A("fft round trip", s, ("ir.array", "arr4"), ("ir.bounds", "BoundsI(-2, 1, -2, 1)"), ("ir.scale", "psc"))
    # moments
    s = "im = Image(arrs, xmin=hx, ymin=hy, scale=psc)\nm = utilities.unweighted_moments(im)\n"
    xx, yy = "(hx + jnp.arange(4))[None, :]", "(hy + jnp.arange(3))[:, None]"
    s += "F = jnp.sum(arrs)\nmx = jnp.sum(%s*arrs)/F\nmy = jnp.sum(%s*arrs)/F\n" % (xx, yy)
    A("unweighted_moments", s, ("m['M0']", "F"), ("m['Mx']", "mx"), ("m['My']", "my"), ("m['Mxx']", "jnp.sum((%s-mx)**2*arrs)/F" % xx), ("m['Myy']", "jnp.sum((%s-my)**2*arrs)/F" % yy), ("m['Mxy']", "jnp.sum((%s-mx)*(%s-my)*arrs)/F" % (xx, yy)))
    A("unweighted_moments origin", s + "m2 = utilities.unweighted_moments(im, origin=PositionD(pcx, pcy))\n", ("m2['Mx']", "mx - pcx"), ("m2['My']", "my - pcy"), ("m2['Mxx']", "m['Mxx']"), ("m2['Mxy']", "m['Mxy']"), ("m2['Myy']", "m['Myy']"))
    A("unweighted_shape", s + "q = utilities.unweighted_shape(im)\nq2 = utilities.unweighted_shape(m)\n", ("q['rsqr']", "m['Mxx'] + m['Myy']"), ("q['e1']", "(m['Mxx'] - m['Myy'])/(m['Mxx'] + m['Myy'])"), ("q['e2']", "2*m['Mxy']/(m['Mxx'] + m['Myy'])"), ("(q2['rsqr'], q2['e1'], q2['e2'])", "(q['rsqr'], q['e1'], q['e2'])"))
    return out


def main():
    I = interp()
    R = Report("P30", "constructors, arithmetic, pixel access, sub-images, geometry, origin shifts, copies, wrapping, discrete Fourier transforms and moments of images act on the pixel with the documented coordinates and keep dtype, bounds and wcs", 420, "Operations on symbolic images decided element by element.")
    parallel(R, grouped(obligations()), one)
    return R.finish(I)


def one(I, R, n, s, p):
    laws(I, R, n, s, p, traced=False, spec=SPEC)
