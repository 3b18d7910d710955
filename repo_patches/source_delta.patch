From 0b5a96db041b9d9e475956d4123a928a6b55b902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 01/25] fix: advance the rng of CCDNoise when noise is applied

---
 jax_galsim/noise.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 3956cf6..f8cb0ac 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -335,22 +335,25 @@ class CCDNoise(BaseNoise):
         )
 
         # First add the poisson noise from the signal + sky:
-        noise_array = jax.lax.cond(
+        # The deviate is rebuilt inside the branches of the cond, so the advanced key has to be
+        # returned and stored in the (possibly shared) state of the rng.
+        noise_array, self._rng._key = jax.lax.cond(
             self.gain > 0.0,
             lambda pd, na, gain: (
-                pd.generate_from_expectation(jnp.clip(na * gain, 0.0)) / gain
+                pd.generate_from_expectation(jnp.clip(na * gain, 0.0)) / gain,
+                pd._key,
             ),
-            lambda pd, na, gain: na,
+            lambda pd, na, gain: (na, pd._key),
             self._pd,
             noise_array,
             self.gain,
         )
 
         # Now add the read noise:
-        noise_array = jax.lax.cond(
+        noise_array, self._rng._key = jax.lax.cond(
             self.read_noise > 0.0,
-            lambda na, gd: na + gd.generate(na),
-            lambda na, gd: na,
+            lambda na, gd: (na + gd.generate(na), gd._key),
+            lambda na, gd: (na, gd._key),
             noise_array,
             self._gd,
         )
-- 
2.43.0


From cb35e01694d5616412bb1c30cdc4c411d19f03e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 02/25] fix: rebuild DeviateNoise from its pytree children

---
 jax_galsim/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index f8cb0ac..89e8031 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -504,7 +504,7 @@ class DeviateNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(rng=children[0])
+        return cls(children[0])
 
 
 @implements(_galsim.noise.VariableGaussianNoise)
-- 
2.43.0


From 53363b8798d7e31007dff1f5b352cd1a73c193df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 03/25] fix: make the repr of PoissonNoise and CCDNoise
 evaluable for array parameters

---
 jax_galsim/noise.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 89e8031..d001b5a 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -260,7 +260,10 @@ class PoissonNoise(BaseNoise):
         return PoissonNoise(rng=rng, sky_level=self.sky_level)
 
     def __repr__(self):
-        return "galsim.PoissonNoise(rng=%r, sky_level=%r)" % (self.rng, self.sky_level)
+        return "galsim.PoissonNoise(rng=%r, sky_level=%r)" % (
+            self.rng,
+            ensure_hashable(self.sky_level),
+        )
 
     def __str__(self):
         return "galsim.PoissonNoise(sky_level=%s)" % (self.sky_level)
@@ -420,9 +423,9 @@ class CCDNoise(BaseNoise):
     def __repr__(self):
         return "galsim.CCDNoise(rng=%r, sky_level=%r, gain=%r, read_noise=%r)" % (
             self.rng,
-            self.sky_level,
-            self.gain,
-            self.read_noise,
+            ensure_hashable(self.sky_level),
+            ensure_hashable(self.gain),
+            ensure_hashable(self.read_noise),
         )
 
     def __str__(self):
-- 
2.43.0


From ed52d55c04971cf551c3652bcc0a578e3a8abe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 04/25] fix: keep a private copy of the image in
 InterpolatedImage

---
 jax_galsim/interpolatedimage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 9564bd3..1d2ed08 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -126,6 +126,11 @@ class InterpolatedImage(Transformation, metaclass=DirMeta):
                 "Interpolated images must use a float-type image.", image.dtype
             )
 
+        if _obj is None:
+            # The profile needs its own copy, so that it does not change the caller's image
+            # and is not changed by later modifications of that image.
+            image = image.copy()
+
         self._jax_children = (
             image,
             dict(
-- 
2.43.0


From 929cfa946f72cf2f96c1b6a78a5558563e1ccc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 05/25] fix: set the const flag in _Image

---
 jax_galsim/image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 63e4da7..4ac7a9a 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -1351,6 +1351,7 @@ def _Image(array, bounds, wcs):
         array = _safe_cast(array, jnp.issubdtype(ret._dtype, jnp.integer), ret._dtype)
     ret._array = array
     ret._bounds = bounds
+    ret._is_const = False
     return ret
 
 
-- 
2.43.0


From 54197b76bf53b77a9dabe13357466d5097d09561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 06/25] fix: do not modify immutable images in operators, wrap,
 noise and drawing

---
 jax_galsim/gsobject.py     |  5 +++++
 jax_galsim/image.py        | 16 ++++++++++++++++
 jax_galsim/noise.py        |  2 ++
 jax_galsim/photon_array.py |  1 +
 4 files changed, 24 insertions(+)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index a5cf51b..9b848a3 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -349,6 +349,7 @@ class GSObject:
 
         # If image is given, check validity of nx,ny,bounds:
         if image is not None:
+            image._check_mutable()
             if bounds is not None:
                 raise _galsim.GalSimIncompatibleValuesError(
                     "Cannot provide bounds if image is provided",
@@ -821,6 +822,7 @@ The JAX-GalSim version of ``drawImage``
 
     @implements(_galsim.GSObject.drawReal)
     def drawReal(self, image, add_to_image=False):
+        image._check_mutable()
         if image.wcs is None or not image.wcs.isPixelScale():
             raise _galsim.GalSimValueError(
                 "drawReal requires an image with a PixelScale wcs", image
@@ -972,6 +974,7 @@ The JAX-GalSim version of ``drawImage``
 
     @implements(_galsim.GSObject.drawFFT)
     def drawFFT(self, image, add_to_image=False):
+        image._check_mutable()
         if image.wcs is None or not image.wcs.isPixelScale():
             raise _galsim.GalSimValueError(
                 "drawFFT requires an image with a PixelScale wcs", image
@@ -1037,6 +1040,7 @@ The JAX-GalSim version of ``drawImage``
             )
         else:
             # Do some checks that setup_image would have done for us
+            image._check_mutable()
             if bounds is not None:
                 raise _galsim.GalSimIncompatibleValuesError(
                     "Cannot provide bounds if image is provided",
@@ -1221,6 +1225,7 @@ The JAX-GalSim version of ``drawPhot``
             poisson_flux = n_photons is None
 
         # Make sure the image is set up to have unit pixel scale and centered at 0,0.
+        image._check_mutable()
         if image.wcs is None or not image.wcs._isPixelScale:
             raise GalSimValueError(
                 "drawPhot requires an image with a PixelScale wcs", image
diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 4ac7a9a..c8529e9 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -367,6 +367,7 @@ class Image(object):
 
     @array.setter
     def array(self, other):
+        self._check_mutable()
         # jax-galsim's rounding of float-to-int is platform dependent
         # so we explicitly round to ints if needed
         self._array = self._array.at[...].set(
@@ -388,6 +389,10 @@ class Image(object):
     def isconst(self):
         return self._is_const
 
+    def _check_mutable(self):
+        if self.isconst:
+            raise GalSimImmutableError("Cannot modify an immutable Image", self)
+
     @property
     @implements(_galsim.Image.iscomplex)
     def iscomplex(self):
@@ -719,6 +724,7 @@ class Image(object):
 
     @implements(_galsim.Image.wrap)
     def wrap(self, bounds, hermitian=False):
+        self._check_mutable()
         if not isinstance(bounds, BoundsI):
             raise TypeError("bounds must be a galsim.BoundsI instance")
 
@@ -1478,6 +1484,7 @@ def Image_add(self, other):
 
 
 def Image_iadd(self, other):
+    self._check_mutable()
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1510,6 +1517,7 @@ def Image_rsub(self, other):
 
 
 def Image_isub(self, other):
+    self._check_mutable()
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1538,6 +1546,7 @@ def Image_mul(self, other):
 
 
 def Image_imul(self, other):
+    self._check_mutable()
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1570,6 +1579,7 @@ def Image_rdiv(self, other):
 
 
 def Image_idiv(self, other):
+    self._check_mutable()
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1605,6 +1615,7 @@ def Image_rfloordiv(self, other):
 
 
 def Image_ifloordiv(self, other):
+    self._check_mutable()
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1638,6 +1649,7 @@ def Image_rmod(self, other):
 
 
 def Image_imod(self, other):
+    self._check_mutable()
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1661,6 +1673,7 @@ def Image_pow(self, other):
 
 
 def Image_ipow(self, other):
+    self._check_mutable()
     if not isinstance(other, int) and not isinstance(other, float):
         raise TypeError("Can only raise an image to a float or int power!")
 
@@ -1692,6 +1705,7 @@ def Image_and(self, other):
 
 
 def Image_iand(self, other):
+    self._check_mutable()
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1711,6 +1725,7 @@ def Image_xor(self, other):
 
 
 def Image_ixor(self, other):
+    self._check_mutable()
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1730,6 +1745,7 @@ def Image_or(self, other):
 
 
 def Image_ior(self, other):
+    self._check_mutable()
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index d001b5a..30a8d40 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -100,6 +100,7 @@ class BaseNoise:
     def applyTo(self, image):
         if not isinstance(image, Image):
             raise TypeError("Provided image must be a galsim.Image")
+        image._check_mutable()
         return self._applyTo(image)
 
     def _applyTo(self, image):
@@ -530,6 +531,7 @@ class VariableGaussianNoise(BaseNoise):
     def applyTo(self, image):
         if not isinstance(image, Image):
             raise TypeError("Provided image must be a galsim.Image")
+        image._check_mutable()
         if image.array.shape != self.var_image.array.shape:
             raise GalSimIncompatibleValuesError(
                 "Provided image shape does not match the shape of var_image",
diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index e97ee2b..7de5e1e 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -869,6 +869,7 @@ class PhotonArray:
         lax_description="The JAX equivalent of galsim.PhotonArray.addTo may not raise for undefined bounds.",
     )
     def addTo(self, image):
+        image._check_mutable()
         if not image.bounds.isDefined():
             raise GalSimUndefinedBoundsError(
                 "Attempting to PhotonArray::addTo an Image with undefined Bounds"
-- 
2.43.0


From 0168bd783149311e44788a93f61d50eaa716f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 07/25] fix: read ShearWCS and OffsetShearWCS back from FITS
 headers

---
 jax_galsim/wcs.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index ea3a9db..b8f8506 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -1070,6 +1070,13 @@ class ShearWCS(LocalWCS):
         )
         return self.affine()._writeLinearWCS(header, bounds)
 
+    @staticmethod
+    def _readHeader(header):
+        scale = header["GS_SCALE"]
+        g1 = header["GS_G1"]
+        g2 = header["GS_G2"]
+        return ShearWCS(scale, Shear(g1=g1, g2=g2))
+
     @implements(_galsim.wcs.ShearWCS.copy)
     def copy(self):
         return ShearWCS(self._scale, self._shear)
@@ -1470,6 +1477,19 @@ class OffsetShearWCS(UniformWCS):
         )
         return self.affine()._writeLinearWCS(header, bounds)
 
+    @staticmethod
+    def _readHeader(header):
+        scale = header["GS_SCALE"]
+        g1 = header["GS_G1"]
+        g2 = header["GS_G2"]
+        x0 = header["GS_X0"]
+        y0 = header["GS_Y0"]
+        u0 = header["GS_U0"]
+        v0 = header["GS_V0"]
+        return OffsetShearWCS(
+            scale, Shear(g1=g1, g2=g2), PositionD(x0, y0), PositionD(u0, v0)
+        )
+
     @implements(_galsim.wcs.OffsetShearWCS.copy)
     def copy(self):
         return OffsetShearWCS(self.scale, self.shear, self.origin, self.world_origin)
-- 
2.43.0


From 8a3c135b007b8b8e1bbff103f288af2f55a78f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 08/25] fix: write the WCS header of images whose origin is not
 (1, 1)

---
 jax_galsim/wcs.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index b8f8506..fec8e00 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -196,6 +196,36 @@ class BaseWCS(_galsim.BaseWCS):
         depr("withOrigin", 2.3, "shiftOrigin")
         return self.shiftOrigin(origin, world_origin, color)
 
+    @implements(_galsim.BaseWCS.writeToFitsHeader)
+    def writeToFitsHeader(self, header, bounds):
+        # First write the XMIN, YMIN values
+        header["GS_XMIN"] = (bounds.xmin, "GalSim image minimum x coordinate")
+        header["GS_YMIN"] = (bounds.ymin, "GalSim image minimum y coordinate")
+
+        if bounds.xmin != 1 or bounds.ymin != 1:
+            # ds9 always assumes the image has an origin at (1,1), so we always write the
+            # WCS to the file with this convention.  We'll convert back when we read it
+            # in if necessary.
+            delta = PositionI(1 - bounds.xmin, 1 - bounds.ymin)
+            bounds = bounds.shift(delta)
+            wcs = self.shiftOrigin(delta)
+        else:
+            wcs = self
+
+        wcs._writeHeader(header, bounds)
+
+        if hasattr(self, "header"):
+            # Store the items that are in self.header in the header if they weren't already put
+            # there by the call to wcs._writeHeader() call.  (We don't want to overwrite the WCS.)
+            for key in self.header:
+                if (
+                    key not in header
+                    and key.strip() != ""
+                    and key.strip() != "COMMENT"
+                    and key.strip() != "HISTORY"
+                ):
+                    header[key] = self.header[key]
+
     # A lot of classes will need these checks, so consolidate them here
     def _set_origin(self, origin, world_origin=None):
         if origin is None:
-- 
2.43.0


From bd6c4823b6c12e4e273fe4ccc3e9252eaa4827ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 09/25] fix: keep the static flags of Convolution usable under
 jit

---
 jax_galsim/convolve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/convolve.py b/jax_galsim/convolve.py
index e6df076..248078f 100644
--- a/jax_galsim/convolve.py
+++ b/jax_galsim/convolve.py
@@ -220,7 +220,7 @@ class Convolution(GSObject):
     @property
     def _is_axisymmetric(self):
         axi_list = [obj.is_axisymmetric for obj in self.obj_list]
-        return jnp.all(jnp.array(axi_list)).item()
+        return all(axi_list)
 
     @property
     def _is_analytic_x(self):
@@ -228,14 +228,14 @@ class Convolution(GSObject):
             return self.obj_list[0].is_analytic_x
         elif self.real_space and len(self.obj_list) == 2:
             ax_list = [obj.is_analytic_x for obj in self.obj_list]
-            return jnp.all(jnp.arry(ax_list)).item()  # return a bool
+            return all(ax_list)
         else:
             return False
 
     @property
     def _is_analytic_k(self):
         ak_list = [obj.is_analytic_k for obj in self.obj_list]
-        return jnp.all(jnp.array(ak_list)).item()  # return a bool
+        return all(ak_list)
 
     @property
     def _centroid(self):
-- 
2.43.0


From 4b29d3bcff6f79c0ba8bc9393ef2cab5ae44ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 10/25] fix: accept a traced scale in the Image constructor

---
 jax_galsim/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index c8529e9..23872bf 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -8,6 +8,7 @@ from jax.tree_util import register_pytree_node_class
 from jax_galsim.bounds import Bounds, BoundsD, BoundsI
 from jax_galsim.core.utils import (
     cast_numpy_array_to_native_byte_order,
+    cast_to_float,
     ensure_hashable,
     implements,
 )
@@ -263,7 +264,7 @@ class Image(object):
                     wcs=wcs,
                     scale=scale,
                 )
-            self.wcs = PixelScale(float(scale))
+            self.wcs = PixelScale(cast_to_float(scale))
         else:
             if wcs is not None and not isinstance(wcs, BaseWCS):
                 raise TypeError("wcs parameters must be a galsim.BaseWCS instance")
-- 
2.43.0


From b478a81f3f3954a035f683d38f55b0033b365271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 11/25] fix: do not modify the caller's angle in CelestialCoord

---
 jax_galsim/celestial.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/celestial.py b/jax_galsim/celestial.py
index 5645eda..08cbdde 100644
--- a/jax_galsim/celestial.py
+++ b/jax_galsim/celestial.py
@@ -80,10 +80,12 @@ class CelestialCoord(object):
                 if dec._rad < -np.pi / 2 or dec._rad > np.pi / 2:
                     raise ValueError("dec must be between -90 deg and +90 deg.")
             else:
-                dec._rad = equinox.error_if(
-                    jnp.array(dec._rad),
-                    jnp.any((dec._rad < -jnp.pi / 2) | (dec._rad > jnp.pi / 2)),
-                    "dec must be between -90 deg and +90 deg.",
+                dec = _Angle(
+                    equinox.error_if(
+                        jnp.array(dec._rad),
+                        jnp.any((dec._rad < -jnp.pi / 2) | (dec._rad > jnp.pi / 2)),
+                        "dec must be between -90 deg and +90 deg.",
+                    )
                 )
 
             # Normal case
-- 
2.43.0


From 2d3c263b089fb849dd740e48945a9be9e252a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 12/25] fix: keep copies of undefined Bounds undefined

---
 jax_galsim/bounds.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index 69ab874..87b6d11 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -78,7 +78,6 @@ class Bounds:
                         "Single argument to %s must be either a Bounds or a Position"
                         % (self.__class__.__name__)
                     )
-                self._isdefined = True
             elif len(args) == 2:
                 if isinstance(args[0], Position) and isinstance(args[1], Position):
                     self._isdefined = True
-- 
2.43.0


From e3bbb690fda4293fad21aaa1808cfff91b3fe827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 13/25] fix: dir() of an InterpolatedImage

---
 jax_galsim/interpolatedimage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 1d2ed08..f8d5f39 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -214,7 +214,7 @@ class InterpolatedImage(Transformation, metaclass=DirMeta):
         return super().__getattribute__(name)
 
     def __dir__(self):
-        allattrs = set(self.__dict__.keys() + dir(self.__class__))
+        allattrs = set(self.__dict__.keys()) | set(dir(self.__class__))
         allattrs -= set(_KEYS_TO_REMOVE)
         return list(allattrs)
 
-- 
2.43.0


From aa62cda3e597c07d269f0302b770b17ca201ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 14/25] fix: make g1g2_to_e1e2 usable under jit

---
 jax_galsim/utilities.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/jax_galsim/utilities.py b/jax_galsim/utilities.py
index 8f575c6..ae2c371 100644
--- a/jax_galsim/utilities.py
+++ b/jax_galsim/utilities.py
@@ -85,15 +85,13 @@ def g1g2_to_e1e2(g1, g2):
     # b/a = (1-g)/(1+g)
     # e = (1-(b/a)^2) / (1+(b/a)^2)
     gsq = g1 * g1 + g2 * g2
-    if gsq == 0.0:
-        return 0.0, 0.0
-    else:
-        g = jnp.sqrt(gsq)
-        boa = (1 - g) / (1 + g)
-        e = (1 - boa * boa) / (1 + boa * boa)
-        e1 = g1 * (e / g)
-        e2 = g2 * (e / g)
-        return e1, e2
+    is_zero = gsq == 0.0
+    g = jnp.sqrt(jnp.where(is_zero, 1.0, gsq))
+    boa = (1 - g) / (1 + g)
+    e = jnp.where(is_zero, 0.0, (1 - boa * boa) / (1 + boa * boa))
+    e1 = g1 * (e / g)
+    e2 = g2 * (e / g)
+    return e1, e2
 
 
 @implements(_galsim.utilities.convert_interpolant)
-- 
2.43.0


From 32895c47657cc599eecdc4b3837f29c680879760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 15/25] fix: equal undefined Bounds have equal hashes

---
 jax_galsim/bounds.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index 87b6d11..2924b99 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -321,10 +321,7 @@ class Bounds:
         return hash(
             (
                 self.__class__.__name__,
-                ensure_hashable(self.xmin),
-                ensure_hashable(self.deltax),
-                ensure_hashable(self.ymin),
-                ensure_hashable(self.deltay),
+                tuple(ensure_hashable(arg) for arg in self._getinitargs()),
             )
         )
 
@@ -479,10 +476,7 @@ class BoundsD(Bounds):
         return hash(
             (
                 self.__class__.__name__,
-                ensure_hashable(self.xmin),
-                ensure_hashable(self.deltax),
-                ensure_hashable(self.ymin),
-                ensure_hashable(self.deltay),
+                tuple(ensure_hashable(arg) for arg in self._getinitargs()),
             )
         )
 
@@ -701,9 +695,6 @@ class BoundsI(Bounds):
         return hash(
             (
                 self.__class__.__name__,
-                ensure_hashable(self.xmin),
-                ensure_hashable(self.deltax),
-                ensure_hashable(self.ymin),
-                ensure_hashable(self.deltay),
+                tuple(ensure_hashable(arg) for arg in self._getinitargs()),
             )
         )
-- 
2.43.0


From 4e9c92e7b352fd68ffa6c5ef095240ec25e0b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 16/25] fix: Bounds.includes(x, y) usable under jit

---
 jax_galsim/bounds.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index 2924b99..90e6d04 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -205,13 +205,14 @@ class Bounds:
             else:
                 raise TypeError("Invalid argument %s" % args[0])
         elif len(args) == 2:
-            x, y = args
+            x = cast_to_float(args[0], accept_strings=True)
+            y = cast_to_float(args[1], accept_strings=True)
             return (
                 self.isDefined()
-                & (self.xmin <= float(x))
-                & (self.ymin <= float(y))
-                & (float(x) <= self.xmax)
-                & (float(y) <= self.ymax)
+                & (self.xmin <= x)
+                & (self.ymin <= y)
+                & (x <= self.xmax)
+                & (y <= self.ymax)
             )
         elif len(args) == 0:
             raise TypeError("include takes at least 1 argument (0 given)")
-- 
2.43.0


From cec1f2dbf2b00855fb9201c2dac04fc2097fdc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 17/25] fix: Poisson and CCD noise with a traced sky level

---
 jax_galsim/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 30a8d40..cb288e9 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -209,7 +209,7 @@ class PoissonNoise(BaseNoise):
         # right if the sky has a fractional part.  So only subtract off the integer part of the
         # sky at the end.  For float images, you get the same answer either way, so it doesn't
         # matter.
-        frac_sky = self.sky_level - image.dtype(self.sky_level)
+        frac_sky = self.sky_level - jnp.astype(self.sky_level, image.dtype)
         int_sky = self.sky_level - frac_sky
 
         noise_array = jax.lax.cond(
@@ -327,7 +327,7 @@ class CCDNoise(BaseNoise):
         noise_array = image.array.copy().astype(float)
 
         # cf. PoissonNoise._applyTo function
-        frac_sky = self.sky_level - image.dtype(self.sky_level)  # 0 if dtype = float
+        frac_sky = self.sky_level - jnp.astype(self.sky_level, image.dtype)  # 0 if dtype = float
         int_sky = self.sky_level - frac_sky
 
         noise_array = jax.lax.cond(
-- 
2.43.0


From d05182fd81ee5fa0d8e222b3f86d4b2dfabe67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 18/25] fix: drawReal returns the dtype of the target image for
 integer images

---
 jax_galsim/gsobject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 9b848a3..8f3600f 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -836,6 +836,7 @@ The JAX-GalSim version of ``drawImage``
             # jax-galsim's rounding of float-to-int is platform dependent
             # so we explicitly round to ints if needed
             temp.array = jnp.around(temp.array)
+        temp._array = temp._array.astype(image.array.dtype)
 
         if add_to_image:
             image._array = image._array.at[...].add(temp._array)
-- 
2.43.0


From 11e94c386cc0e702eaf32989ca7689bd1dba5527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 19/25] fix: end slopes of the Akima interpolant at the last
 nodes

---
 jax_galsim/core/interpolate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/core/interpolate.py b/jax_galsim/core/interpolate.py
index 34e2339..bc9e265 100644
--- a/jax_galsim/core/interpolate.py
+++ b/jax_galsim/core/interpolate.py
@@ -44,8 +44,8 @@ def _akima_interp_coeffs_nojax(x, y):
     # at the ends
     s0 = mi[0:1]
     s1 = (mi[0:1] + mi[1:2]) / 2.0
-    snm2 = (mi[-3:-2] + mi[-2:-1]) / 2.0
-    snm1 = mi[-2:-1]
+    snm2 = (mi[-2:-1] + mi[-1:]) / 2.0
+    snm1 = mi[-1:]
 
     wim1 = np.abs(mi[3:] - mi[2:-1])
     wi = np.abs(mi[1:-2] - mi[0:-3])
@@ -78,8 +78,8 @@ def _akima_interp_coeffs_jax(x, y):
     # at the ends
     s0 = mi[0:1]
     s1 = (mi[0:1] + mi[1:2]) / 2.0
-    snm2 = (mi[-3:-2] + mi[-2:-1]) / 2.0
-    snm1 = mi[-2:-1]
+    snm2 = (mi[-2:-1] + mi[-1:]) / 2.0
+    snm1 = mi[-1:]
 
     wim1 = jnp.abs(mi[3:] - mi[2:-1])
     wi = jnp.abs(mi[1:-2] - mi[0:-3])
-- 
2.43.0


From b5776a5cdafb4d1033166f4161b8ae05b5491d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 20/25] fix: permute consumes a fresh key instead of reusing
 the next deviate's key

---
 jax_galsim/random.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/random.py b/jax_galsim/random.py
index 2cf2db2..ac546e9 100644
--- a/jax_galsim/random.py
+++ b/jax_galsim/random.py
@@ -764,8 +764,10 @@ def permute(rng, *args):
         raise TypeError(
             f"`galsim.random.permute` must be called with at least one array. Got {args!r}"
         )
+    # consume a fresh key so that the permutations are independent of the
+    # next deviates drawn from rng; each array gets the same permutation
+    key = rng._state.split_one()
     arrs = []
     for arr in args:
-        arrs.append(jrandom.permutation(rng._key, arr))
-    rng.discard(1)
+        arrs.append(jrandom.permutation(key, arr))
     return arrs
-- 
2.43.0


From 9537a679d99709c9b030313e634cce0d7b4ea61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 21/25] fix: build BoundsD from two positions with traced
 coordinates

---
 jax_galsim/bounds.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index 90e6d04..a4c0574 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -37,6 +37,14 @@ returns ``True``) are treated as constants with respect to ``vmap``,
 """
 
 
+def _minmax(a, b):
+    # Python values stay static, JAX ones (which may be traced) need the jnp functions.
+    if isinstance(a, jax.Array) or isinstance(b, jax.Array):
+        return jnp.minimum(a, b), jnp.maximum(a, b)
+    else:
+        return min(a, b), max(a, b)
+
+
 @implements(_galsim.Bounds, lax_description=BOUNDS_LAX_DESCR)
 @register_pytree_node_class
 class Bounds:
@@ -81,10 +89,8 @@ class Bounds:
             elif len(args) == 2:
                 if isinstance(args[0], Position) and isinstance(args[1], Position):
                     self._isdefined = True
-                    self.xmin = min(args[0].x, args[1].x)
-                    self.xmax = max(args[0].x, args[1].x)
-                    self.ymin = min(args[0].y, args[1].y)
-                    self.ymax = max(args[0].y, args[1].y)
+                    self.xmin, self.xmax = _minmax(args[0].x, args[1].x)
+                    self.ymin, self.ymax = _minmax(args[0].y, args[1].y)
                 else:
                     raise TypeError(
                         "Two arguments to %s must be Positions"
-- 
2.43.0


From f65654ee195aa6437bd9068ca51256e0d323d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 22/25] fix: include the upper neighbour when interpolating
 with Nearest

---
 jax_galsim/interpolatedimage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index f8d5f39..102d1e4 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -1022,7 +1022,7 @@ def _draw_with_interpolant_xval(x, y, xmin, ymin, zp, interp):
     yp = yi + ymin
     ny = zp.shape[0]
 
-    irange = interp.ixrange // 2
+    irange = (interp.ixrange + 1) // 2
     iinds = jnp.arange(-irange, irange + 1)
 
     wx, xind = _interp_weight_1d_xval(
@@ -1129,7 +1129,7 @@ def _draw_with_interpolant_kval(kx, ky, kxmin, kymin, zp, interp):
     kyp = kyi + kymin
     nky = zp.shape[0]
 
-    irange = interp.ixrange // 2
+    irange = (interp.ixrange + 1) // 2
     iinds = jnp.arange(-irange, irange + 1)
 
     wkx, kxind = _interp_weight_1d_kval(
-- 
2.43.0


From b2c6b6c69f231a7ab0379d174f1a377425b2dadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 23/25] fix: subtract the offset from the centroid of an
 InterpolatedImage

---
 jax_galsim/interpolatedimage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 102d1e4..e4600ee 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -586,7 +586,7 @@ class _InterpolatedImageImpl(GSObject):
         tot = jnp.sum(self._pad_image.array)
         xpos = jnp.sum(x * self._pad_image.array) / tot
         ypos = jnp.sum(y * self._pad_image.array) / tot
-        return PositionD(xpos, ypos)
+        return PositionD(xpos, ypos) - self._offset
 
     @property
     def _max_sb(self):
-- 
2.43.0


From 91dad5a29c03d22729ec55cfeb4254e1628f7b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:20 +0000
Subject: [PATCH 24/25] fix: integrate the linear core of a negative-nu Spergel
 when shooting photons

---
 jax_galsim/spergel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index 200d197..c2163ee 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -486,11 +486,11 @@ class Spergel(GSObject):
         a = knur - shoot_rmin * b
 
         def cumulflux(z, a, b, zmin, nu, norm=1.0):
-            flux_min = a / 3.0 * zmin * zmin * zmin + b / 2.0 * zmin * zmin
+            flux_min = a / 2.0 * zmin * zmin + b / 3.0 * zmin * zmin * zmin
             c1 = fz_nup1(zmin, nu)
             res = jnp.where(
                 z <= zmin,
-                a / 3.0 * z * z * z + b / 2.0 * z * z,
+                a / 2.0 * z * z + b / 3.0 * z * z * z,
                 flux_min + c1 - fz_nup1(z, nu),
             )
             return res / norm
-- 
2.43.0


From ba04a135ee042d9403d991d1099e6c4c746e9fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:20 +0000
Subject: [PATCH 25/25] fix: keep the sign of Gamma for negative arguments in
 Spergel

---
 jax_galsim/spergel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index c2163ee..e420f7e 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -15,7 +15,7 @@ from jax_galsim.random import UniformDeviate
 def gamma(x):
     """Gamma(x)"""
     x = x * 1.0
-    return jnp.exp(jax.lax.lgamma(x))
+    return jax.scipy.special.gamma(x)
 
 
 @jax.jit
-- 
2.43.0

