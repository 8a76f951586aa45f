From f78a4ffbf67abe4dc2e318182576005e8409c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 01/40] fix: radial_profile no longer uses np.int, which
 current numpy lacks

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 37ef17e..5a5e0b5 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -396,7 +396,7 @@ def radial_profile(data, center=None, binsize=1.0):
     idx2 = idx - center[(Ellipsis,) + (np.newaxis,) * (data.ndim)]
     r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))
     # convert to int
-    r = np.round(r / binsize).astype(np.int)
+    r = np.round(r / binsize).astype(int)
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
     # sum the squares at equal r
-- 
2.43.0


From b20b8e5547830d5d93265d95f92eb53fae8d413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 02/40] fix: radial_profile std no longer overflows for integer
 data or is nan for constant rings

---
 pyotf/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 5a5e0b5..7919128 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -384,6 +384,8 @@ def radial_profile(data, center=None, binsize=1.0):
         # mag_prof, mag_std = radial_profile(np.abs(data), center, binsize)
         # phase_prof, phase_std = radial_profile(np.angle(data), center, binsize)
         # return mag_prof * np.exp(phase_prof * 1j), mag_std * np.exp(phase_std * 1j)
+    # avoid overflow when squaring integer data
+    data = np.asarray(data, dtype=float)
     # pull the data shape
     idx = np.indices((data.shape))
     if center is None:
@@ -408,6 +410,7 @@ def radial_profile(data, center=None, binsize=1.0):
     # have NaN for binsize != 1
     radial_mean = tbin / nr
     # calculate the radial std
-    radial_std = np.sqrt(tbin2 / nr - radial_mean ** 2)
+    # (rounding can make the variance of a constant ring slightly negative)
+    radial_std = np.sqrt(np.maximum(0, tbin2 / nr - radial_mean ** 2))
     # return them
     return radial_mean, radial_std
-- 
2.43.0


From 1b531f41af8379d106fada4f55e4da39a4c68e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 03/40] fix: easy_ifft is the inverse of easy_fft for odd sizes
 too

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 7919128..ed2fd65 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -161,7 +161,7 @@ def easy_fft(data, axes=None):
 
 def easy_ifft(data, axes=None):
     """Inverse FFT that includes shifting."""
-    return ifftshift(ifftn(fftshift(data, axes=axes), axes=axes), axes=axes)
+    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)
 
 
 def cart2pol(y, x):
-- 
2.43.0


From 8c2fb6c5dce426cec77a1dd47082551729a81765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 04/40] fix: remove_bg with an integer multiplier no longer
 wraps unsigned data around

---
 pyotf/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index ed2fd65..004add7 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -247,7 +247,8 @@ def remove_bg(data, multiplier=1.5):
     # should add bit for floats, that will find the mode using the hist
     # function bincounts with num bins specified
     mode = np.bincount(data.ravel()).argmax()
-    return data - multiplier * mode
+    # make sure that the result is floating point so that it cannot wrap around
+    return data - float(multiplier * mode)
 
 
 def psqrt(data):
-- 
2.43.0


From d41374c7f3a4cff01a475ceb8681f91a65d5201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 05/40] fix: prep_data_for_PR clips at zero when cropping, as
 documented

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 004add7..83ddf74 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -290,7 +290,7 @@ def prep_data_for_PR(data, xysize=None, multiplier=1.5):
     else:
         # if need to crop, crop and center and return
         my_slice = slice_maker(((ny + 1) // 2, (nx + 1) // 2), xysize)
-        return center_data(data_without_bg)[(Ellipsis,) + my_slice]
+        pad_data = center_data(data_without_bg)[(Ellipsis,) + my_slice]
     # return centered data
     return np.fmax(0, pad_data)
 
-- 
2.43.0


From d1d090f61073044022c99de6b29d14bc01e00f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 06/40] fix: prep_data_for_PR crops around the centered maximum
 for odd sizes

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 83ddf74..3d0a654 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -289,7 +289,7 @@ def prep_data_for_PR(data, xysize=None, multiplier=1.5):
         pad_data = fft_pad(data_without_bg, (nz, xysize, xysize), mode="constant")
     else:
         # if need to crop, crop and center and return
-        my_slice = slice_maker(((ny + 1) // 2, (nx + 1) // 2), xysize)
+        my_slice = slice_maker((ny // 2, nx // 2), xysize)
         pad_data = center_data(data_without_bg)[(Ellipsis,) + my_slice]
     # return centered data
     return np.fmax(0, pad_data)
-- 
2.43.0


From 3cc448e798b02513ad283a1b9f6e90a4256b5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 07/40] fix: prep_data_for_PR returns the requested size when
 one dimension is too small

---
 pyotf/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 3d0a654..b1d59ba 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -289,8 +289,11 @@ def prep_data_for_PR(data, xysize=None, multiplier=1.5):
         pad_data = fft_pad(data_without_bg, (nz, xysize, xysize), mode="constant")
     else:
         # if need to crop, crop and center and return
-        my_slice = slice_maker((ny // 2, nx // 2), xysize)
-        pad_data = center_data(data_without_bg)[(Ellipsis,) + my_slice]
+        # (a dimension that is too small needs to be padded first)
+        pad_shape = nz, max(ny, xysize), max(nx, xysize)
+        pad_data = center_data(fft_pad(data_without_bg, pad_shape, mode="constant"))
+        my_slice = slice_maker((pad_shape[1] // 2, pad_shape[2] // 2), xysize)
+        pad_data = pad_data[(Ellipsis,) + my_slice]
     # return centered data
     return np.fmax(0, pad_data)
 
-- 
2.43.0


From 0957c8e8cbdf53811423b2ec4a2dc729240505e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 08/40] fix: HanserPSF default z range puts focus at the array
 center for odd zsize

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index d2a2915..43f94fa 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -289,7 +289,7 @@ class HanserPSF(BasePSF):
 
     def _gen_zrange(self):
         """Generate the zrange from zsize and zres."""
-        self.zrange = (np.arange(self.zsize) - (self.zsize + 1) // 2) * self.zres
+        self.zrange = (np.arange(self.zsize) - self.zsize // 2) * self.zres
 
     @BasePSF.zsize.setter
     def zsize(self, value):
-- 
2.43.0


From 03eee4f88e6b88e9b740ce288a8a19a8340a40f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 09/40] fix: HanserPSF no longer reshapes or aliases the
 caller's zrange array

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 43f94fa..13abad2 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -319,7 +319,7 @@ class HanserPSF(BasePSF):
 
     @zrange.setter
     def zrange(self, value):
-        self._zrange = np.asarray(value)
+        self._zrange = np.array(value)
         # check if passed value is scalar
         if not self._zrange.shape:
             # convert to array for later multiplications
-- 
2.43.0


From 00a88ae37e231e2c98a7b15c6a9ee12bbf8f2ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 10/40] fix: SheppardPSF applies the imaging condition without
 vectorial correction too

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 13abad2..28fe290 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -569,7 +569,7 @@ class SheppardPSF(BasePSF):
             # otf_sub = self._gen_radsym_otf()
             # otf = otf_sub[np.newaxis]
             otf_sub = np.zeros((self.zsize, self.size, self.size), dtype="D")
-            otf_sub[self.valid_points] = 1.0
+            otf_sub[self.valid_points] = a
             otf = otf_sub[np.newaxis]
         # we're already calculating the OTF, so we just need to shift it into
         # the right place.
-- 
2.43.0


From 4587b38cb4c132bfdb991e39b67f3c300d95c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 11/40] fix: reject a non-positive res

---
 pyotf/otf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 28fe290..bec33c8 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -151,6 +151,9 @@ class BasePSF(object):
         # to be the Abbe limit can allow phase retrieval for
         # larger pixels
         abbe_limit = 1 / (2 * self.na / self.wl)
+        # make sure res is positive
+        if not value > 0:
+            raise ValueError("res must be positive")
         if value >= abbe_limit:
             raise ValueError(
                 f"{value} is larger than the Abbe Limit, try a number smaller than {abbe_limit}"
-- 
2.43.0


From 45d8524271e28dea2cd9f74077697367ff7fe4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 12/40] fix: uniform z-step check does not depend on the length
 unit

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index bec33c8..5fd4c2b 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -219,7 +219,7 @@ class BasePSF(object):
         try:
             # make sure there's only one size of z-step and that there's more than one
             zsteps = np.diff(self.zrange)
-            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean()):
+            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean(), atol=0):
                 raise RuntimeError(f"{self} doesn't have uniform z-steps ---> {zsteps}")
         except AttributeError:
             pass
-- 
2.43.0


From d822516e94b502d31589290ce6dbbd73df17d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 13/40] fix: SIM excitation pattern is centered on the PSF for
 odd sizes

---
 pyotf/microscope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index a845157..e92f892 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -320,11 +320,11 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         """
         # centered coordinate system.
         x = (
-            np.arange(self.psf_params["size"]) - (self.psf_params["size"] + 1) // 2
+            np.arange(self.psf_params["size"]) - self.psf_params["size"] // 2
         ) * self.psf_params["res"]
 
         z = (
-            np.arange(self.psf_params["zsize"]) - (self.psf_params["zsize"] + 1) // 2
+            np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2
         ) * self.psf_params["zres"]
 
         # open grid
-- 
2.43.0


From ec1a58596870e594e5790a4ccec72a0997a847d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 14/40] fix: SIM microscopes accept wiener=None as documented

---
 pyotf/microscope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index e92f892..6b85301 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -299,7 +299,7 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener < 0:
+        if self.wiener is not None and self.wiener < 0:
             raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
 
     def __repr__(self):
-- 
2.43.0


From 0b12b57a64d18457304d37bad254126270837832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 15/40] fix: SIM microscopes accept integer excitation
 wavelength and NA, like the emission ones

---
 pyotf/microscope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 6b85301..17d1b16 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -264,8 +264,8 @@ class ApotomeMicroscope(WidefieldMicroscope):
 class BaseSIMMicroscope(WidefieldMicroscope):
     """A base class for SIM and SIM like microscopes."""
 
-    na_exc = NumericProperty(attr="_na_exc", vartype=float, doc="The excitation NA")
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
+    na_exc = NumericProperty(attr="_na_exc", vartype=(float, int), doc="The excitation NA")
+    wl_exc = NumericProperty(attr="_wl_exc", vartype=(float, int), doc="The excitation wavelength")
     coherent = NumericProperty(
         attr="_coherent", vartype=bool, doc="Treat the orientations coherently?"
     )
-- 
2.43.0


From acf2b3df4f4dd4de9d7a827b5664610b519ff7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 16/40] fix: changing wiener or orientations of a SIM
 microscope updates its PSF and OTF

---
 pyotf/microscope.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 17d1b16..9b5c381 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -299,8 +299,28 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener is not None and self.wiener < 0:
-            raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
+
+    @property
+    def wiener(self):
+        """Wiener parameter, None means no deconvolution."""
+        return self._wiener
+
+    @wiener.setter
+    def wiener(self, value):
+        if value is not None and value < 0:
+            raise ValueError(f"self.wiener is {value:} which should be greater than zero")
+        self._wiener = value
+        self._attribute_changed()
+
+    @property
+    def orientations(self):
+        """Orientation angles of the excitation."""
+        return self._orientations
+
+    @orientations.setter
+    def orientations(self, value):
+        self._orientations = value
+        self._attribute_changed()
 
     def __repr__(self):
         """Represent a SIM microscope."""
-- 
2.43.0


From 6fdc5eaae5e0f841b76dc8448714394eca8deff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 17/40] fix: ConfocalMicroscope.wl_exc can be read and changing
 it updates the PSF

---
 pyotf/microscope.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 9b5c381..0da9887 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -191,8 +191,6 @@ class ConfocalMicroscope(WidefieldMicroscope):
         doc="Size of the pinhole (in airy units relative to emission wavelength",
     )
 
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
-
     def __init__(self, *, wl_exc, pinhole_size, **kwargs):
         super().__init__(**kwargs)
         self.pinhole_size = pinhole_size
@@ -201,6 +199,16 @@ class ConfocalMicroscope(WidefieldMicroscope):
         self.model_exc = copy.deepcopy(self.model)
         self.model_exc.wl = wl_exc
 
+    @property
+    def wl_exc(self):
+        """The excitation wavelength."""
+        return self.model_exc.wl
+
+    @wl_exc.setter
+    def wl_exc(self, value):
+        self.model_exc.wl = value
+        self._attribute_changed()
+
     def __repr__(self):
         """Represent a confocal microscope."""
         return (
-- 
2.43.0


From c1bcd34d18f8b65ad5bdb0bb2fc19a6a5fbdfd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 18/40] fix: retrieve_phase no longer changes the caller's
 params

---
 pyotf/phaseretrieval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index ec7c637..b2cae30 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -71,8 +71,9 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
     assert data.shape[1] == data.shape[2], "Data is not square in x/y"
     assert data.ndim == 3, "Data doesn't have enough dims"
     # make sure the user hasn't screwed up the params
-    params.update(
-        dict(vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1])
+    # (without changing the user's dict)
+    params = dict(
+        params, vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1]
     )
     # assume that data prep has been handled outside function
     # The field magnitude is the square root of the intensity
-- 
2.43.0


From 3a74bcab4be993febe9103f81e4ad22e1e0a3617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 19/40] fix: retrieve_phase result model matches the returned
 pupil when max_iters is reached

---
 pyotf/phaseretrieval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index b2cae30..4ae164d 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -131,6 +131,8 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
             new_pupil = np.exp(1j * np.angle(new_pupil)) * mask
     else:
         logger.info("Reach max iterations without convergence")
+        # the pupil was updated after the model, keep them consistent
+        model.apply_pupil(new_pupil)
     mse = mse[: i + 1]
     mse_diff = mse_diff[: i + 1]
     pupil_diff = pupil_diff[: i + 1]
-- 
2.43.0


From 9936733a5aea37958127d4f33eca62cddbf6f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 20/40] fix: fit_to_zernikes works for a single zernike

---
 pyotf/phaseretrieval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 4ae164d..cbd3f9f 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -196,7 +196,8 @@ class PhaseRetrievalResult(object):
         r, theta = self.r, self.theta
         r = r / (self.na / self.wl)
         # generate zernikes
-        zerns = zernike(r, theta, np.arange(1, num_zerns + 1))
+        # (a single zernike comes back squeezed)
+        zerns = zernike(r, theta, np.arange(1, num_zerns + 1)).reshape(num_zerns, *r.shape)
         mag_coefs = _fit_to_zerns(self.mag, zerns, r)
         phase_coefs = _fit_to_zerns(self.phase, zerns, r)
         self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
-- 
2.43.0


From 66fca12d6d6194b7ec175dbac2b0b3b58c2b1148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 21/40] fix: generate_psf keeps the PSF centered when padding
 from even to odd sizes

---
 pyotf/phaseretrieval.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index cbd3f9f..09c100b 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -23,7 +23,7 @@ from numpy.linalg import lstsq
 from skimage.restoration import unwrap_phase
 
 from .otf import HanserPSF
-from .utils import fft_pad, psqrt
+from .utils import psqrt
 from .zernike import noll2name, zernike
 
 logger = logging.getLogger(__name__)
@@ -221,7 +221,10 @@ class PhaseRetrievalResult(object):
         if size is not None:
             if nx < size:
                 # if size is too small, pad it out.
-                psf = fft_pad(psf, (nz, size, size), mode="constant")
+                # (keep the center at size // 2, fft_pad doesn't if the parity changes)
+                lb = size // 2 - nx // 2
+                pad_width = lb, size - nx - lb
+                psf = np.pad(psf, ((0, 0), pad_width, pad_width), mode="constant")
             elif nx > size:
                 # if size is too big, crop it
                 lb = size // 2
-- 
2.43.0


From 19a3813b154d547b698b43dc71960fa355d5db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 22/40] fix: plot_named_coefs works with fewer coefficients
 than names

---
 pyotf/phaseretrieval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 09c100b..25dc0d6 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -300,10 +300,11 @@ class ZernikeDecomposition(object):
         fig, ax = plt.subplots(1, 1, sharex=True, figsize=(6, 6))
         # get the ordered names
         ordered_names = [noll2name[i + 1].title() for i in range(len(noll2name))]
+        # pull the data, there may be fewer coefficients than names
+        data = self.pcoefs[: len(ordered_names)]
+        ordered_names = ordered_names[: len(data)]
         # make an x range for the bar plot
         x = np.arange(len(ordered_names)) + 1
-        # pull the data
-        data = self.pcoefs[: len(ordered_names)]
         # make the bar plot
         ax.bar(x[4:], data[4:], align="center", tick_label=ordered_names[4:])
         # set up axes
-- 
2.43.0


From d780fa8074075a8075f052c3958951b646e22edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 23/40] fix: YZ and XZ panels of psf_plot and otf_plot show the
 planes they are labelled with

---
 pyotf/display.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyotf/display.py b/pyotf/display.py
index a717526..6ff2c60 100644
--- a/pyotf/display.py
+++ b/pyotf/display.py
@@ -150,12 +150,12 @@ def psf_plot(
     # do plotting
     if mip:
         grid[3].imshow(psf.max(0), **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf.max(1).T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf.max(2), **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf.max(2).T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf.max(1), **dkwargs, extent=(*kx, *kz))
     else:
         grid[3].imshow(psf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
@@ -238,8 +238,8 @@ def otf_plot(
     kz, ky, kx = [fft_max_min(n, d) for n, d in zip(otf.shape, (zres, res, res))]
 
     grid[3].imshow(otf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-    grid[2].imshow(otf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-    grid[1].imshow(otf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+    grid[2].imshow(otf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+    grid[1].imshow(otf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
-- 
2.43.0


From 3d184b4cf768218d5aab82d52108d8610fd92c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 24/40] fix: degrees2noll rejects azimuthal degrees larger than
 the radial degree

---
 pyotf/zernike.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 0b182ad..949daa0 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -193,6 +193,8 @@ def degrees2noll(n, m):
         raise ValueError("Azimuthal degree is not integer, input = {m}")
     if ((n - m) % 2).any():
         raise ValueError("The difference between radial and azimuthal degree isn't mod 2")
+    if not (n >= abs(m)).all():
+        raise ValueError("n must always be greater or equal to m")
     # do the mapping
     p = (m + n * (n + 2)) / 2
     noll = noll_mapping[p.astype(int)]
-- 
2.43.0


From 71dbc9ac674537c9a8c72ba1b0fe904199d77b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 25/40] fix: SheppardPSF with dual objectives no longer yields
 nan on the second shell

---
 pyotf/otf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 5fd4c2b..34f832a 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -538,6 +538,9 @@ class SheppardPSF(BasePSF):
         kxx, kyy, kzz = self.kxx, self.kyy, self.kzz
         # generate direction cosines
         m, n, s = np.array((kxx, kyy, kzz)) / norm((kxx, kyy, kzz), axis=0)
+        # with dual objectives kz is negative on the second shell, but the angle is
+        # relative to the axis of the second objective, which points the other way
+        s = abs(s)
         # apply a given imaging condition
         if self.condition == "sine":
             a = 1.0 / np.sqrt(s)
-- 
2.43.0


From 47a396f72532c88e8cad6c27adf24a428be938a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 26/40] fix: plots of a HanserPSF use the z-step of its zrange

---
 pyotf/otf.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 34f832a..271e0e1 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -215,36 +215,38 @@ class BasePSF(object):
         return easy_fft(self.PSFi)
 
     def _validate_zrange(self):
-        """Check zrange for uniform step size."""
+        """Check zrange for uniform step size and return the step size."""
         try:
             # make sure there's only one size of z-step and that there's more than one
             zsteps = np.diff(self.zrange)
-            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean(), atol=0):
-                raise RuntimeError(f"{self} doesn't have uniform z-steps ---> {zsteps}")
         except AttributeError:
-            pass
+            return self.zres
+        if len(zsteps) < 2 or not zsteps.any() or not np.allclose(zsteps, zsteps.mean(), atol=0):
+            raise RuntimeError(f"{self} doesn't have uniform z-steps ---> {zsteps}")
+        # zrange doesn't need to have been generated from zres
+        return abs(zsteps.mean())
 
     def plot_psf(self, **kwargs):
         """Plot the intensity PSF.
         
         See `pyotf.display.psf_plot` for details and possible kwargs
         """
-        self._validate_zrange()
+        zres = self._validate_zrange()
         # smart cropping
         # nice lateral extent
         lateral_extent = self.wl / 2 / self.na / self.res * 32
-        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / self.zres * 16
+        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / zres * 16
 
         max_loc = np.unravel_index(self.PSFi.argmax(), self.PSFi.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSFi[crop], zres=self.zres, res=self.res, **kwargs)
+        return psf_plot(self.PSFi[crop], zres=zres, res=self.res, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
         
         See `pyotf.display.otf_plot` for details and possible kwargs
         """
-        self._validate_zrange()
+        zres = self._validate_zrange()
 
         # normalize OTF and make sure it's real
         otf = abs(self.OTFi)
@@ -255,7 +257,7 @@ class BasePSF(object):
         dkwargs.update(kwargs)
 
         return otf_plot(
-            otf, na=self.na, ni=self.ni, wl=self.wl, zres=self.zres, res=self.res, **dkwargs,
+            otf, na=self.na, ni=self.ni, wl=self.wl, zres=zres, res=self.res, **dkwargs,
         )
 
 
-- 
2.43.0


From b87bfb4586e5579b6506216b862c6ae9ad553ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 27/40] fix: plots of a microscope use its z-step when it
 differs from the pixel size

---
 pyotf/microscope.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 0da9887..f9176cf 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -138,13 +138,15 @@ class WidefieldMicroscope(object):
         axial_extent = (
             self.model.wl
             / (self.model.ni - np.sqrt(self.model.ni ** 2 - self.model.na ** 2))
-            / self.pixel_size
+            / self.psf_params["zres"]
             * 16
         )
 
         max_loc = np.unravel_index(self.PSF.argmax(), self.PSF.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSF[crop], zres=self.pixel_size, res=self.pixel_size, **kwargs)
+        return psf_plot(
+            self.PSF[crop], zres=self.psf_params["zres"], res=self.pixel_size, **kwargs
+        )
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -164,7 +166,7 @@ class WidefieldMicroscope(object):
             na=self.model.na,
             ni=self.model.ni,
             wl=self.model.wl,
-            zres=self.pixel_size,
+            zres=self.psf_params["zres"],
             res=self.pixel_size,
             **dkwargs,
         )
-- 
2.43.0


From 8bed1855f37c2c78df8f4801c30517b72c51fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 28/40] fix: zernike modes with odd azimuthal degree have the
 standard sign (1 at the rim)

---
 pyotf/zernike.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 949daa0..97e5c14 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -294,10 +294,10 @@ def _radial_zernike(r, n, m):
     # for the radial part m is always positive
     m = abs(m)
     # calculate the coefs
-    coef1 = (n + m) // 2
-    coef2 = (n - m) // 2
-    jacobi = eval_jacobi(coef2, m, 0, 1 - 2 * rprime ** 2)
-    rad_zern[valid_points] = (-1) ** coef1 * rprime ** m * jacobi
+    coef = (n - m) // 2
+    jacobi = eval_jacobi(coef, m, 0, 1 - 2 * rprime ** 2)
+    # the sign makes the radial part 1 at the rim, r = 1
+    rad_zern[valid_points] = (-1) ** coef * rprime ** m * jacobi
     return rad_zern
 
 
-- 
2.43.0


From 9ab39c98173abab2576aff1a035fd653bf102a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 29/40] fix: retrieve_phase no longer loses precision for 8-bit
 data

---
 pyotf/phaseretrieval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 25dc0d6..e3e6196 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -77,7 +77,8 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
     )
     # assume that data prep has been handled outside function
     # The field magnitude is the square root of the intensity
-    mag = psqrt(data)
+    # (in double precision, psqrt of 8-bit data is only half precision)
+    mag = psqrt(data.astype(float))
     # generate a model from parameters
     model = HanserPSF(**params)
     # generate coordinates
-- 
2.43.0


From b2b4702d96f4caf16291d99c60ccf1c16ff1392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 30/40] fix: retrieve_phase unwraps the phase inside the pupil
 only, without 2 pi jumps

---
 pyotf/phaseretrieval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index e3e6196..6926345 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -146,8 +146,10 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
 
     # shift mask
     mask = fftshift(mask)
-    # shift phase then unwrap and mask
-    phase = unwrap_phase(fftshift(np.angle(new_pupil))) * mask
+    # shift phase, mask and then unwrap
+    # (outside the pupil the phase is meaningless and mustn't guide the unwrapping)
+    phase = np.ma.array(fftshift(np.angle(new_pupil)), mask=mask == 0)
+    phase = unwrap_phase(phase).filled(0)
     # shift magnitude
     magnitude = fftshift(abs(new_pupil)) * mask
     return PhaseRetrievalResult(magnitude, phase, mse, pupil_diff, mse_diff, model)
-- 
2.43.0


From 270657c19f96b0446de5b56fcfb4db61b422fd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 31/40] fix: remove the background of unsigned 64 bit data

---
 pyotf/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index b1d59ba..160f35e 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -246,7 +246,8 @@ def remove_bg(data, multiplier=1.5):
     """
     # should add bit for floats, that will find the mode using the hist
     # function bincounts with num bins specified
-    mode = np.bincount(data.ravel()).argmax()
+    # (bincount itself refuses unsigned 64 bit integers)
+    mode = np.bincount(data.ravel().astype(np.int64, casting="same_kind")).argmax()
     # make sure that the result is floating point so that it cannot wrap around
     return data - float(multiplier * mode)
 
-- 
2.43.0


From dffa11be2ca30ac885aab6d614a1e2595522d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 32/40] fix: map degrees of small integer types without
 overflow

---
 pyotf/zernike.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 97e5c14..22a4182 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -191,6 +191,8 @@ def degrees2noll(n, m):
         raise ValueError("Radial degree is not integer, input = {n}")
     if not np.issubdtype(m.dtype, np.signedinteger):
         raise ValueError("Azimuthal degree is not integer, input = {m}")
+    # small integer types would overflow in the mapping below
+    n, m = n.astype(int), m.astype(int)
     if ((n - m) % 2).any():
         raise ValueError("The difference between radial and azimuthal degree isn't mod 2")
     if not (n >= abs(m)).all():
-- 
2.43.0


From 03b8d7d342c8dc051092e6f16c55a7133d0491ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 33/40] fix: microscope representations show the detector size
 and quote strings

---
 pyotf/microscope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index f9176cf..f1203ba 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -81,7 +81,9 @@ class WidefieldMicroscope(object):
         """Return representation of a microscope object."""
         psf_kwargs = self.psf_params.copy()
         psf_kwargs.pop("res", None)
-        psf_kwargs_str = ", ".join(f"{k}={v}" for k, v in psf_kwargs.items())
+        # show the detector size, not the size of the oversampled grid
+        psf_kwargs["size"] //= self.oversample_factor
+        psf_kwargs_str = ", ".join(f"{k}={v!r}" for k, v in psf_kwargs.items())
         return (
             f"{self.__class__.__name__}(model='{self.model.__class__.__name__[:-3].lower()}', "
             + f"{psf_kwargs_str}, pixel_size={self.pixel_size}, "
-- 
2.43.0


From 8ee48bf5358edb46441560b54f0c155fe124a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 34/40] fix: Zernike fits of a result leave out samples at the
 diffraction limit, as the pupil does

---
 pyotf/phaseretrieval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 6926345..a6aec46 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -201,6 +201,8 @@ class PhaseRetrievalResult(object):
         # generate zernikes
         # (a single zernike comes back squeezed)
         zerns = zernike(r, theta, np.arange(1, num_zerns + 1)).reshape(num_zerns, *r.shape)
+        # samples exactly at the diffraction limit aren't part of the pupil
+        zerns = zerns * (self.r < self.na / self.wl)
         mag_coefs = _fit_to_zerns(self.mag, zerns, r)
         phase_coefs = _fit_to_zerns(self.phase, zerns, r)
         self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
-- 
2.43.0


From aa0948d68fd114907bbb16fc541528bb4941a113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 35/40] fix: aberrations don't add samples at the diffraction
 limit to the pupil

---
 pyotf/otf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 271e0e1..90a3eeb 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -638,7 +638,8 @@ def apply_aberration(model, mcoefs, pcoefs):
     pupil_mag = (zerns * mcoefs[:, None, None]).sum(0)
 
     # apply aberrations to unaberrated pupil (N.B. the unaberrated phase is 0)
-    pupil_mag += abs(model._gen_pupil())
+    # samples exactly at the diffraction limit aren't part of it, whatever the coefficients
+    pupil_mag = (1 + pupil_mag) * abs(model._gen_pupil())
 
     # generate the PSF, assign to attribute
     pupil_total = pupil_mag * np.exp(1j * pupil_phase)
-- 
2.43.0


From 0f0975bebeb7a3f468631c514e8c0fb84bcacb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 36/40] fix: NumericProperty validates for int by default, as
 documented

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 160f35e..ac4e867 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -174,7 +174,7 @@ def cart2pol(y, x):
 class NumericProperty(property):
     """Define a property that must be numeric."""
 
-    def __init__(self, fget=None, fset=None, fdel=None, doc=None, attr=None, vartype=None):
+    def __init__(self, fget=None, fset=None, fdel=None, doc=None, attr=None, vartype=int):
         """Property that must be numeric.
 
         Parameters
-- 
2.43.0


From 061fc10629ed3c3f039757883e6519734db8ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:44 +0000
Subject: [PATCH 37/40] fix: SIM patterns are evaluated on the planes of a PSF
 with its own zrange

---
 pyotf/microscope.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index f1203ba..f719831 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -358,6 +358,8 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         z = (
             np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2
         ) * self.psf_params["zres"]
+        # the planes of the PSF may have been given as zrange
+        z = getattr(self.model, "zrange", z)
 
         # open grid
         zz, yy, xx = z[:, None, None], x[None, :, None], x[None, None, :]
-- 
2.43.0


From ff6971461c6f96ce966e4f2f0f39566048890e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:44 +0000
Subject: [PATCH 38/40] fix: plots of a microscope with its own zrange use its
 step

---
 pyotf/microscope.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index f719831..9b46542 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -108,6 +108,13 @@ class WidefieldMicroscope(object):
         """Return internal model PSF (i.e. at full grid resolution)."""
         return self.model.PSFi
 
+    @property
+    def _zres(self):
+        """Distance between planes, which may have been given as zrange."""
+        if self.psf_params.get("zrange") is not None:
+            return self.model._validate_zrange()
+        return self.psf_params["zres"]
+
     @cached_property
     def PSF(self):
         """Point spread function of the microscope."""
@@ -140,15 +147,13 @@ class WidefieldMicroscope(object):
         axial_extent = (
             self.model.wl
             / (self.model.ni - np.sqrt(self.model.ni ** 2 - self.model.na ** 2))
-            / self.psf_params["zres"]
+            / self._zres
             * 16
         )
 
         max_loc = np.unravel_index(self.PSF.argmax(), self.PSF.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(
-            self.PSF[crop], zres=self.psf_params["zres"], res=self.pixel_size, **kwargs
-        )
+        return psf_plot(self.PSF[crop], zres=self._zres, res=self.pixel_size, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -168,7 +173,7 @@ class WidefieldMicroscope(object):
             na=self.model.na,
             ni=self.model.ni,
             wl=self.model.wl,
-            zres=self.psf_params["zres"],
+            zres=self._zres,
             res=self.pixel_size,
             **dkwargs,
         )
-- 
2.43.0


From 909fcab83fb3b079366c72a390c51ee8ff4b8a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:28 +0000
Subject: [PATCH 39/40] fix: radial_profile's spread lost its precision for
 data with a large offset

The variance was the difference of the mean of the squares and the square of
the mean, which cancel if the values are large compared to their spread.
---
 pyotf/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index ac4e867..fdcce6a 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -406,8 +406,6 @@ def radial_profile(data, center=None, binsize=1.0):
     r = np.round(r / binsize).astype(int)
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
-    # sum the squares at equal r
-    tbin2 = np.bincount(r.ravel(), (data ** 2).ravel())
     # find how many equal r's there are
     nr = np.bincount(r.ravel())
     # calculate the radial mean
@@ -415,7 +413,9 @@ def radial_profile(data, center=None, binsize=1.0):
     # have NaN for binsize != 1
     radial_mean = tbin / nr
     # calculate the radial std
-    # (rounding can make the variance of a constant ring slightly negative)
-    radial_std = np.sqrt(np.maximum(0, tbin2 / nr - radial_mean ** 2))
+    # (from the deviations, the mean of the squares loses all precision if
+    # the values are large compared to their spread)
+    radial_var = np.bincount(r.ravel(), ((data - radial_mean[r]) ** 2).ravel()) / nr
+    radial_std = np.sqrt(radial_var)
     # return them
     return radial_mean, radial_std
-- 
2.43.0


From ccde7aff2db3322715803da9889fe0ebc72f4ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:15 +0000
Subject: [PATCH 40/40] fix: aberrations of a single lateral sample, and no
 coefficients at all, had the wrong shape

zernike squeezes its result: one sample spread over as many as there are
coefficients, and an empty set of coefficients was an error.
---
 pyotf/otf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 90a3eeb..6068b2e 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -632,7 +632,8 @@ def apply_aberration(model, mcoefs, pcoefs):
     # make zernikes (need to convert kr to r where r = 1 when kr is at
     # diffraction limit)
     r = kr * model.wl / model.na
-    zerns = zernike(r, theta, np.arange(len(mcoefs)) + 1)
+    # (zernike squeezes its result)
+    zerns = zernike(r, theta, np.arange(len(mcoefs)) + 1).reshape(len(mcoefs), *r.shape)
 
     pupil_phase = (zerns * pcoefs[:, None, None]).sum(0)
     pupil_mag = (zerns * mcoefs[:, None, None]).sum(0)
-- 
2.43.0

