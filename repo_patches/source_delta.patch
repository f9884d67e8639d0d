From f0ca0f48b87945710e97885a60ce60c64d181b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 01/26] fix: radial_profile no longer uses the np.int alias
 removed from numpy

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 37ef17e..5a5e0b5 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -396,7 +396,7 @@ def radial_profile(data, center=None, binsize=1.0):
     idx2 = idx - center[(Ellipsis,) + (np.newaxis,) * (data.ndim)]
     r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))
     # convert to int
-    r = np.round(r / binsize).astype(np.int)
+    r = np.round(r / binsize).astype(int)
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
     # sum the squares at equal r
-- 
2.43.0


From 938e7ffd9c44f5a169934bc21e6b77ebe746df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 02/26] fix: radial_profile std is not NaN on constant rings
 and does not overflow small ints

---
 pyotf/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 5a5e0b5..f221a65 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -400,7 +400,7 @@ def radial_profile(data, center=None, binsize=1.0):
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
     # sum the squares at equal r
-    tbin2 = np.bincount(r.ravel(), (data ** 2).ravel())
+    tbin2 = np.bincount(r.ravel(), (data.astype(float) ** 2).ravel())
     # find how many equal r's there are
     nr = np.bincount(r.ravel())
     # calculate the radial mean
@@ -408,6 +408,7 @@ def radial_profile(data, center=None, binsize=1.0):
     # have NaN for binsize != 1
     radial_mean = tbin / nr
     # calculate the radial std
-    radial_std = np.sqrt(tbin2 / nr - radial_mean ** 2)
+    # (rounding can push the variance of a constant ring below zero)
+    radial_std = np.sqrt(np.maximum(tbin2 / nr - radial_mean ** 2, 0))
     # return them
     return radial_mean, radial_std
-- 
2.43.0


From 0837c8a631756e98cf123f4ba1d3148d1a5f90d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 03/26] fix: easy_ifft is the inverse of easy_fft for odd sizes
 too

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index f221a65..4fef28b 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -161,7 +161,7 @@ def easy_fft(data, axes=None):
 
 def easy_ifft(data, axes=None):
     """Inverse FFT that includes shifting."""
-    return ifftshift(ifftn(fftshift(data, axes=axes), axes=axes), axes=axes)
+    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)
 
 
 def cart2pol(y, x):
-- 
2.43.0


From 7c22a64fd7d17cb0c4ceb6e37eddd8bf3b8614ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 04/26] fix: remove_bg with an integer multiplier does not wrap
 unsigned data

---
 pyotf/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 4fef28b..e14d860 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -247,7 +247,8 @@ def remove_bg(data, multiplier=1.5):
     # should add bit for floats, that will find the mode using the hist
     # function bincounts with num bins specified
     mode = np.bincount(data.ravel()).argmax()
-    return data - multiplier * mode
+    # make sure the subtraction is done in floating point, unsigned ints would wrap around
+    return data - float(multiplier * mode)
 
 
 def psqrt(data):
-- 
2.43.0


From c4f013828117495e74be3246fc933eb0a918a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 05/26] fix: prep_data_for_PR clips, centers and sizes cropped
 data as documented

---
 pyotf/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index e14d860..ecbd47a 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -288,10 +288,14 @@ def prep_data_for_PR(data, xysize=None, multiplier=1.5):
         # pad data out to the proper size, pad with zeros
         pad_data = fft_pad(data_without_bg, (nz, xysize, xysize), mode="constant")
     else:
-        # if need to crop, crop and center and return
-        my_slice = slice_maker(((ny + 1) // 2, (nx + 1) // 2), xysize)
-        return center_data(data_without_bg)[(Ellipsis,) + my_slice]
-    # return centered data
+        # if need to crop, pad any axis that's too short, center and crop
+        pad_data = fft_pad(
+            data_without_bg, (nz, max(ny, xysize), max(nx, xysize)), mode="constant"
+        )
+        _, ny, nx = pad_data.shape
+        my_slice = slice_maker((ny // 2, nx // 2), xysize)
+        pad_data = center_data(pad_data)[(Ellipsis,) + my_slice]
+    # clip negative values and return
     return np.fmax(0, pad_data)
 
 
-- 
2.43.0


From 9bc1f9cbe51152decc3bbb6def7f9ee7493b2301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 06/26] fix: HanserPSF puts the focal plane in the central
 plane for odd zsize

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index d2a2915..43f94fa 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -289,7 +289,7 @@ class HanserPSF(BasePSF):
 
     def _gen_zrange(self):
         """Generate the zrange from zsize and zres."""
-        self.zrange = (np.arange(self.zsize) - (self.zsize + 1) // 2) * self.zres
+        self.zrange = (np.arange(self.zsize) - self.zsize // 2) * self.zres
 
     @BasePSF.zsize.setter
     def zsize(self, value):
-- 
2.43.0


From ac8a636a6430eba723e12ead51d8a248085dae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 07/26] fix: HanserPSF.zrange does not alias or reshape the
 array it is given

---
 pyotf/otf.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 43f94fa..57191a4 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -319,11 +319,9 @@ class HanserPSF(BasePSF):
 
     @zrange.setter
     def zrange(self, value):
-        self._zrange = np.asarray(value)
-        # check if passed value is scalar
-        if not self._zrange.shape:
-            # convert to array for later multiplications
-            self._zrange.shape = (1,)
+        # copy so that we don't share (or reshape) the user's array and make sure that
+        # it's at least 1d for later multiplications
+        self._zrange = np.atleast_1d(np.array(value))
         self._attribute_changed()
 
     def _gen_kr(self):
-- 
2.43.0


From aa1eee926e31f619eed686ab40769aa1f8c18442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 08/26] fix: reject a zero or negative lateral resolution

---
 pyotf/otf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 57191a4..927f811 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -143,6 +143,9 @@ class BasePSF(object):
 
     @res.setter
     def res(self, value):
+        # make sure res is positive
+        if not value > 0:
+            raise ValueError("res must be positive")
         # max_val is the abbe limit, but for an accurate simulation
         # the pixel size must be smaller than half this number
         # thinking in terms of the convolution that is implicitly
-- 
2.43.0


From 8e64c3c8af67c54f75e38c2d82d32badda7e925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 09/26] fix: SheppardPSF applies the imaging condition when
 vec_corr is none

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 927f811..41ab6bc 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -570,7 +570,7 @@ class SheppardPSF(BasePSF):
             # otf_sub = self._gen_radsym_otf()
             # otf = otf_sub[np.newaxis]
             otf_sub = np.zeros((self.zsize, self.size, self.size), dtype="D")
-            otf_sub[self.valid_points] = 1.0
+            otf_sub[self.valid_points] = a
             otf = otf_sub[np.newaxis]
         # we're already calculating the OTF, so we just need to shift it into
         # the right place.
-- 
2.43.0


From a41b3ad63f6dc0950e9bb0eaabc7f5ff8cd79e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 10/26] fix: SIM microscopes accept wiener=None as documented

---
 pyotf/microscope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index a845157..57294d6 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -299,7 +299,7 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener < 0:
+        if self.wiener is not None and self.wiener < 0:
             raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
 
     def __repr__(self):
-- 
2.43.0


From cc01d021ad2c54fd973ccf28fa5161966533cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 11/26] fix: changing wiener or orientations of a SIM
 microscope updates its PSF

---
 pyotf/microscope.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 57294d6..e3e1e17 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -299,8 +299,28 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener is not None and self.wiener < 0:
-            raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
+
+    @property
+    def wiener(self):
+        """Wiener parameter, if None no deconvolution is performed."""
+        return self._wiener
+
+    @wiener.setter
+    def wiener(self, value):
+        if value is not None and value < 0:
+            raise ValueError(f"wiener is {value:} which should be greater than zero")
+        self._wiener = value
+        self._attribute_changed()
+
+    @property
+    def orientations(self):
+        """Orientation angles of the excitation."""
+        return self._orientations
+
+    @orientations.setter
+    def orientations(self, value):
+        self._orientations = value
+        self._attribute_changed()
 
     def __repr__(self):
         """Represent a SIM microscope."""
-- 
2.43.0


From 345507c9a2dbb6e258799f23cc6f6214a42f5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 12/26] fix: SIM microscopes accept integer excitation
 wavelength and NA like every model does

---
 pyotf/microscope.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index e3e1e17..b47f235 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -264,8 +264,10 @@ class ApotomeMicroscope(WidefieldMicroscope):
 class BaseSIMMicroscope(WidefieldMicroscope):
     """A base class for SIM and SIM like microscopes."""
 
-    na_exc = NumericProperty(attr="_na_exc", vartype=float, doc="The excitation NA")
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
+    na_exc = NumericProperty(attr="_na_exc", vartype=(float, int), doc="The excitation NA")
+    wl_exc = NumericProperty(
+        attr="_wl_exc", vartype=(float, int), doc="The excitation wavelength"
+    )
     coherent = NumericProperty(
         attr="_coherent", vartype=bool, doc="Treat the orientations coherently?"
     )
-- 
2.43.0


From 8e86e9c7fd0d1508c8efde05e74b6aab903a5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 13/26] fix: center the SIM excitation pattern on the PSF for
 odd sizes

---
 pyotf/microscope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index b47f235..45152b0 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -342,11 +342,11 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         """
         # centered coordinate system.
         x = (
-            np.arange(self.psf_params["size"]) - (self.psf_params["size"] + 1) // 2
+            np.arange(self.psf_params["size"]) - self.psf_params["size"] // 2
         ) * self.psf_params["res"]
 
         z = (
-            np.arange(self.psf_params["zsize"]) - (self.psf_params["zsize"] + 1) // 2
+            np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2
         ) * self.psf_params["zres"]
 
         # open grid
-- 
2.43.0


From 7f4d4c44119dc7333616447022b29c2bfdf53f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 14/26] fix: ConfocalMicroscope.wl_exc reads and sets the
 excitation model wavelength

---
 pyotf/microscope.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 45152b0..ef5f166 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -191,7 +191,15 @@ class ConfocalMicroscope(WidefieldMicroscope):
         doc="Size of the pinhole (in airy units relative to emission wavelength",
     )
 
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
+    @property
+    def wl_exc(self):
+        """Excitation wavelength."""
+        return self.model_exc.wl
+
+    @wl_exc.setter
+    def wl_exc(self, value):
+        self.model_exc.wl = value
+        self._attribute_changed()
 
     def __init__(self, *, wl_exc, pinhole_size, **kwargs):
         super().__init__(**kwargs)
@@ -199,7 +207,7 @@ class ConfocalMicroscope(WidefieldMicroscope):
 
         # make the emission PSF
         self.model_exc = copy.deepcopy(self.model)
-        self.model_exc.wl = wl_exc
+        self.wl_exc = wl_exc
 
     def __repr__(self):
         """Represent a confocal microscope."""
-- 
2.43.0


From 9ae781e4d04674d0bde58e59d62e4a2628442c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 15/26] fix: retrieve_phase does not modify the caller's params

---
 pyotf/phaseretrieval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index ec7c637..c7cd377 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -71,8 +71,8 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
     assert data.shape[1] == data.shape[2], "Data is not square in x/y"
     assert data.ndim == 3, "Data doesn't have enough dims"
     # make sure the user hasn't screwed up the params
-    params.update(
-        dict(vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1])
+    params = dict(
+        params, vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1]
     )
     # assume that data prep has been handled outside function
     # The field magnitude is the square root of the intensity
-- 
2.43.0


From 2cf3ddac9842a0858a5e0505b84d2ee46bc344f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 16/26] fix: generated PSFs stay centered when padded to a size
 of the other parity

---
 pyotf/phaseretrieval.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index c7cd377..1c4dd8c 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -23,7 +23,7 @@ from numpy.linalg import lstsq
 from skimage.restoration import unwrap_phase
 
 from .otf import HanserPSF
-from .utils import fft_pad, psqrt
+from .utils import psqrt
 from .zernike import noll2name, zernike
 
 logger = logging.getLogger(__name__)
@@ -216,8 +216,10 @@ class PhaseRetrievalResult(object):
         assert ny == nx, "Something is very wrong"
         if size is not None:
             if nx < size:
-                # if size is too small, pad it out.
-                psf = fft_pad(psf, (nz, size, size), mode="constant")
+                # if size is too small, pad it out, keeping the center in the center
+                lb = size // 2 - nx // 2
+                hb = size - nx - lb
+                psf = np.pad(psf, ((0, 0), (lb, hb), (lb, hb)), mode="constant")
             elif nx > size:
                 # if size is too big, crop it
                 lb = size // 2
-- 
2.43.0


From b32030a4971d7ef8f8b37ba7fc1e222254730537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 17/26] fix: fit_to_zernikes works for a single zernike

---
 pyotf/phaseretrieval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 1c4dd8c..f77c755 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -193,7 +193,7 @@ class PhaseRetrievalResult(object):
         r, theta = self.r, self.theta
         r = r / (self.na / self.wl)
         # generate zernikes
-        zerns = zernike(r, theta, np.arange(1, num_zerns + 1))
+        zerns = zernike(r, theta, np.arange(1, num_zerns + 1)).reshape(-1, *r.shape)
         mag_coefs = _fit_to_zerns(self.mag, zerns, r)
         phase_coefs = _fit_to_zerns(self.phase, zerns, r)
         self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
-- 
2.43.0


From 85b638c7f49000b9f637dfc958672fc57feca638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 18/26] fix: degrees2noll rejects degrees that are not a
 zernike mode

---
 pyotf/zernike.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 0b182ad..949daa0 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -193,6 +193,8 @@ def degrees2noll(n, m):
         raise ValueError("Azimuthal degree is not integer, input = {m}")
     if ((n - m) % 2).any():
         raise ValueError("The difference between radial and azimuthal degree isn't mod 2")
+    if not (n >= abs(m)).all():
+        raise ValueError("n must always be greater or equal to m")
     # do the mapping
     p = (m + n * (n + 2)) / 2
     noll = noll_mapping[p.astype(int)]
-- 
2.43.0


From e62c09c032058b6b73578521e0674878911f32cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 19/26] fix: the XZ and YZ panels of the PSF and OTF plots are
 no longer swapped

---
 pyotf/display.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyotf/display.py b/pyotf/display.py
index a717526..6ff2c60 100644
--- a/pyotf/display.py
+++ b/pyotf/display.py
@@ -150,12 +150,12 @@ def psf_plot(
     # do plotting
     if mip:
         grid[3].imshow(psf.max(0), **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf.max(1).T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf.max(2), **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf.max(2).T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf.max(1), **dkwargs, extent=(*kx, *kz))
     else:
         grid[3].imshow(psf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
@@ -238,8 +238,8 @@ def otf_plot(
     kz, ky, kx = [fft_max_min(n, d) for n, d in zip(otf.shape, (zres, res, res))]
 
     grid[3].imshow(otf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-    grid[2].imshow(otf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-    grid[1].imshow(otf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+    grid[2].imshow(otf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+    grid[1].imshow(otf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
-- 
2.43.0


From d2292f1991eb5f1dc8c85a29a45b09351888cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 20/26] fix: zernike polynomials of odd azimuthal degree have
 the sign of the cited formula

---
 pyotf/zernike.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 949daa0..4062bdd 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -294,10 +294,9 @@ def _radial_zernike(r, n, m):
     # for the radial part m is always positive
     m = abs(m)
     # calculate the coefs
-    coef1 = (n + m) // 2
-    coef2 = (n - m) // 2
-    jacobi = eval_jacobi(coef2, m, 0, 1 - 2 * rprime ** 2)
-    rad_zern[valid_points] = (-1) ** coef1 * rprime ** m * jacobi
+    coef = (n - m) // 2
+    jacobi = eval_jacobi(coef, m, 0, 1 - 2 * rprime ** 2)
+    rad_zern[valid_points] = (-1) ** coef * rprime ** m * jacobi
     return rad_zern
 
 
-- 
2.43.0


From 17a8dd6ae02dc27600b235a046cac6c4e9eff412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 21/26] fix: dual SheppardPSF is not NaN for the sine condition
 and vectorial corrections

---
 pyotf/otf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 41ab6bc..7cab159 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -536,6 +536,8 @@ class SheppardPSF(BasePSF):
         kxx, kyy, kzz = self.kxx, self.kyy, self.kzz
         # generate direction cosines
         m, n, s = np.array((kxx, kyy, kzz)) / norm((kxx, kyy, kzz), axis=0)
+        # the opposing objective (if any) is the mirror image of the first one
+        s = abs(s)
         # apply a given imaging condition
         if self.condition == "sine":
             a = 1.0 / np.sqrt(s)
-- 
2.43.0


From a101d3be7ef17390a37fa4aecb8e34bbd3b10478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 22/26] fix: plots are scaled with the axial step of the data,
 also for explicit ranges and microscopes

---
 pyotf/microscope.py |  6 +++---
 pyotf/otf.py        | 14 +++++++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index ef5f166..c12700f 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -138,13 +138,13 @@ class WidefieldMicroscope(object):
         axial_extent = (
             self.model.wl
             / (self.model.ni - np.sqrt(self.model.ni ** 2 - self.model.na ** 2))
-            / self.pixel_size
+            / self.model._zstep
             * 16
         )
 
         max_loc = np.unravel_index(self.PSF.argmax(), self.PSF.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSF[crop], zres=self.pixel_size, res=self.pixel_size, **kwargs)
+        return psf_plot(self.PSF[crop], zres=self.model._zstep, res=self.pixel_size, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -164,7 +164,7 @@ class WidefieldMicroscope(object):
             na=self.model.na,
             ni=self.model.ni,
             wl=self.model.wl,
-            zres=self.pixel_size,
+            zres=self.model._zstep,
             res=self.pixel_size,
             **dkwargs,
         )
diff --git a/pyotf/otf.py b/pyotf/otf.py
index 7cab159..0d4ddb7 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -224,6 +224,14 @@ class BasePSF(object):
         except AttributeError:
             pass
 
+    @property
+    def _zstep(self):
+        """Axial distance between the planes of the results."""
+        zrange = getattr(self, "zrange", ())
+        if len(zrange) > 1:
+            return abs(np.diff(zrange)).mean() or self.zres
+        return self.zres
+
     def plot_psf(self, **kwargs):
         """Plot the intensity PSF.
         
@@ -233,11 +241,11 @@ class BasePSF(object):
         # smart cropping
         # nice lateral extent
         lateral_extent = self.wl / 2 / self.na / self.res * 32
-        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / self.zres * 16
+        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / self._zstep * 16
 
         max_loc = np.unravel_index(self.PSFi.argmax(), self.PSFi.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSFi[crop], zres=self.zres, res=self.res, **kwargs)
+        return psf_plot(self.PSFi[crop], zres=self._zstep, res=self.res, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -255,7 +263,7 @@ class BasePSF(object):
         dkwargs.update(kwargs)
 
         return otf_plot(
-            otf, na=self.na, ni=self.ni, wl=self.wl, zres=self.zres, res=self.res, **dkwargs,
+            otf, na=self.na, ni=self.ni, wl=self.wl, zres=self._zstep, res=self.res, **dkwargs,
         )
 
 
-- 
2.43.0


From db850fbc5ec2d65e8d8a7358be99ffd67c4f0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 23/26] fix: the representation of a microscope states the size
 of its camera and quotes strings

---
 pyotf/microscope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index c12700f..e290d26 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -81,7 +81,9 @@ class WidefieldMicroscope(object):
         """Return representation of a microscope object."""
         psf_kwargs = self.psf_params.copy()
         psf_kwargs.pop("res", None)
-        psf_kwargs_str = ", ".join(f"{k}={v}" for k, v in psf_kwargs.items())
+        # size is the number of camera pixels, as in the arguments of the constructor
+        psf_kwargs["size"] //= self.oversample_factor
+        psf_kwargs_str = ", ".join(f"{k}={v!r}" for k, v in psf_kwargs.items())
         return (
             f"{self.__class__.__name__}(model='{self.model.__class__.__name__[:-3].lower()}', "
             + f"{psf_kwargs_str}, pixel_size={self.pixel_size}, "
-- 
2.43.0


From 925b43e31b856c0ae8091fe15fb3377b6e049f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 24/26] fix: degrees2noll for small integer types

---
 pyotf/zernike.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 4062bdd..24520b6 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -195,7 +195,8 @@ def degrees2noll(n, m):
         raise ValueError("The difference between radial and azimuthal degree isn't mod 2")
     if not (n >= abs(m)).all():
         raise ValueError("n must always be greater or equal to m")
-    # do the mapping
+    # do the mapping (small integer types would overflow)
+    n, m = n.astype(int), m.astype(int)
     p = (m + n * (n + 2)) / 2
     noll = noll_mapping[p.astype(int)]
     return noll
-- 
2.43.0


From ebfda8b8ae2e425906921f92d4e0f6077a088f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 25/26] fix: plot_named_coefs of a fit with fewer modes than
 there are names

---
 pyotf/phaseretrieval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index f77c755..6be6b1a 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -295,10 +295,12 @@ class ZernikeDecomposition(object):
         fig, ax = plt.subplots(1, 1, sharex=True, figsize=(6, 6))
         # get the ordered names
         ordered_names = [noll2name[i + 1].title() for i in range(len(noll2name))]
-        # make an x range for the bar plot
-        x = np.arange(len(ordered_names)) + 1
         # pull the data
         data = self.pcoefs[: len(ordered_names)]
+        # fewer modes may have been fitted than have names
+        ordered_names = ordered_names[: len(data)]
+        # make an x range for the bar plot
+        x = np.arange(len(ordered_names)) + 1
         # make the bar plot
         ax.bar(x[4:], data[4:], align="center", tick_label=ordered_names[4:])
         # set up axes
-- 
2.43.0


From 1077ce49425c93825c47f54c05ad33a6d2d9d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 26/26] fix: the positive root of small integer types lost
 precision

---
 pyotf/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index ecbd47a..4fb3a4c 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -253,7 +253,9 @@ def remove_bg(data, multiplier=1.5):
 
 def psqrt(data):
     """Take the positive square root, negative values will be set to zero."""
-    return np.sqrt(np.fmax(0, data))
+    # the floating zero keeps numpy from taking the root of small integer types
+    # in half or single precision
+    return np.sqrt(np.fmax(0.0, data))
 
 
 def prep_data_for_PR(data, xysize=None, multiplier=1.5):
-- 
2.43.0

