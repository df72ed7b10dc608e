From a3d11f3bc8923f0db6c8eb923559784b92695091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 01/28] fix: radial_profile crashed on numpy >= 1.24 (np.int
 was removed)

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 37ef17e..5a5e0b5 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -396,7 +396,7 @@ def radial_profile(data, center=None, binsize=1.0):
     idx2 = idx - center[(Ellipsis,) + (np.newaxis,) * (data.ndim)]
     r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))
     # convert to int
-    r = np.round(r / binsize).astype(np.int)
+    r = np.round(r / binsize).astype(int)
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
     # sum the squares at equal r
-- 
2.43.0


From ea8508e5ded247e9eda9a5ea95f9f31e3deeb212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 02/28] fix: easy_ifft did not invert easy_fft for odd sizes
 (shifts applied in the wrong order)

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 5a5e0b5..64dd67c 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -161,7 +161,7 @@ def easy_fft(data, axes=None):
 
 def easy_ifft(data, axes=None):
     """Inverse FFT that includes shifting."""
-    return ifftshift(ifftn(fftshift(data, axes=axes), axes=axes), axes=axes)
+    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)
 
 
 def cart2pol(y, x):
-- 
2.43.0


From 28df4f63ba79b3fca9ff6d7ea302bafe376cc7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 03/28] fix: default z planes of HanserPSF were off centre for
 odd zsize

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index d2a2915..43f94fa 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -289,7 +289,7 @@ class HanserPSF(BasePSF):
 
     def _gen_zrange(self):
         """Generate the zrange from zsize and zres."""
-        self.zrange = (np.arange(self.zsize) - (self.zsize + 1) // 2) * self.zres
+        self.zrange = (np.arange(self.zsize) - self.zsize // 2) * self.zres
 
     @BasePSF.zsize.setter
     def zsize(self, value):
-- 
2.43.0


From 62267f7251fb9dd360fc23895f186910408567bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 04/28] fix: SIM excitation pattern was off centre relative to
 the PSF for odd sizes

---
 pyotf/microscope.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index a845157..6ea820f 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -319,13 +319,13 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         all my use cases
         """
         # centered coordinate system.
-        x = (
-            np.arange(self.psf_params["size"]) - (self.psf_params["size"] + 1) // 2
-        ) * self.psf_params["res"]
+        x = (np.arange(self.psf_params["size"]) - self.psf_params["size"] // 2) * self.psf_params[
+            "res"
+        ]
 
-        z = (
-            np.arange(self.psf_params["zsize"]) - (self.psf_params["zsize"] + 1) // 2
-        ) * self.psf_params["zres"]
+        z = (np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2) * self.psf_params[
+            "zres"
+        ]
 
         # open grid
         zz, yy, xx = z[:, None, None], x[None, :, None], x[None, None, :]
-- 
2.43.0


From 096994d5a0825e8694459c59e78c880212c4fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 05/28] fix: SIM microscopes crashed on the documented
 wiener=None

---
 pyotf/microscope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 6ea820f..abdd4ec 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -299,7 +299,7 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener < 0:
+        if self.wiener is not None and self.wiener < 0:
             raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
 
     def __repr__(self):
-- 
2.43.0


From 8fd81479541f3611b3cabdf823d96b727156e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 06/28] fix: changing wiener or orientations of a SIM
 microscope left a stale PSF

---
 pyotf/microscope.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index abdd4ec..3ff82bd 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -299,8 +299,6 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener is not None and self.wiener < 0:
-            raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
 
     def __repr__(self):
         """Represent a SIM microscope."""
@@ -311,6 +309,28 @@ class BaseSIMMicroscope(WidefieldMicroscope):
             + f"orientations={self.orientations!r})"
         )
 
+    @property
+    def wiener(self):
+        """Wiener parameter, None means no deconvolution."""
+        return self._wiener
+
+    @wiener.setter
+    def wiener(self, value):
+        if value is not None and value < 0:
+            raise ValueError(f"self.wiener is {value:} which should be greater than zero")
+        self._wiener = value
+        self._attribute_changed()
+
+    @property
+    def orientations(self):
+        """Orientation angles of the excitation."""
+        return self._orientations
+
+    @orientations.setter
+    def orientations(self, value):
+        self._orientations = value
+        self._attribute_changed()
+
     @property
     def model_psf(self):
         """Oversampled SIM PSF.
-- 
2.43.0


From 02a79a6571c8a940f1ba2dc5f4adecb4fc625e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 07/28] fix: SIM microscopes rejected integer excitation
 wavelength and NA, even by default

---
 pyotf/microscope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 3ff82bd..2d469e9 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -264,8 +264,8 @@ class ApotomeMicroscope(WidefieldMicroscope):
 class BaseSIMMicroscope(WidefieldMicroscope):
     """A base class for SIM and SIM like microscopes."""
 
-    na_exc = NumericProperty(attr="_na_exc", vartype=float, doc="The excitation NA")
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
+    na_exc = NumericProperty(attr="_na_exc", vartype=(float, int), doc="The excitation NA")
+    wl_exc = NumericProperty(attr="_wl_exc", vartype=(float, int), doc="The excitation wavelength")
     coherent = NumericProperty(
         attr="_coherent", vartype=bool, doc="Treat the orientations coherently?"
     )
-- 
2.43.0


From 573cc0abc37e0884b7ad1db09c0fa7ec51c820d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 08/28] fix: ConfocalMicroscope.wl_exc could not be read and
 setting it had no effect

---
 pyotf/microscope.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 2d469e9..a89c3f1 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -191,8 +191,6 @@ class ConfocalMicroscope(WidefieldMicroscope):
         doc="Size of the pinhole (in airy units relative to emission wavelength",
     )
 
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
-
     def __init__(self, *, wl_exc, pinhole_size, **kwargs):
         super().__init__(**kwargs)
         self.pinhole_size = pinhole_size
@@ -208,6 +206,16 @@ class ConfocalMicroscope(WidefieldMicroscope):
             + f", wl_exc={self.model_exc.wl}, pinhole_size={self.pinhole_size})"
         )
 
+    @property
+    def wl_exc(self):
+        """The excitation wavelength."""
+        return self.model_exc.wl
+
+    @wl_exc.setter
+    def wl_exc(self, value):
+        self.model_exc.wl = value
+        self._attribute_changed()
+
     @property
     def model_psf(self):
         """Oversampled confocal PSF."""
-- 
2.43.0


From 14b2b2051e98919f39e490b43721e7fe07be105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 09/28] fix: SheppardPSF ignored the imaging condition without
 vectorial correction

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 43f94fa..ecef4a3 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -569,7 +569,7 @@ class SheppardPSF(BasePSF):
             # otf_sub = self._gen_radsym_otf()
             # otf = otf_sub[np.newaxis]
             otf_sub = np.zeros((self.zsize, self.size, self.size), dtype="D")
-            otf_sub[self.valid_points] = 1.0
+            otf_sub[self.valid_points] = a
             otf = otf_sub[np.newaxis]
         # we're already calculating the OTF, so we just need to shift it into
         # the right place.
-- 
2.43.0


From d870383b1ad5747eba44e9eb1594b5e65b68235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 10/28] fix: SheppardPSF with dual=True produced NaN (square
 root of negative direction cosines)

---
 pyotf/otf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index ecef4a3..5224f82 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -535,6 +535,8 @@ class SheppardPSF(BasePSF):
         kxx, kyy, kzz = self.kxx, self.kyy, self.kzz
         # generate direction cosines
         m, n, s = np.array((kxx, kyy, kzz)) / norm((kxx, kyy, kzz), axis=0)
+        # the second objective (if any) is a mirror image of the first
+        s = abs(s)
         # apply a given imaging condition
         if self.condition == "sine":
             a = 1.0 / np.sqrt(s)
-- 
2.43.0


From 34fba4503bc43d0d4cee9e14cad3ec463c2221e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 11/28] fix: prep_data_for_PR cropped off centre for odd sizes,
 unclipped, and non-square

---
 pyotf/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 64dd67c..931b737 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -287,9 +287,10 @@ def prep_data_for_PR(data, xysize=None, multiplier=1.5):
         # pad data out to the proper size, pad with zeros
         pad_data = fft_pad(data_without_bg, (nz, xysize, xysize), mode="constant")
     else:
-        # if need to crop, crop and center and return
-        my_slice = slice_maker(((ny + 1) // 2, (nx + 1) // 2), xysize)
-        return center_data(data_without_bg)[(Ellipsis,) + my_slice]
+        # if need to crop, center on the maximum and crop, then pad the axis that was too small
+        my_slice = slice_maker((ny // 2, nx // 2), xysize)
+        crop_data = center_data(data_without_bg)[(Ellipsis,) + my_slice]
+        pad_data = fft_pad(crop_data, (nz, xysize, xysize), mode="constant")
     # return centered data
     return np.fmax(0, pad_data)
 
-- 
2.43.0


From db669251aeb97860bf2e390d028a3a3b46f26fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 12/28] fix: fit_to_zernikes crashed for a single mode

---
 pyotf/phaseretrieval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index ec7c637..b6320de 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -193,7 +193,7 @@ class PhaseRetrievalResult(object):
         r, theta = self.r, self.theta
         r = r / (self.na / self.wl)
         # generate zernikes
-        zerns = zernike(r, theta, np.arange(1, num_zerns + 1))
+        zerns = zernike(r, theta, np.arange(1, num_zerns + 1)).reshape(num_zerns, *r.shape)
         mag_coefs = _fit_to_zerns(self.mag, zerns, r)
         phase_coefs = _fit_to_zerns(self.phase, zerns, r)
         self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
-- 
2.43.0


From b92f276d181b4cb9b40605033209445aa6c73ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 13/28] fix: generate_psf moved the PSF off centre when padding
 to a size of other parity

---
 pyotf/phaseretrieval.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index b6320de..0ed6561 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -23,7 +23,7 @@ from numpy.linalg import lstsq
 from skimage.restoration import unwrap_phase
 
 from .otf import HanserPSF
-from .utils import fft_pad, psqrt
+from .utils import psqrt
 from .zernike import noll2name, zernike
 
 logger = logging.getLogger(__name__)
@@ -216,8 +216,10 @@ class PhaseRetrievalResult(object):
         assert ny == nx, "Something is very wrong"
         if size is not None:
             if nx < size:
-                # if size is too small, pad it out.
-                psf = fft_pad(psf, (nz, size, size), mode="constant")
+                # if size is too small, pad it out, keeping the center at size // 2
+                lb = size // 2 - nx // 2
+                hb = size - nx - lb
+                psf = np.pad(psf, ((0, 0), (lb, hb), (lb, hb)), mode="constant")
             elif nx > size:
                 # if size is too big, crop it
                 lb = size // 2
-- 
2.43.0


From 1ab1af08148d98b17e8207e577d1ee02ed59e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 14/28] fix: retrieve_phase overwrote entries of the caller's
 params dict

---
 pyotf/phaseretrieval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 0ed6561..9149397 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -71,6 +71,7 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
     assert data.shape[1] == data.shape[2], "Data is not square in x/y"
     assert data.ndim == 3, "Data doesn't have enough dims"
     # make sure the user hasn't screwed up the params
+    params = dict(params)
     params.update(
         dict(vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1])
     )
-- 
2.43.0


From 7183aae6265add264255e6029b2294ac0bee1d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 15/28] fix: degrees2noll returned the index of another
 polynomial for impossible degrees

---
 pyotf/zernike.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 0b182ad..7b36fe0 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -193,6 +193,8 @@ def degrees2noll(n, m):
         raise ValueError("Azimuthal degree is not integer, input = {m}")
     if ((n - m) % 2).any():
         raise ValueError("The difference between radial and azimuthal degree isn't mod 2")
+    if (abs(m) > n).any():
+        raise ValueError("The azimuthal degree cannot be larger than the radial degree")
     # do the mapping
     p = (m + n * (n + 2)) / 2
     noll = noll_mapping[p.astype(int)]
-- 
2.43.0


From 04fa94a8ad695524939aa214b85c0e4513979164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 16/28] fix: psf_plot and otf_plot showed the XZ data in the YZ
 panel and vice versa

---
 pyotf/display.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyotf/display.py b/pyotf/display.py
index a717526..6ff2c60 100644
--- a/pyotf/display.py
+++ b/pyotf/display.py
@@ -150,12 +150,12 @@ def psf_plot(
     # do plotting
     if mip:
         grid[3].imshow(psf.max(0), **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf.max(1).T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf.max(2), **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf.max(2).T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf.max(1), **dkwargs, extent=(*kx, *kz))
     else:
         grid[3].imshow(psf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
@@ -238,8 +238,8 @@ def otf_plot(
     kz, ky, kx = [fft_max_min(n, d) for n, d in zip(otf.shape, (zres, res, res))]
 
     grid[3].imshow(otf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-    grid[2].imshow(otf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-    grid[1].imshow(otf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+    grid[2].imshow(otf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+    grid[1].imshow(otf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
-- 
2.43.0


From 12601c32a68b0485983159c76f25e1b8f7dd03c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 17/28] fix: remove_bg with an integer multiplier wrapped
 around for unsigned data

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 931b737..85d2dfe 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -247,7 +247,7 @@ def remove_bg(data, multiplier=1.5):
     # should add bit for floats, that will find the mode using the hist
     # function bincounts with num bins specified
     mode = np.bincount(data.ravel()).argmax()
-    return data - multiplier * mode
+    return data - multiplier * float(mode)
 
 
 def psqrt(data):
-- 
2.43.0


From c3095c9384b16a10f7f250b7a63ee28791b93824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 18/28] fix: Zernike polynomials of odd azimuthal degree had
 the wrong sign

---
 pyotf/zernike.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 7b36fe0..f4e7cf4 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -294,10 +294,9 @@ def _radial_zernike(r, n, m):
     # for the radial part m is always positive
     m = abs(m)
     # calculate the coefs
-    coef1 = (n + m) // 2
-    coef2 = (n - m) // 2
-    jacobi = eval_jacobi(coef2, m, 0, 1 - 2 * rprime ** 2)
-    rad_zern[valid_points] = (-1) ** coef1 * rprime ** m * jacobi
+    coef = (n - m) // 2
+    jacobi = eval_jacobi(coef, m, 0, 1 - 2 * rprime ** 2)
+    rad_zern[valid_points] = (-1) ** coef * rprime ** m * jacobi
     return rad_zern
 
 
-- 
2.43.0


From bbfc8664d8c44bb77a0326eba8bfafda0da954ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 19/28] fix: radial_profile's deviation was NaN for constant
 rings and overflowed for integer data

---
 pyotf/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 85d2dfe..7f34814 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -400,15 +400,15 @@ def radial_profile(data, center=None, binsize=1.0):
     r = np.round(r / binsize).astype(int)
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
-    # sum the squares at equal r
-    tbin2 = np.bincount(r.ravel(), (data ** 2).ravel())
     # find how many equal r's there are
     nr = np.bincount(r.ravel())
     # calculate the radial mean
     # NOTE: because nr could be zero (for missing bins) the results will
     # have NaN for binsize != 1
     radial_mean = tbin / nr
-    # calculate the radial std
-    radial_std = np.sqrt(tbin2 / nr - radial_mean ** 2)
+    # calculate the radial std from the squared deviations at equal r
+    # (squares of the data would overflow integer types and cancel badly)
+    dev2 = np.bincount(r.ravel(), ((data - radial_mean[r]) ** 2).ravel())
+    radial_std = np.sqrt(dev2 / nr)
     # return them
     return radial_mean, radial_std
-- 
2.43.0


From 985cf36d90aa77f68c3e5bef96e020ad413367ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 20/28] fix: apply_aberration gave a PSF of the wrong shape for
 models of size 1

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 5224f82..d4867d9 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -626,7 +626,7 @@ def apply_aberration(model, mcoefs, pcoefs):
     # make zernikes (need to convert kr to r where r = 1 when kr is at
     # diffraction limit)
     r = kr * model.wl / model.na
-    zerns = zernike(r, theta, np.arange(len(mcoefs)) + 1)
+    zerns = zernike(r, theta, np.arange(len(mcoefs)) + 1).reshape(len(mcoefs), *r.shape)
 
     pupil_phase = (zerns * pcoefs[:, None, None]).sum(0)
     pupil_mag = (zerns * mcoefs[:, None, None]).sum(0)
-- 
2.43.0


From c96a195d5f1f3964c55cfcafca6599588118444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 21/28] fix: fit_to_zernikes fitted samples on the aperture's
 edge, which the pupil excludes

---
 pyotf/phaseretrieval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 9149397..42c538c 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -409,8 +409,8 @@ def _fit_to_zerns(data, zerns, r, **kwargs):
         least squares coefficients of the fit of the zernikes to
         data
     """
-    # find the points to fit
-    valid_points = r <= 1
+    # find the points to fit, those inside the aperture, which excludes its edge (see _gen_pupil)
+    valid_points = r < 1
     data2fit = data[valid_points]
     zerns2fit = zerns[:, valid_points].T
     # fit the points
-- 
2.43.0


From d1823253f778612c3e59070ce906329a42688ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 22/28] fix: a 0-dimensional zrange array passed to HanserPSF
 was reshaped in place

---
 pyotf/otf.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index d4867d9..2fd96a7 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -319,11 +319,8 @@ class HanserPSF(BasePSF):
 
     @zrange.setter
     def zrange(self, value):
-        self._zrange = np.asarray(value)
-        # check if passed value is scalar
-        if not self._zrange.shape:
-            # convert to array for later multiplications
-            self._zrange.shape = (1,)
+        # convert scalars to arrays for later multiplications
+        self._zrange = np.atleast_1d(value)
         self._attribute_changed()
 
     def _gen_kr(self):
-- 
2.43.0


From aeeae480dc742aafeabeafce2790781dcbb3fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 23/28] fix: plot_psf and plot_otf of a HanserPSF with a custom
 zrange used zres as the axial step

---
 pyotf/otf.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 2fd96a7..36af6f8 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -211,6 +211,14 @@ class BasePSF(object):
         """Intensity OTF, complex array."""
         return easy_fft(self.PSFi)
 
+    @property
+    def _zstep(self):
+        """Axial step between planes, which a custom zrange sets regardless of zres."""
+        zrange = getattr(self, "zrange", None)
+        if zrange is None or len(zrange) < 2:
+            return self.zres
+        return (zrange[-1] - zrange[0]) / (len(zrange) - 1)
+
     def _validate_zrange(self):
         """Check zrange for uniform step size."""
         try:
@@ -230,11 +238,12 @@ class BasePSF(object):
         # smart cropping
         # nice lateral extent
         lateral_extent = self.wl / 2 / self.na / self.res * 32
-        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / self.zres * 16
+        zstep = self._zstep
+        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / abs(zstep) * 16
 
         max_loc = np.unravel_index(self.PSFi.argmax(), self.PSFi.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSFi[crop], zres=self.zres, res=self.res, **kwargs)
+        return psf_plot(self.PSFi[crop], zres=zstep, res=self.res, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -252,7 +261,7 @@ class BasePSF(object):
         dkwargs.update(kwargs)
 
         return otf_plot(
-            otf, na=self.na, ni=self.ni, wl=self.wl, zres=self.zres, res=self.res, **dkwargs,
+            otf, na=self.na, ni=self.ni, wl=self.wl, zres=self._zstep, res=self.res, **dkwargs,
         )
 
 
-- 
2.43.0


From 579f7a8c53eb03a35d08f16067a40b2cf7315f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 24/28] fix: microscope plots used the lateral pixel size as
 the axial step

---
 pyotf/microscope.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index a89c3f1..32b92d7 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -134,17 +134,18 @@ class WidefieldMicroscope(object):
         See `pyotf.display.psf_plot` for details and possible kwargs
         """
         # smart cropping
+        zstep = self.model._zstep
         lateral_extent = self.model.wl / 2 / self.model.na / self.pixel_size * 32
         axial_extent = (
             self.model.wl
             / (self.model.ni - np.sqrt(self.model.ni ** 2 - self.model.na ** 2))
-            / self.pixel_size
+            / abs(zstep)
             * 16
         )
 
         max_loc = np.unravel_index(self.PSF.argmax(), self.PSF.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSF[crop], zres=self.pixel_size, res=self.pixel_size, **kwargs)
+        return psf_plot(self.PSF[crop], zres=zstep, res=self.pixel_size, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -164,7 +165,7 @@ class WidefieldMicroscope(object):
             na=self.model.na,
             ni=self.model.ni,
             wl=self.model.wl,
-            zres=self.pixel_size,
+            zres=self.model._zstep,
             res=self.pixel_size,
             **dkwargs,
         )
-- 
2.43.0


From 2c89e508cc0b77ccb62ac8a6d637b5b6ddf73352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:33 +0000
Subject: [PATCH 25/28] fix: SIM excitation ignored the model's custom zrange

---
 pyotf/microscope.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 32b92d7..3c5ce38 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -352,9 +352,11 @@ class BaseSIMMicroscope(WidefieldMicroscope):
             "res"
         ]
 
-        z = (np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2) * self.psf_params[
-            "zres"
-        ]
+        # a model with a custom zrange isn't on the default z grid
+        z = getattr(self.model, "zrange", None)
+        if z is None:
+            z = np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2
+            z = z * self.psf_params["zres"]
 
         # open grid
         zz, yy, xx = z[:, None, None], x[None, :, None], x[None, None, :]
-- 
2.43.0


From c8e6fe0e8f907782fb44bc7bc8c01e59133e1b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 26/28] fix: plots of a HanserPSF in small units (metres)
 accepted uneven z planes

---
 pyotf/otf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 36af6f8..570343e 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -222,9 +222,9 @@ class BasePSF(object):
     def _validate_zrange(self):
         """Check zrange for uniform step size."""
         try:
-            # make sure there's only one size of z-step and that there's more than one
+            # make sure there's only one size of z-step and that there's more than one, whatever the unit
             zsteps = np.diff(self.zrange)
-            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean()):
+            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean(), atol=0):
                 raise RuntimeError(f"{self} doesn't have uniform z-steps ---> {zsteps}")
         except AttributeError:
             pass
-- 
2.43.0


From 8b54061ac9f962558555c9550d1a37a805eb1371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 27/28] fix: plot_named_coefs failed, or repeated one
 coefficient, with fewer than 15 fitted modes

---
 pyotf/phaseretrieval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 42c538c..a598d13 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -296,6 +296,8 @@ class ZernikeDecomposition(object):
         fig, ax = plt.subplots(1, 1, sharex=True, figsize=(6, 6))
         # get the ordered names
         ordered_names = [noll2name[i + 1].title() for i in range(len(noll2name))]
+        # there may be fewer modes than names
+        ordered_names = ordered_names[: self.pcoefs.size]
         # make an x range for the bar plot
         x = np.arange(len(ordered_names)) + 1
         # pull the data
-- 
2.43.0


From 938bc83b8ecfb46fe8839de386e0be1c282212d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:19 +0000
Subject: [PATCH 28/28] fix: repr of a microscope gave the oversampled grid's
 size as its size, and strings without quotes

---
 pyotf/microscope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 3c5ce38..063fcb6 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -81,7 +81,9 @@ class WidefieldMicroscope(object):
         """Return representation of a microscope object."""
         psf_kwargs = self.psf_params.copy()
         psf_kwargs.pop("res", None)
-        psf_kwargs_str = ", ".join(f"{k}={v}" for k, v in psf_kwargs.items())
+        # the model's grid is the oversampled one
+        psf_kwargs["size"] //= self.oversample_factor
+        psf_kwargs_str = ", ".join(f"{k}={v!r}" for k, v in psf_kwargs.items())
         return (
             f"{self.__class__.__name__}(model='{self.model.__class__.__name__[:-3].lower()}', "
             + f"{psf_kwargs_str}, pixel_size={self.pixel_size}, "
-- 
2.43.0

