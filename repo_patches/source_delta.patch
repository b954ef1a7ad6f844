From 7afb8b87f3672416cee528f4cab0f77f7b6ec238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 01/43] fix: dark subtraction no longer overwrites NaNs in the
 caller's reference array

---
 src/stcal/dark_current/dark_sub.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/dark_current/dark_sub.py b/src/stcal/dark_current/dark_sub.py
index d792ef0..8742ea1 100644
--- a/src/stcal/dark_current/dark_sub.py
+++ b/src/stcal/dark_current/dark_sub.py
@@ -128,6 +128,8 @@ def do_correction_data(science_data, dark_data, dark_output=None):
         return out_data, None
 
     # Replace NaN's in the dark with zeros
+    # (in a copy, so that the caller's reference array is unchanged)
+    dark_data.data = dark_data.data.copy()
     dark_data.data[np.isnan(dark_data.data)] = 0.0
 
     # Check whether the dark and science data have matching
-- 
2.43.0


From 3db61a4c690edf4acb448cd07a9cb5a0b8f24330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 02/43] fix: saturation flagging no longer modifies the
 caller's reference arrays

---
 src/stcal/saturation/saturation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stcal/saturation/saturation.py b/src/stcal/saturation/saturation.py
index bf9512f..936e490 100644
--- a/src/stcal/saturation/saturation.py
+++ b/src/stcal/saturation/saturation.py
@@ -97,6 +97,10 @@ def flag_saturated_pixels(
     # Identify pixels flagged in reference file as NO_SAT_CHECK,
     no_sat_check_mask = np.bitwise_and(sat_dq, no_sat_check) == no_sat_check
 
+    # Work on copies, so that the reference arrays of the caller are unchanged.
+    sat_dq = sat_dq.copy()
+    sat_thresh = sat_thresh.copy()
+
     # Flag pixels in the saturation threshold array with NO_SAT_CHECK,
     # and add them to to no_sat_check_mask.
     sat_dq[np.isnan(sat_thresh)] |= no_sat_check
-- 
2.43.0


From a23318cd264d870478e8fcf3006181ec550780ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 03/43] fix: linearity correction no longer modifies the
 caller's coefficients

---
 src/stcal/linearity/linearity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stcal/linearity/linearity.py b/src/stcal/linearity/linearity.py
index 866982c..29816df 100644
--- a/src/stcal/linearity/linearity.py
+++ b/src/stcal/linearity/linearity.py
@@ -348,6 +348,9 @@ def prepare_coefficients(coeffs, lin_dq, pdq, dqflags):
     new_pdq : ndarray
         The updated pixel DQ flags.
     """
+    # Work on a copy, so that the reference coefficients of the caller are unchanged
+    coeffs = coeffs.copy()
+
     # Combine the DQ arrays using bitwise_or
     new_pdq = np.bitwise_or(pdq, lin_dq)
 
-- 
2.43.0


From bcf4ff0b4e4db110c4b14c10d5c1d3cfe747c555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 04/43] fix: ramp fitting no longer byteswaps the caller's
 arrays in place

---
 src/stcal/ramp_fitting/ols_fit.py | 39 ++++++++++---------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 86f8a13..38fcdc4 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -563,7 +563,7 @@ def ols_ramp_fit_single(ramp_data, save_opt, readnoise_2d, gain_2d, weighting):
     """
     c_start = time.time()
 
-    ramp_data, gain_2d, readnoise_2d, bswap = endianness_handler(ramp_data, gain_2d, readnoise_2d)
+    ramp_data, gain_2d, readnoise_2d = endianness_handler(ramp_data, gain_2d, readnoise_2d)
 
     if ramp_data.drop_frames1 is None:
         ramp_data.drop_frames1 = 0
@@ -573,17 +573,6 @@ def ols_ramp_fit_single(ramp_data, save_opt, readnoise_2d, gain_2d, weighting):
 
     c_end = time.time()
 
-    # Read noise is used after STCAL ramp fitting for the CHARGELOSS
-    # processing, so make sure it works right for there.  In other words
-    # if they got byteswapped for the C extension, they need to be
-    # byteswapped back to properly work in python once returned from
-    # ramp fitting.
-    rn_bswap, gain_bswap = bswap
-    if rn_bswap:
-        readnoise_2d.view(readnoise_2d.dtype.newbyteorder("S")).byteswap(inplace=True)
-    if gain_bswap:
-        gain_2d.view(gain_2d.dtype.newbyteorder("S")).byteswap(inplace=True)
-
     c_diff = c_end - c_start
     log.info(f"Ramp Fitting C Time: {c_diff}")
 
@@ -595,7 +584,7 @@ def handle_array_endianness(arr, sys_order):
     Handle array endianness.
 
     Determines if the array byte order is the same as the system byte order.  If
-    it is not, then byteswap the array.
+    it is not, then return a byteswapped copy of the array.
 
     Parameters
     ----------
@@ -611,12 +600,11 @@ def handle_array_endianness(arr, sys_order):
         The ndarray in the correct byte order
     """
     arr_order = arr.dtype.byteorder
-    bswap = False
     if (arr_order == ">" and sys_order == "<") or (arr_order == "<" and sys_order == ">"):
-        arr.view(arr.dtype.newbyteorder("S")).byteswap(inplace=True)
-        bswap = True
+        # Convert a copy, the array itself may belong to the caller.
+        arr = arr.astype(arr.dtype.newbyteorder("="))
 
-    return arr, bswap
+    return arr
 
 
 def endianness_handler(ramp_data, gain_2d, readnoise_2d):
@@ -653,18 +641,15 @@ def endianness_handler(ramp_data, gain_2d, readnoise_2d):
     """
     sys_order = "<" if sys.byteorder == "little" else ">"
 
-    # If the gain and/or readnoise arrays are byteswapped before going
-    # into the C extension, then that needs to be noted and byteswapped
-    # when returned from the C extension.
-    gain_2d, gain_bswap = handle_array_endianness(gain_2d, sys_order)
-    readnoise_2d, rn_bswap = handle_array_endianness(readnoise_2d, sys_order)
+    gain_2d = handle_array_endianness(gain_2d, sys_order)
+    readnoise_2d = handle_array_endianness(readnoise_2d, sys_order)
 
-    ramp_data.data, _ = handle_array_endianness(ramp_data.data, sys_order)
-    ramp_data.average_dark_current, _ = handle_array_endianness(ramp_data.average_dark_current, sys_order)
-    ramp_data.groupdq, _ = handle_array_endianness(ramp_data.groupdq, sys_order)
-    ramp_data.pixeldq, _ = handle_array_endianness(ramp_data.pixeldq, sys_order)
+    ramp_data.data = handle_array_endianness(ramp_data.data, sys_order)
+    ramp_data.average_dark_current = handle_array_endianness(ramp_data.average_dark_current, sys_order)
+    ramp_data.groupdq = handle_array_endianness(ramp_data.groupdq, sys_order)
+    ramp_data.pixeldq = handle_array_endianness(ramp_data.pixeldq, sys_order)
 
-    return ramp_data, gain_2d, readnoise_2d, (rn_bswap, gain_bswap)
+    return ramp_data, gain_2d, readnoise_2d
 
 
 def discard_miri_groups(ramp_data):
-- 
2.43.0


From 1aca98a08d6c245eb58c8777a74b949bef27f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 05/43] fix: convert the byte order of the zero frame for the C
 ramp fitter

---
 src/stcal/ramp_fitting/ols_fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 38fcdc4..2806e4b 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -648,6 +648,8 @@ def endianness_handler(ramp_data, gain_2d, readnoise_2d):
     ramp_data.average_dark_current = handle_array_endianness(ramp_data.average_dark_current, sys_order)
     ramp_data.groupdq = handle_array_endianness(ramp_data.groupdq, sys_order)
     ramp_data.pixeldq = handle_array_endianness(ramp_data.pixeldq, sys_order)
+    if ramp_data.zeroframe is not None:
+        ramp_data.zeroframe = handle_array_endianness(ramp_data.zeroframe, sys_order)
 
     return ramp_data, gain_2d, readnoise_2d
 
-- 
2.43.0


From c8900186506629f7ff65c865f3628678040970db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 06/43] fix: pass initial_count_rate_guess the two arguments it
 takes

fit_ramps() without a count rate guess raised TypeError.
---
 src/stcal/ramp_fitting/likely_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 978f1dc..3863860 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -571,7 +571,7 @@ def fit_ramps(
 
     # diffs is (ngroups, ncols) of the current row
     if count_rate_guess is None:
-        count_rate_guess = initial_count_rate_guess(covar, diffs, diffs2use)
+        count_rate_guess = initial_count_rate_guess(diffs, diffs2use)
 
     alpha_tuple, beta_tuple, scale = compute_alphas_betas(
         count_rate_guess, gain, rnoise, covar, rescale, diffs, dn_scale
-- 
2.43.0


From 6d05af453d8f3f29fa2cc27533d95a917ea357b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 07/43] fix: drop the nonexistent name Diff from
 ols_cas22.__all__

from stcal.ramp_fitting.ols_cas22 import * raised AttributeError.
---
 src/stcal/ramp_fitting/ols_cas22/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/ols_cas22/__init__.py b/src/stcal/ramp_fitting/ols_cas22/__init__.py
index 3d30b0a..b2831e9 100644
--- a/src/stcal/ramp_fitting/ols_cas22/__init__.py
+++ b/src/stcal/ramp_fitting/ols_cas22/__init__.py
@@ -1,4 +1,4 @@
 from ._fit import Parameter, RampFitOutputs, Variance, fit_ramps
 from ._jump import JUMP_DET
 
-__all__ = ["fit_ramps", "RampFitOutputs", "Parameter", "Variance", "Diff", "JUMP_DET"]
+__all__ = ["fit_ramps", "RampFitOutputs", "Parameter", "Variance", "JUMP_DET"]
-- 
2.43.0


From a6f03cbff475cddaed9d2aff5284098711cab931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 08/43] fix: initialise JumpData.fl_jump and fl_ref under the
 names they are read by

Without a flag dictionary the attributes did not exist at all.
---
 src/stcal/jump/jump_class.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stcal/jump/jump_class.py b/src/stcal/jump/jump_class.py
index cd7523c..541e1aa 100644
--- a/src/stcal/jump/jump_class.py
+++ b/src/stcal/jump/jump_class.py
@@ -100,8 +100,8 @@ class JumpData:
         self.min_jump_to_flag_neighbors = 10
 
         # The group DQ flags.
-        self.fl_good, self.fl_sat, self.jump = None, None, None
-        self.fl_ngv, self.fl_dnu, self.ref = None, None, None
+        self.fl_good, self.fl_sat, self.fl_jump = None, None, None
+        self.fl_ngv, self.fl_dnu, self.fl_ref = None, None, None
         if dqflags is not None:
             self.fl_good = dqflags["GOOD"]
             self.fl_sat = dqflags["SATURATED"]
-- 
2.43.0


From fcb784abd4265366fefba752c7be7c2bcd3ddfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 09/43] fix: the default JumpData.min_jump_area is a number,
 not a tuple

Comparing a contour area with it raised TypeError when the default was used.
---
 src/stcal/jump/jump_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump_class.py b/src/stcal/jump/jump_class.py
index 541e1aa..cd21780 100644
--- a/src/stcal/jump/jump_class.py
+++ b/src/stcal/jump/jump_class.py
@@ -138,7 +138,7 @@ class JumpData:
         self.expand_large_events = False
 
         # The minimum contour area to trigger the creation of enclosing ellipses or circles.
-        self.min_jump_area = (5,)
+        self.min_jump_area = 5
 
         # The minimum area of saturated pixels at the center of a snowball. Only
         # contours with area above the minimum will create snowballs.
-- 
2.43.0


From 7145db1411c457ef4d2f6a648ac919b58a843eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 10/43] fix: do not reuse the previous group's saturation map
 for the last group

flag_large_events() left next_new_sat over from the previous group (or from
the previous integration) when it reached the last group, and failed with
UnboundLocalError for two-group ramps.
---
 src/stcal/jump/jump.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 9069ed6..460b19d 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -348,6 +348,9 @@ def flag_large_events(gdq, jump_flag, sat_flag, jump_data):
                 next_sat = np.bitwise_and(next_gdq, sat_flag)
                 not_current_sat = np.logical_not(current_sat)
                 next_new_sat = next_sat * not_current_sat
+            else:
+                # There is no next group, so nothing saturates in it.
+                next_new_sat = np.zeros_like(new_sat)
 
             next_sat_ellipses = find_ellipses(next_new_sat, sat_flag, jump_data.min_sat_area)
             sat_ellipses = find_ellipses(new_sat, sat_flag, jump_data.min_sat_area)
-- 
2.43.0


From ee96432704fa033a97d0132d59488a50ca5fe2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 11/43] fix: accept as many images as announced in the on-disk
 median

add_image() compared the number of images with the number of sections, so a
large buffer (few sections) made it refuse valid images.
---
 src/stcal/outlier_detection/median.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stcal/outlier_detection/median.py b/src/stcal/outlier_detection/median.py
index cb3c40a..e3b13ea 100644
--- a/src/stcal/outlier_detection/median.py
+++ b/src/stcal/outlier_detection/median.py
@@ -334,8 +334,8 @@ class _OnDiskMedian:
         Split data into ``nsections`` sections and write/append each section to
         the corresponding temporary file.
         """
-        if self._n_adds >= self.nsections:
-            msg = f"Too many calls to add_image. Expected at most {self.nsections} input models."
+        if self._n_adds >= self._expected_nframes:
+            msg = f"Too many calls to add_image. Expected at most {self._expected_nframes} input models."
             raise IndexError(msg)
         self._validate_data(data)
         self._n_adds += 1
-- 
2.43.0


From 0f0c85bf8c4389cc9fc64a652eca60e3954f3cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 12/43] fix: skip images without a measurable sky when looking
 for the global sky

Comparing None with a number raised TypeError.
---
 src/stcal/skymatch/skymatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/skymatch/skymatch.py b/src/stcal/skymatch/skymatch.py
index 12881d9..fbe1441 100644
--- a/src/stcal/skymatch/skymatch.py
+++ b/src/stcal/skymatch/skymatch.py
@@ -305,7 +305,7 @@ drizzlepac/astrodrizzle.html>`_.
         for img in images:
             sky = img.calc_sky(delta=not subtract)[0]
             sky_deltas.append(sky)
-            if do_global and (minsky is None or sky < minsky):
+            if do_global and sky is not None and (minsky is None or sky < minsky):
                 minsky = sky
 
         if do_global:
-- 
2.43.0


From 03c9448811c1494e8fbf99a0ae9c401a05ffae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 13/43] fix: weight variances of an input without read noise
 variance by unity

resample_variance_arrays() raised UnboundLocalError for the first such input
and used the previous input's read noise variance for later ones.
---
 src/stcal/resample/resample.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 4315f6f..4829501 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -1134,6 +1134,8 @@ class Resample:
         }
 
         for varname in self.variance_array_names:
+            # Do not keep the array resampled from the previous input.
+            self._variance_info[varname]["var"] = None
             if self._check_var_array(model, varname):
                 var = self._resample_one_variance_array(
                     varname,
@@ -1150,6 +1152,8 @@ class Resample:
                 mask = (rn_var > 0) & np.isfinite(rn_var)
                 weight = np.zeros(self.output_array_shape)
                 weight[mask] = np.reciprocal(rn_var[mask])
+            else:
+                weight = np.ones(self.output_array_shape)
 
         elif self.weight_type == "exptime":
             t, _ = get_tmeasure(model)
@@ -1159,9 +1163,9 @@ class Resample:
             raise ValueError("unrecognized weight type")
 
         for varname in self.variance_array_names:
-            if not self._check_var_array(model, varname):
-                continue
             var = self._variance_info[varname]["var"]
+            if var is None:
+                continue
             wsum = self._variance_info[varname]["wsum"]
             mask = (var >= 0) & np.isfinite(var) & (weight > 0)
             with warnings.catch_warnings():
-- 
2.43.0


From 47020acf0efc0d21970b9cd1ff748de0b899934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 14/43] fix: forget the exposure groups of the finalized
 product in reset_arrays

The exposure time and pointing counts of the next product left out groups
which were part of the previous one.
---
 src/stcal/resample/resample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 4829501..398aba1 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -646,6 +646,8 @@ class Resample:
         # set up an empty output model (don't allocate arrays at this time):
         if not hasattr(self, "_output_model") or self.is_finalized():
             self._output_model = self.create_output_model()
+            self._group_ids = []
+            self._n_res_models = 0
 
         if n_input_models is None:
             max_ctx_id = None
-- 
2.43.0


From 8e53b862dad0c7d6bcab01f97bbf942ca66eba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 15/43] fix: resample variances when the error is computed from
 them

As documented, compute_err='from_var' implies enable_var.
---
 src/stcal/resample/resample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 398aba1..d57a755 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -268,7 +268,8 @@ class Resample:
         self._n_res_models = 0
 
         self._enable_ctx = enable_ctx
-        self._enable_var = enable_var
+        # computing the error from variances requires resampling them:
+        self._enable_var = enable_var or compute_err == "from_var"
         self._compute_err = compute_err
         self._propagate_dq = propagate_dq
 
-- 
2.43.0


From 30d0db4b80725d743173f32d3d9428636720fa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 16/43] fix: no intensity scaling of spectral flux densities
 when the pixel scale ratio is unknown

---
 src/stcal/resample/resample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index d57a755..53bc35e 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -594,6 +594,7 @@ class Resample:
 
         if (
             photom_pixel_area
+            and self.pixel_scale_ratio is not None
             and "SPECTRAL" in wcs.output_frame.axes_type
             and is_flux_density(model["bunit_data"])
         ):
-- 
2.43.0


From c1aa3dca44adc183a03c8d03a6a68d6938164a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 17/43] fix: release the worker pools also when a worker raises

---
 src/stcal/jump/jump.py            | 7 ++-----
 src/stcal/ramp_fitting/ols_fit.py | 6 ++----
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 460b19d..dc5b64f 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -154,13 +154,10 @@ def twopoint_diff_multi(twopt_params, data, gdq, readnoise_2d, n_slices):
 
     log.info("Creating %d processes for jump detection ", n_slices)
     ctx = multiprocessing.get_context("spawn")
-    pool = ctx.Pool(processes=n_slices)
-
     # Starts each slice in its own process. Starmap allows more than one
     # parameter to be passed.
-    real_result = pool.starmap(twopt.find_crs, slices)
-    pool.close()
-    pool.join()
+    with ctx.Pool(processes=n_slices) as pool:
+        real_result = pool.starmap(twopt.find_crs, slices)
 
     return reassemble_sliced_data(real_result, gdq, yinc)
 
diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 2806e4b..0b8b9a1 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -152,10 +152,8 @@ def ols_ramp_fit_multiprocessing(ramp_data, save_opt, readnoise_2d, gain_2d, wei
     )
 
     ctx = multiprocessing.get_context("spawn")
-    pool = ctx.Pool(processes=number_slices)
-    pool_results = pool.starmap(ols_ramp_fit_single, slices)
-    pool.close()
-    pool.join()
+    with ctx.Pool(processes=number_slices) as pool:
+        pool_results = pool.starmap(ols_ramp_fit_single, slices)
 
     # Reassemble results
     image_info, integ_info, opt_info = assemble_pool_results(
-- 
2.43.0


From 210fa0618437dc6cd05d6a2ac0ed5346de566b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 18/43] fix: remove the temporary directory also when the
 on-disk median fails

---
 src/stcal/outlier_detection/median.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stcal/outlier_detection/median.py b/src/stcal/outlier_detection/median.py
index e3b13ea..58b2976 100644
--- a/src/stcal/outlier_detection/median.py
+++ b/src/stcal/outlier_detection/median.py
@@ -133,8 +133,10 @@ class MedianComputer:
         if self.in_memory:
             median_data = nanmedian3D(self._median_computer)
         else:
-            median_data = self._median_computer.compute_median()
-            self._median_computer.cleanup()
+            try:
+                median_data = self._median_computer.compute_median()
+            finally:
+                self._median_computer.cleanup()
         return median_data
 
 
-- 
2.43.0


From 9f7b2c3299ca74aa43bd60280bcb1e76360ead76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 19/43] fix: restore the bounding boxes when calc_pixmap fails
 before mapping pixels

---
 src/stcal/resample/utils.py | 38 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/stcal/resample/utils.py b/src/stcal/resample/utils.py
index d729335..a689d36 100644
--- a/src/stcal/resample/utils.py
+++ b/src/stcal/resample/utils.py
@@ -133,27 +133,27 @@ def calc_pixmap(wcs_from, wcs_to, shape=None, disable_bbox="to", stepsize=1, ord
     if shape is None:
         raise ValueError('The "from" WCS must have pixel_shape property set.')
 
-    # temporarily disable the bounding box for the "from" WCS:
-    if disable_bbox in ["from", "both"] and bbox_from is not None:
-        wcs_from.bounding_box = None
-    if disable_bbox in ["to", "both"] and bbox_to is not None:
-        wcs_to.bounding_box = None
-
-    # find integer boundaries of of the pixel grid to be computed:
-    if bbox_from is None:
-        xmin, xmax = 0, shape[1] - 1
-        ymin, ymax = 0, shape[0] - 1
-    else:
-        ((xmin, xmax), (ymin, ymax)) = bbox_from
-        xmin = max(0, int(math.ceil(xmin)))
-        xmax = min(shape[1] - 1, int(math.floor(xmax)))
-        ymin = max(0, int(math.ceil(ymin)))
-        ymax = min(shape[0] - 1, int(math.floor(ymax)))
+    try:
+        # temporarily disable the bounding box for the "from" WCS:
+        if disable_bbox in ["from", "both"] and bbox_from is not None:
+            wcs_from.bounding_box = None
+        if disable_bbox in ["to", "both"] and bbox_to is not None:
+            wcs_to.bounding_box = None
+
+        # find integer boundaries of of the pixel grid to be computed:
+        if bbox_from is None:
+            xmin, xmax = 0, shape[1] - 1
+            ymin, ymax = 0, shape[0] - 1
+        else:
+            ((xmin, xmax), (ymin, ymax)) = bbox_from
+            xmin = max(0, int(math.ceil(xmin)))
+            xmax = min(shape[1] - 1, int(math.floor(xmax)))
+            ymin = max(0, int(math.ceil(ymin)))
+            ymax = min(shape[0] - 1, int(math.floor(ymax)))
 
-    eff_width = xmax - xmin + 1
-    eff_height = ymax - ymin + 1
+        eff_width = xmax - xmin + 1
+        eff_height = ymax - ymin + 1
 
-    try:
         if stepsize == 1 or max(eff_width, eff_height) <= 10:
             y, x = np.indices(shape, dtype=np.float64)
             x, y = wcs_to.world_to_pixel_values(*wcs_from.pixel_to_world_values(x, y))
-- 
2.43.0


From 5d9310a01fbd3ecca75d24afdb27103973b65091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 20/43] fix: honour minimum_groups in single-process jump
 detection

The serial path replaced the caller's minimum_groups by 3, while the parallel
path used it, so the option and the number of processes changed the result.
---
 src/stcal/jump/jump.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index dc5b64f..8fbcb63 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -90,7 +90,6 @@ def detect_jumps_data(jump_data):
 
     twopt_params = TwoPointParams(jump_data)
     if n_slices == 1:
-        twopt_params.minimum_groups = 3
         gdq, row_below_dq, row_above_dq, total_primary_crs = twopt.find_crs(
             data, gdq, readnoise_2d, twopt_params
         )
-- 
2.43.0


From e3a0673cbc99bfd6af607c80a9355c91605d4a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 21/43] fix: exclude unusable groups from shower detection
 whatever other flags they carry

Groups were compared for equality with particular flag combinations, so a
saturated or do-not-use group with any other flag entered the statistics.
---
 src/stcal/jump/jump.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 8fbcb63..d9385d5 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -1214,13 +1214,8 @@ def nan_invalid_data(data, gdq, jump_data):
     data : ndarray
         NaN'd cience data 4D float
     """
-    jump_dnu_flag = jump_data.fl_jump + jump_data.fl_dnu
-    sat_dnu_flag = jump_data.fl_sat + jump_data.fl_dnu
-    data[gdq == jump_dnu_flag] = np.nan
-    data[gdq == sat_dnu_flag] = np.nan
-    data[gdq == jump_data.fl_sat] = np.nan
-    data[gdq == jump_data.fl_jump] = np.nan
-    data[gdq == jump_data.fl_dnu] = np.nan
+    invalid_flags = jump_data.fl_jump | jump_data.fl_sat | jump_data.fl_dnu
+    data[gdq & invalid_flags != 0] = np.nan
 
     return data
 
-- 
2.43.0


From a1456cf01ba0e235fb686e7b62f525a6a2fba2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 22/43] fix: keep the group DQ flags already set where
 saturation is extended

---
 src/stcal/jump/jump.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index d9385d5..a2b9fbf 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -446,7 +446,9 @@ def extend_saturation(cube, grp, sat_ellipses, jump_data, persist_jumps):
 
             is_sat = sat_ellipse == satcolor
             for i in range(grp, cube.shape[0]):
-                cube[i][iy1:iy2, ix1:ix2][is_sat] = jump_data.fl_sat
+                # Saturated groups carry no jump flag; all other flags are kept.
+                plane = cube[i][iy1:iy2, ix1:ix2]
+                plane[is_sat] = plane[is_sat] & ~np.asarray(jump_data.fl_jump, plane.dtype) | jump_data.fl_sat
 
             ax1, ax2 = (ellipse[1][0], ellipse[1][1])
             indx, persist_ellipse = ellipse_subim(ceny, cenx, ax1, ax2, alpha, satcolor, (nrows, ncols))
-- 
2.43.0


From eb27bad48f68a867ae7b2880366fc9f7c968d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 23/43] fix: keep the group DQ flags of reference pixels in
 shower detection

---
 src/stcal/jump/jump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index a2b9fbf..c6dba06 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -817,7 +817,7 @@ def find_faint_extended(indata, ingdq, pdq, readnoise_2d, jump_data, min_diffs_f
     data = nan_invalid_data(data, gdq, jump_data)
 
     refy, refx = np.where(pdq == refpix_flag)
-    gdq[:, :, refy, refx] = jump_data.fl_dnu
+    gdq[:, :, refy, refx] |= jump_data.fl_dnu
     first_diffs = np.diff(data, axis=1)
     del data
 
-- 
2.43.0


From 37aaaa9e84fb7fcd78cddfa8fcf1dcea7c1955a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 24/43] fix: count the flagged groups of all integrations for
 sigma clipping

Only the count left over from the last integration was subtracted.
---
 src/stcal/jump/twopoint_difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index 952cb41..6e26f88 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -663,7 +663,7 @@ def groups_all_set_dnu(nints, ngroups, gdq, twopt_p):
     if twopt_p.only_use_ints:
         total_sigclip_groups = nints
     else:
-        total_sigclip_groups = nints * ngroups - num_flagged_grps
+        total_sigclip_groups = nints * ngroups - total_flagged_grps
 
     min_usable_groups = ngroups - max_flagged_grps
     total_groups = nints * ngroups - total_flagged_grps
-- 
2.43.0


From bb9e4ed9a40f5f334698f0f6f081de8371fa095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 25/43] fix: likelihood jump search: leave unusable differences
 out of the count rate guess

---
 src/stcal/ramp_fitting/likely_fit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 3863860..32d2825 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -246,9 +246,12 @@ def mask_jumps(
     # jumps (which is what we are looking for) since we'll be using
     # likelihoods and chi squared; getting the covariance matrix
     # reasonably close to correct is important.
-    count_rate_guess = np.median(loc_diff, axis=0)[np.newaxis, :]
+    # Differences that are not to be used do not enter the guess.
+    with warnings.catch_warnings():
+        warnings.filterwarnings("ignore", "All-NaN", RuntimeWarning)
+        count_rate_guess = np.nanmedian(np.where(diffs2use, loc_diff, np.nan), axis=0)[np.newaxis, :]
 
-    count_rate_guess *= count_rate_guess > 0
+    count_rate_guess = np.where(count_rate_guess > 0, count_rate_guess, 0)
 
     # boolean arrays to be used later
     recheck = np.ones(loc_diff.shape[1]) == 1
-- 
2.43.0


From 230f1b528c5d584305e34dc22a27d8413a481082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 26/43] fix: likelihood fit: combine chi-square over the
 integrations that have one

---
 src/stcal/ramp_fitting/likely_fit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 32d2825..0a35e82 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -445,7 +445,9 @@ def compute_image_info(integ_class, ramp_data):
 
     err = np.sqrt(var_p + var_r)
 
-    chisq = np.sum(integ_class.chisq, axis=0)
+    all_nan = np.all(np.isnan(integ_class.chisq), axis=0)
+    chisq = np.nansum(integ_class.chisq, axis=0)
+    chisq[all_nan] = np.nan
 
     return {"slope": slope, "dq": dq, "var_poisson": var_p, "var_rnoise": var_r, "err": err, "chisq": chisq}
 
-- 
2.43.0


From e2b0ac525dfa60a83ff093f0c68a6f832865b736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 27/43] fix: OLS multiprocessing: hand suppress_one_group_ramps
 to the slices

---
 src/stcal/ramp_fitting/ols_fit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 0b8b9a1..0468d81 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -499,6 +499,10 @@ def slice_ramp_data(ramp_data, start_row, nrows):
         drop_frames1=ramp_data.drop_frames1,
     )
 
+    # Carry over the processing options.
+    ramp_data_slice.suppress_one_group_ramps = ramp_data.suppress_one_group_ramps
+    ramp_data_slice.debug = ramp_data.debug
+
     # Carry over DQ flags.
     ramp_data_slice.flags_do_not_use = ramp_data.flags_do_not_use
     ramp_data_slice.flags_jump_det = ramp_data.flags_jump_det
-- 
2.43.0


From e135721a05d90ce0945c85d02b2f8f4dd82860c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 28/43] fix: jump multiprocessing: decide on usable groups for
 the whole image, not per section

---
 src/stcal/jump/jump.py                      | 2 ++
 src/stcal/jump/twopoint_difference.py       | 5 ++++-
 src/stcal/jump/twopoint_difference_class.py | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index c6dba06..6d381e8 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -149,6 +149,8 @@ def twopoint_diff_multi(twopt_params, data, gdq, readnoise_2d, n_slices):
     total_primary_crs : int
         total number of primary cosmic rays computed
     """
+    # Whether there are enough usable groups is decided for the whole image.
+    twopt_params.group_totals = twopt.groups_all_set_dnu(gdq.shape[0], gdq.shape[1], gdq, twopt_params)
     slices, yinc = slice_data(twopt_params, data, gdq, readnoise_2d, n_slices)
 
     log.info("Creating %d processes for jump detection ", n_slices)
diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index 6e26f88..b81d416 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -43,7 +43,10 @@ def find_crs(data, group_dq, read_noise, twopt_p):
     row_above_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
     row_below_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
 
-    ngroups_ans = groups_all_set_dnu(nints, ngroups, group_dq, twopt_p)
+    if twopt_p.group_totals is not None:
+        ngroups_ans = twopt_p.group_totals
+    else:
+        ngroups_ans = groups_all_set_dnu(nints, ngroups, group_dq, twopt_p)
     min_usable_groups = ngroups_ans[0]
     total_groups = ngroups_ans[1]
     min_usable_diffs = ngroups_ans[2]
diff --git a/src/stcal/jump/twopoint_difference_class.py b/src/stcal/jump/twopoint_difference_class.py
index 5994fda..ec1deb2 100644
--- a/src/stcal/jump/twopoint_difference_class.py
+++ b/src/stcal/jump/twopoint_difference_class.py
@@ -10,6 +10,9 @@ class TwoPointParams:
         jump_data : JumpData
             Class containing parameters and methods to detect jumps.
         """
+        # The group totals of the whole image, when only some of its rows are processed.
+        self.group_totals = None
+
         if jump_data is not None:
             self.normal_rej_thresh = jump_data.rejection_thresh
 
-- 
2.43.0


From da1acad2066203a796f2123b8b9a74978d033dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:58 +0000
Subject: [PATCH 29/43] fix: cas22: return slope and all variances for a single
 ramp

The results were already reshaped to drop the pixel axis, so indexing them
once more returned only the intercept and the read variance.
---
 src/stcal/ramp_fitting/ols_cas22_fit.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_cas22_fit.py b/src/stcal/ramp_fitting/ols_cas22_fit.py
index 533cebd..45b8ba9 100644
--- a/src/stcal/ramp_fitting/ols_cas22_fit.py
+++ b/src/stcal/ramp_fitting/ols_cas22_fit.py
@@ -133,10 +133,6 @@ def fit_ramps_casertano(
     variances = output.variances.reshape(orig_shape[1:] + (3,))
     dq = output.dq.reshape(orig_shape)
 
-    if resultants.shape != orig_shape:
-        parameters = parameters[0]
-        variances = variances[0]
-
     if resultants_unit is not None:
         parameters = parameters * resultants_unit
 
-- 
2.43.0


From bcdb1dd1553a6b880c6942f2b0941e19a6795be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:52 +0000
Subject: [PATCH 30/43] fix: slope_fitter: check the type of the original group
 DQ before reading it

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 7267993..5127065 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2232,6 +2232,14 @@ get_ramp_data_new_validate(struct ramp_data *rd) /* the ramp data */
         return 1;
     }
 
+    /* The original group DQ could be NoneType, so needed a separate check */
+    if ((((PyObject *) rd->orig_gdq) != Py_None) && (NPY_UBYTE != PyArray_TYPE(rd->orig_gdq))) {
+        msg = "Bad type array for the original group DQ.";
+        err_ols_print("%s\n", msg);
+        PyErr_SetString(PyExc_TypeError, msg);
+        return 1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 3719b275ccbd79b5802cf7e77bbe25265c479364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 31/43] fix: ramp fitter - a failed optional result allocation
 was never checked for the cosmic ray lists

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 5127065..47ab73b 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -1152,7 +1152,7 @@ clean_ramp_data(struct ramp_data *rd) /* The ramp fitting data structure */
             }
 
             /* CR list */
-            cr_current = rd->crs[idx];
+            cr_current = (rd->crs) ? rd->crs[idx] : NULL;
             while (cr_current) {
                 cr_next = cr_current->flink;
                 memset(cr_current, 0, sizeof(*cr_current));
@@ -2057,7 +2057,7 @@ get_ramp_data(PyObject *args) /* The C extension module arguments */
         rd->crs = (struct cr_node **) calloc(rd->cube_sz, sizeof(rd->crs[0]));
         rd->pedestal = (real_t *) calloc(rd->cube_sz, sizeof(rd->pedestal[0]));
 
-        if ((NULL == rd->segs) || (NULL == rd->pedestal)) {
+        if ((NULL == rd->segs) || (NULL == rd->crs) || (NULL == rd->pedestal)) {
             err_ols_print("%s\n", msg);
             PyErr_SetString(PyExc_MemoryError, msg);
             FREE_RAMP_DATA(rd);
-- 
2.43.0


From b37772f089be6a076699d9201a10cd2bdc191e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 32/43] fix: ramp fitter - the ramp data structure was freed
 twice when an input array was rejected

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 47ab73b..9d4ce7f 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2088,8 +2088,7 @@ get_ramp_data_arrays(
 
     /* Validate numpy array types */
     if (get_ramp_data_new_validate(rd)) {
-        FREE_RAMP_DATA(rd);
-        return 1;
+        return 1; /* The caller frees the ramp data. */
     }
 
     /* Check endianness of the arrays, as well as the dimensions. */
-- 
2.43.0


From 60814f454f492ae00aa18dceff13b7d56f8d059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 33/43] fix: ramp fitter - a missing input array was used as a
 NULL pointer

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 9d4ce7f..dbee602 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2086,6 +2086,10 @@ get_ramp_data_arrays(
     rd->zframe = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "zeroframe");
     rd->dcurrent = (PyArrayObject *) PyObject_GetAttrString(Py_ramp_data, "average_dark_current");
 
+    if (!rd->data || !rd->groupdq || !rd->orig_gdq || !rd->pixeldq || !rd->zframe || !rd->dcurrent) {
+        return 1; /* The exception is set by the failed attribute access. */
+    }
+
     /* Validate numpy array types */
     if (get_ramp_data_new_validate(rd)) {
         return 1; /* The caller frees the ramp data. */
-- 
2.43.0


From 04cf041050c8cdc25240bf77608d5ec92d5311ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 34/43] fix: ramp fitter - failing to read a meta data
 attribute was not reported

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 60 ++++++++++++++++++++---
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index dbee602..8fc3e09 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -521,7 +521,7 @@ get_ramp_data(PyObject *args);
 static int
 get_ramp_data_arrays(PyObject *Py_ramp_data, struct ramp_data *rd);
 
-static void
+static int
 get_ramp_data_meta(PyObject *Py_ramp_data, struct ramp_data *rd);
 
 static int
@@ -579,6 +579,9 @@ py_ramp_data_get_float(PyObject *rd, const char *attr);
 static int
 py_ramp_data_get_int(PyObject *rd, const char *attr);
 
+static PyObject *
+py_ramp_data_get_optional(PyObject *rd, const char *attr);
+
 static int
 ramp_fit_pixel(struct ramp_data *rd, struct pixel_ramp *pr);
 
@@ -2043,8 +2046,10 @@ get_ramp_data(PyObject *args) /* The C extension module arguments */
         goto END;
     }
 
-    /* Void function */
-    get_ramp_data_meta(Py_ramp_data, rd);
+    if (get_ramp_data_meta(Py_ramp_data, rd)) {
+        FREE_RAMP_DATA(rd);
+        goto END;
+    }
 
     /* One time computations. */
     rd->effintim = (rd->nframes + rd->groupgap) * rd->frame_time;
@@ -2106,7 +2111,7 @@ get_ramp_data_arrays(
  * Get the meta data from the ramp_data class defined in ramp_fit_class.
  * Also, validate the types for each array and get endianness functions.
  */
-static void
+static int
 get_ramp_data_meta(
     PyObject *Py_ramp_data, /* The RampData class */
     struct ramp_data *rd)   /* The ramp data */
@@ -2118,7 +2123,7 @@ get_ramp_data_meta(
     rd->nframes = py_ramp_data_get_int(Py_ramp_data, "nframes");
     rd->suppress1g = py_ramp_data_get_int(Py_ramp_data, "suppress_one_group_ramps");
 
-    test = PyObject_GetAttrString(Py_ramp_data, "drop_frames1");
+    test = py_ramp_data_get_optional(Py_ramp_data, "drop_frames1");
     if (!test || (test == Py_None)) {
         rd->dropframes = 0;
     } else {
@@ -2136,7 +2141,7 @@ get_ramp_data_meta(
     rd->ngval = py_ramp_data_get_int(Py_ramp_data, "flags_no_gain_val");
     rd->uslope = py_ramp_data_get_int(Py_ramp_data, "flags_unreliable_slope");
 
-    test = PyObject_GetAttrString(Py_ramp_data, "flags_chargeloss");
+    test = py_ramp_data_get_optional(Py_ramp_data, "flags_chargeloss");
     if (!test || (test == Py_None)) {
         rd->chargeloss = 0;
     } else {
@@ -2144,7 +2149,7 @@ get_ramp_data_meta(
     }
     Py_XDECREF(test);
 
-    test = PyObject_GetAttrString(Py_ramp_data, "start_row");
+    test = py_ramp_data_get_optional(Py_ramp_data, "start_row");
     if (!test || (test == Py_None)) {
         rd->start_row = 0;
     } else {
@@ -2152,7 +2157,7 @@ get_ramp_data_meta(
     }
     Py_XDECREF(test);
 
-    test = PyObject_GetAttrString(Py_ramp_data, "num_rows");
+    test = py_ramp_data_get_optional(Py_ramp_data, "num_rows");
     if (!test || (test == Py_None)) {
         rd->num_rows = 0;
     } else {
@@ -2168,6 +2173,8 @@ get_ramp_data_meta(
     /* Get float meta data */
     rd->group_time = (real_t) py_ramp_data_get_float(Py_ramp_data, "group_time");
     rd->frame_time = (real_t) py_ramp_data_get_float(Py_ramp_data, "frame_time");
+
+    return PyErr_Occurred() ? 1 : 0;
 }
 
 /*
@@ -2757,13 +2764,43 @@ py_ramp_data_get_float(
     PyObject *Obj;
     float val;
 
+    if (PyErr_Occurred()) {
+        return 0.; /* An earlier attribute failed. */
+    }
+
     Obj = PyObject_GetAttrString(rd, attr);
+    if (NULL == Obj) {
+        return 0.;
+    }
     val = (float) PyFloat_AsDouble(Obj);
     Py_XDECREF(Obj);
 
     return val;
 }
 
+/*
+ * Get an attribute of the ramp_data class that does not have to exist.
+ * NULL is returned if it doesn't, leaving no exception set.
+ */
+static PyObject *
+py_ramp_data_get_optional(
+    PyObject *rd,     /* The RampData class */
+    const char *attr) /* The attribute to get from the class */
+{
+    PyObject *Obj;
+
+    if (PyErr_Occurred()) {
+        return NULL; /* An earlier attribute failed. */
+    }
+
+    Obj = PyObject_GetAttrString(rd, attr);
+    if ((NULL == Obj) && PyErr_ExceptionMatches(PyExc_AttributeError)) {
+        PyErr_Clear();
+    }
+
+    return Obj;
+}
+
 /*
  * Get a integer value from an attribute of the ramp_data class defined in
  * ramp_fit_class.
@@ -2776,7 +2813,14 @@ py_ramp_data_get_int(
     PyObject *Obj;
     int val;
 
+    if (PyErr_Occurred()) {
+        return 0; /* An earlier attribute failed. */
+    }
+
     Obj = PyObject_GetAttrString(rd, attr);
+    if (NULL == Obj) {
+        return 0;
+    }
     val = (int) PyLong_AsLong(Obj);
     Py_XDECREF(Obj);
 
-- 
2.43.0


From b3438ec3c37c9c6c285bfbde189b7b1c53852f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 35/43] fix: ramp fitter - a failed pixel ramp allocation was
 used or missed

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 8fc3e09..8101fb1 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -1117,8 +1117,10 @@ clean_pixel_ramp(struct pixel_ramp *pr) /* Ramp fitting data for a pixel. */
     FREE_SEGS_LIST(pr->nints, pr->segs);
 
     /* XXX Clean CR list */
-    for (integ = 0; integ < pr->nints; ++integ) {
-        cr_list_clean(&(pr->crs[integ]));
+    if (pr->crs) {
+        for (integ = 0; integ < pr->nints; ++integ) {
+            cr_list_clean(&(pr->crs[integ]));
+        }
     }
     SET_FREE(pr->crs);
 }
@@ -1560,7 +1562,8 @@ create_pixel_ramp(struct ramp_data *rd) /* The ramp fitting data */
 
     if ((NULL == pr->data) || (NULL == pr->groupdq) || (NULL == pr->rateints) ||
         (NULL == pr->segs) || (NULL == pr->stats) || (NULL == pr->is_zframe) ||
-        (NULL == pr->is_0th) || (NULL == pr->crs)) {
+        (NULL == pr->is_0th) || (NULL == pr->crs) ||
+        ((((PyObject *) rd->orig_gdq) != Py_None) && (NULL == pr->orig_gdq))) {
         snprintf(msg, 255, "Couldn't allocate memory for pixel ramp data structure.");
         err_ols_print("%s\n", msg);
         PyErr_SetString(PyExc_MemoryError, (const char *) msg);
-- 
2.43.0


From c1a857f9b5ac9522556bc609a24ad210f24cfa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 36/43] fix: ramp fitter - failing to store a cosmic ray
 magnitude was ignored

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 8101fb1..548ef17 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -497,7 +497,7 @@ get_float3(PyArrayObject *obj, npy_intp integ, npy_intp row, npy_intp col);
 static uint32_t
 get_uint32_2(PyArrayObject *obj, npy_intp row, npy_intp col);
 
-static void
+static int
 get_pixel_ramp(struct pixel_ramp *pr, struct ramp_data *rd, npy_intp row, npy_intp col);
 
 static void
@@ -1799,7 +1799,7 @@ get_uint32_2(
  * Integration level flag data is also computed, as well as setting flags
  * to use the 0th frame timing, rather than group time, or use the ZEROFRAME.
  */
-static void
+static int
 get_pixel_ramp(
     struct pixel_ramp *pr, /* Pixel ramp data */
     struct ramp_data *rd,  /* Ramp data */
@@ -1825,7 +1825,9 @@ get_pixel_ramp(
             /* Capture CR magnitudes of optional results product is requested */
             if (rd->save_opt && (group > 0) && (pr->groupdq[idx] & rd->jump)) {
                 crmag = pr->data[idx] - pr->data[idx - 1];
-                cr_list_add(&(pr->crs[integ]), crmag);
+                if (cr_list_add(&(pr->crs[integ]), crmag)) {
+                    return 1;
+                }
             }
             idx++;
         }
@@ -1861,6 +1863,8 @@ get_pixel_ramp(
             pr->rate.dq |= rd->pers;
         }
     }
+
+    return 0;
 }
 
 /*
@@ -2583,7 +2587,10 @@ ols_slope_fit_pixels(
     for (row = 0; row < rd->nrows; ++row) {
         for (col = 0; col < rd->ncols; ++col) {
 
-            get_pixel_ramp(pr, rd, row, col);
+            if (get_pixel_ramp(pr, rd, row, col)) {
+                ret = 1;
+                goto END;
+            }
 
             // DBG_PIXEL;
 
-- 
2.43.0


From 81e329b30cc36fd15bd2e9b6dcc3d11e3d62f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 37/43] fix: ramp fitter - a failure computing the median rate
 was ignored

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 548ef17..5181759 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2377,6 +2377,7 @@ median_rate_default(
 
             /* Compute the median rate for the integration. */
             if (median_rate_integration(&mrate, int_data, int_dq, rd, pr)) {
+                ret = 1;
                 goto END;
             }
         }
-- 
2.43.0


From 64f6d6708be2f4fc6f6f399645136572b3378568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 38/43] fix: ramp fitter - a failure fitting a pixel was
 reported as success

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 5181759..c5e89ef 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2618,7 +2618,7 @@ ols_slope_fit_pixels(
 
 END:
 
-    return 0;
+    return ret;
 }
 
 /*
-- 
2.43.0


From 40f837bb415b1d73652fd4f71334d8698c34e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 39/43] fix: ramp fitter - products were released twice when
 their allocation failed

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index c5e89ef..b973df1 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -1619,14 +1619,7 @@ create_rate_product(
     return 0;
 
 FAILED_ALLOC:
-    err_ols_print("%s\n", msg);
-    PyErr_SetString(PyExc_MemoryError, msg);
-
-    Py_XDECREF(rate->slope);
-    Py_XDECREF(rate->dq);
-    Py_XDECREF(rate->var_poisson);
-    Py_XDECREF(rate->var_rnoise);
-    Py_XDECREF(rate->var_err);
+    /* The caller releases what has been allocated so far. */
     PyErr_SetString(PyExc_MemoryError, (const char *) msg);
     err_ols_print("%s\n", msg);
 
@@ -1678,14 +1671,7 @@ create_rateint_product(
     return 0;
 
 FAILED_ALLOC:
-    PyErr_SetString(PyExc_MemoryError, msg);
-    err_ols_print("%s\n", msg);
-
-    Py_XDECREF(rateint->slope);
-    Py_XDECREF(rateint->dq);
-    Py_XDECREF(rateint->var_poisson);
-    Py_XDECREF(rateint->var_rnoise);
-    Py_XDECREF(rateint->var_err);
+    /* The caller releases what has been allocated so far. */
     PyErr_SetString(PyExc_MemoryError, (const char *) msg);
     err_ols_print("%s\n", msg);
 
-- 
2.43.0


From 0ef45db0ff6d17c5b8e8d14577a4ed5aa5dc37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 40/43] fix: ramp fitter - references to None and to packaged
 arrays were released without being owned

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index b973df1..b64088e 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -1054,17 +1054,17 @@ static PyObject *
 build_opt_res(struct ramp_data *rd) /* The ramp fitting data */
 {
     struct opt_res_product opt_res = {0};
-    PyObject *opt_res_info = Py_None;
+    PyObject *opt_res_info = NULL;
 
     /* Make PyObjectArray's */
     if (create_opt_res(&opt_res, rd)) {
-        return Py_None;
+        return NULL;
     }
 
     /* Copy data from rd->segs to these arrays */
     if (save_opt_res(&opt_res, rd)) {
         clean_opt_res(&opt_res);
-        return Py_None;
+        return NULL;
     }
 
     /* Package arrays into output tuple */
@@ -2637,14 +2637,15 @@ package_results(
     struct rateint_product *rateints, /* The rateints product */
     struct ramp_data *rd)             /* The ramp data */
 {
-    PyObject *image_info = Py_None;
-    PyObject *cube_info = Py_None;
-    PyObject *opt_res = Py_None;
-    PyObject *result = Py_None;
+    PyObject *image_info = NULL;
+    PyObject *cube_info = NULL;
+    PyObject *opt_res = NULL;
+    PyObject *result = NULL;
 
     image_info = Py_BuildValue(
         "{s:N,s:N,s:N,s:N,s:N}", "slope", rate->slope, "dq", rate->dq, "var_poisson",
         rate->var_poisson, "var_rnoise", rate->var_rnoise, "err", rate->var_err);
+    memset(rate, 0, sizeof(*rate)); /* The references now belong to image_info. */
     if (!image_info) {
         goto FAILED_ALLOC;
     }
@@ -2652,6 +2653,7 @@ package_results(
     cube_info = Py_BuildValue(
         "{s:N,s:N,s:N,s:N,s:N}", "slope", rateints->slope, "dq", rateints->dq, "var_poisson",
         rateints->var_poisson, "var_rnoise", rateints->var_rnoise, "err", rateints->var_err);
+    memset(rateints, 0, sizeof(*rateints)); /* The references now belong to cube_info. */
     if (!cube_info) {
         goto FAILED_ALLOC;
     }
@@ -2661,6 +2663,9 @@ package_results(
         if (!opt_res) {
             goto FAILED_ALLOC;
         }
+    } else {
+        Py_INCREF(Py_None);
+        opt_res = Py_None;
     }
 
     result = Py_BuildValue("(NNN)", image_info, cube_info, opt_res);
-- 
2.43.0


From 2280e39103d538850527b7858970d0fcd1a686d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 41/43] fix: ramp fitter - an internal failure now reaches the
 caller as the exception that was set

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index b64088e..8e110b5 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -928,7 +928,7 @@ ols_slope_fitter(
     PyObject *module, /* The ramp fitting module for the C extension. */
     PyObject *args)   /* The arguments for the C extension */
 {
-    PyObject *result = Py_None;
+    PyObject *result = NULL;
     struct ramp_data *rd = NULL;
     struct pixel_ramp *pr = NULL;
     struct rate_product rate_prod = {0};
@@ -962,21 +962,16 @@ ols_slope_fitter(
 
     /* Package up results to be returned */
     result = package_results(&rate_prod, &rateint_prod, rd);
-    if ((NULL == result) || (Py_None == (PyObject *) result)) {
+    if (NULL == result) {
         goto ERROR;
     }
 
     goto CLEANUP;
 ERROR:
-    Py_XDECREF(result);
-
-    /* Clean up errors */
+    /* Clean up errors, the exception set is raised by returning NULL. */
     clean_rate_product(&rate_prod);
     clean_rateint_product(&rateint_prod);
 
-    /* Return (None, None, None) */
-    result = Py_BuildValue("(OOO)", Py_None, Py_None, Py_None);
-
 CLEANUP:
     FREE_RAMP_DATA(rd);
     FREE_PIXEL_RAMP(pr);
-- 
2.43.0


From bda12ce09acffea0a22420c6af81ade6b0ce3d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:31 +0000
Subject: [PATCH 42/43] fix: ramp fitter - arrays of the wrong shape or rank
 were read out of bounds

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 45 ++++++++++++++++++++---
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 8e110b5..0432d4c 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2203,6 +2203,26 @@ get_ramp_data_parse(
     return 0;
 }
 
+/* Is the object an array of the given type and number of dimensions? */
+static int
+is_array_of(
+    PyArrayObject *arr, /* The object to check */
+    int type,           /* The NumPy type number */
+    int ndim)           /* The number of dimensions */
+{
+    return PyArray_Check((PyObject *) arr) && (type == PyArray_TYPE(arr)) && (ndim == PyArray_NDIM(arr));
+}
+
+/* Does the 2-D array have the image dimensions of the 4-D ramp data? */
+static int
+is_image_of(
+    PyArrayObject *image, /* The 2-D array to check */
+    PyArrayObject *data)  /* The 4-D ramp data */
+{
+    return (PyArray_DIM(image, 0) == PyArray_DIM(data, 2)) &&
+           (PyArray_DIM(image, 1) == PyArray_DIM(data, 3));
+}
+
 /*
  * Validate the numpy arrays inputted from the ramp_data class have
  * the correct data types.
@@ -2213,9 +2233,9 @@ get_ramp_data_new_validate(struct ramp_data *rd) /* the ramp data */
     char *msg = NULL;
 
     /* Validate the types for each of the ndarrays */
-    if (!((NPY_FLOAT == PyArray_TYPE(rd->data)) && (NPY_UBYTE == PyArray_TYPE(rd->groupdq)) &&
-          (NPY_UINT32 == PyArray_TYPE(rd->pixeldq)) && (NPY_FLOAT == PyArray_TYPE(rd->dcurrent)) &&
-          (NPY_FLOAT == PyArray_TYPE(rd->gain)) && (NPY_FLOAT == PyArray_TYPE(rd->rnoise)))) {
+    if (!(is_array_of(rd->data, NPY_FLOAT, 4) && is_array_of(rd->groupdq, NPY_UBYTE, 4) &&
+          is_array_of(rd->pixeldq, NPY_UINT32, 2) && is_array_of(rd->dcurrent, NPY_FLOAT, 2) &&
+          is_array_of(rd->gain, NPY_FLOAT, 2) && is_array_of(rd->rnoise, NPY_FLOAT, 2))) {
         msg = "Bad type array for pass ndarrays to C.";
         err_ols_print("%s\n", msg);
         PyErr_SetString(PyExc_TypeError, msg);
@@ -2223,7 +2243,7 @@ get_ramp_data_new_validate(struct ramp_data *rd) /* the ramp data */
     }
 
     /* ZEROFRAME could be NoneType, so needed a separate check */
-    if ((((PyObject *) rd->zframe) != Py_None) && (NPY_FLOAT != PyArray_TYPE(rd->zframe))) {
+    if ((((PyObject *) rd->zframe) != Py_None) && !is_array_of(rd->zframe, NPY_FLOAT, 3)) {
         msg = "Bad type array ZEROFRAME.";
         err_ols_print("%s\n", msg);
         PyErr_SetString(PyExc_TypeError, msg);
@@ -2231,13 +2251,28 @@ get_ramp_data_new_validate(struct ramp_data *rd) /* the ramp data */
     }
 
     /* The original group DQ could be NoneType, so needed a separate check */
-    if ((((PyObject *) rd->orig_gdq) != Py_None) && (NPY_UBYTE != PyArray_TYPE(rd->orig_gdq))) {
+    if ((((PyObject *) rd->orig_gdq) != Py_None) && !is_array_of(rd->orig_gdq, NPY_UBYTE, 4)) {
         msg = "Bad type array for the original group DQ.";
         err_ols_print("%s\n", msg);
         PyErr_SetString(PyExc_TypeError, msg);
         return 1;
     }
 
+    /* Every array is read using the dimensions of the data. */
+    if (!(PyArray_SAMESHAPE(rd->groupdq, rd->data) && is_image_of(rd->pixeldq, rd->data) &&
+          is_image_of(rd->dcurrent, rd->data) && is_image_of(rd->gain, rd->data) &&
+          is_image_of(rd->rnoise, rd->data)) ||
+        ((((PyObject *) rd->orig_gdq) != Py_None) && !PyArray_SAMESHAPE(rd->orig_gdq, rd->data)) ||
+        ((((PyObject *) rd->zframe) != Py_None) &&
+         ((PyArray_DIM(rd->zframe, 0) != PyArray_DIM(rd->data, 0)) ||
+          (PyArray_DIM(rd->zframe, 1) != PyArray_DIM(rd->data, 2)) ||
+          (PyArray_DIM(rd->zframe, 2) != PyArray_DIM(rd->data, 3))))) {
+        msg = "Array shapes passed to C do not match.";
+        err_ols_print("%s\n", msg);
+        PyErr_SetString(PyExc_ValueError, msg);
+        return 1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From b14ebf5411ea7014e82c14163cc0932d0782cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:03 +0000
Subject: [PATCH 43/43] fix: judge snowballs near the edge along each axis of
 the detector

---
 src/stcal/jump/jump.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 6d381e8..31e42f6 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -671,7 +671,8 @@ def make_snowballs(
     """
     nints, ngroups, nrows, ncols = gdq.shape
     low_threshold = jump_data.edge_size
-    high_threshold = max(0, nrows - jump_data.edge_size)
+    # The centers of the ellipses are (x, y), i.e., (column, row).
+    high_threshold = (max(0, ncols - jump_data.edge_size), max(0, nrows - jump_data.edge_size))
 
     # This routine will create a list of snowballs (ellipses) that have the
     # center of the saturation circle within the enclosing jump rectangle.
@@ -762,9 +763,9 @@ def near_edge(jump, low_threshold, high_threshold):
         Low threshold distance from the edge of the detector where saturated cores are not
         required for snowball detection.
 
-    high_threshold : int
-        High threshold distance from the edge of the detector where saturated cores are not
-        required for snowball detection.
+    high_threshold : tuple of int
+        High threshold distances (column, row) from the edge of the detector where saturated
+        cores are not required for snowball detection.
 
     Returns
     -------
@@ -774,8 +775,8 @@ def near_edge(jump, low_threshold, high_threshold):
     return (
         jump[0][0] < low_threshold
         or jump[0][1] < low_threshold
-        or jump[0][0] > high_threshold
-        or jump[0][1] > high_threshold
+        or jump[0][0] > high_threshold[0]
+        or jump[0][1] > high_threshold[1]
     )
 
 
-- 
2.43.0

