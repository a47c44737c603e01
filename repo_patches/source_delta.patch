From 659ac09436b7fe7ccbcb80e9073b493963797e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:03 +0000
Subject: [PATCH 01/43] fix: soft and garrote thresholding of zeros with a zero
 threshold returned nan

---
 pywt/_thresholding.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 33af65b..8309d71 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -17,9 +17,11 @@ def soft(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
         thresholded = (1 - value/magnitude)
+        # 0/0 when both the value and the threshold are zero
+        thresholded = np.where(magnitude == 0, 0, thresholded)
         thresholded.clip(min=0, max=None, out=thresholded)
         thresholded = data * thresholded
 
@@ -35,9 +37,11 @@ def nn_garrote(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
         thresholded = (1 - value**2/magnitude**2)
+        # 0/0 when both the value and the threshold are zero
+        thresholded = np.where(magnitude == 0, 0, thresholded)
         thresholded.clip(min=0, max=None, out=thresholded)
         thresholded = data * thresholded
 
-- 
2.43.0


From 94f3ee8fcb9dbf6715a4612f6f919bea0055a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:03 +0000
Subject: [PATCH 02/43] fix: garrote thresholding overflowed when squaring
 small integer data

---
 pywt/_thresholding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 8309d71..a9467c1 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -39,7 +39,8 @@ def nn_garrote(data, value, substitute=0):
 
     with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - value**2/magnitude**2)
+        # form the ratio first: squaring small integer types would overflow
+        thresholded = (1 - (value/magnitude)**2)
         # 0/0 when both the value and the threshold are zero
         thresholded = np.where(magnitude == 0, 0, thresholded)
         thresholded.clip(min=0, max=None, out=thresholded)
-- 
2.43.0


From b43919ad504a7cc70088289076a79d22385648a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:28 +0000
Subject: [PATCH 03/43] fix: threshold_firm ignored a large first element and
 returned nan at equal, zero or infinite thresholds

---
 pywt/_thresholding.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index a9467c1..0f6fd69 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -240,15 +240,17 @@ def threshold_firm(data, value_low, value_high):
 
     data = np.asarray(data)
     magnitude = np.absolute(data)
-    with np.errstate(divide='ignore'):
+    if np.isinf(value_high):
+        # soft-thresholding is the limit for an infinite upper threshold
+        return soft(data, value_low)
+    with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
         vdiff = value_high - value_low
         thresholded = value_high * (1 - value_low/magnitude) / vdiff
+        # 0/0 at the lower threshold if it is zero or equals the upper one
+        thresholded = np.where(magnitude <= value_low, 0, thresholded)
         thresholded.clip(min=0, max=None, out=thresholded)
         thresholded = data * thresholded
 
     # restore hard-thresholding behavior for values > value_high
-    large_vals = np.where(magnitude > value_high)
-    if np.any(large_vals[0]):
-        thresholded[large_vals] = data[large_vals]
-    return thresholded
+    return np.where(magnitude > value_high, data, thresholded)
-- 
2.43.0


From b79dfa4cf3647f0ac68cba25fef410680ad24b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:28 +0000
Subject: [PATCH 04/43] fix: imra2 and imran modified the first component of
 their input in place

---
 pywt/_mra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index a41431e..c2465c4 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -283,7 +283,7 @@ def imra2(mra_coeffs):
     rec = mra_coeffs[0]
     for j in range(1, len(mra_coeffs)):
         for n in range(3):
-            rec += mra_coeffs[j][n]
+            rec = rec + mra_coeffs[j][n]
     return rec
 
 
@@ -430,5 +430,5 @@ def imran(mra_coeffs):
     rec = mra_coeffs[0]
     for j in range(1, len(mra_coeffs)):
         for k, v in mra_coeffs[j].items():
-            rec += v
+            rec = rec + v
     return rec
-- 
2.43.0


From fb2cf465fa545a92f9de55e8531bfb941b950b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:28 +0000
Subject: [PATCH 05/43] fix: wavedecn_shapes chose a different default level
 than wavedecn for per-axis wavelets

---
 pywt/_multilevel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 0e5ca9c..1529cc2 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -926,7 +926,7 @@ def wavedecn_shapes(shape, wavelet, mode='symmetric', level=None, axes=None):
     modes = _modes_per_axis(mode, axes)
     dec_lengths = [w.dec_len for w in wavelets]
 
-    level = _check_level(min(axes_shapes), max(dec_lengths), level)
+    level = _check_level(axes_shapes, dec_lengths, level)
 
     shapes = []
     for i in range(level):
-- 
2.43.0


From 6c7a4169e6ea1d294741a3f0a14bf6b0ca097ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:50 +0000
Subject: [PATCH 06/43] fix: default level of mra2 and mran depended on axes
 that are not transformed

---
 pywt/_mra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index c2465c4..1242284 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -207,7 +207,8 @@ def mra2(data, wavelet, level=None, axes=(-2, -1), transform='swt2',
             raise ValueError(
                 "transform swt only supports mode='periodization'")
         if level is None:
-            level = min(swt_max_level(s) for s in data.shape)
+            axes_shapes = _prep_axes_wavedecn(data.shape, axes)[1]
+            level = min(swt_max_level(s) for s in axes_shapes)
         kwargs = {"wavelet": wavelet, "axes": axes, "norm": True}
         forward = partial(swt2, level=level, trim_approx=True, **kwargs)
         inverse = partial(iswt2, **kwargs)
@@ -350,7 +351,7 @@ def mran(data, wavelet, level=None, axes=None, transform='swtn',
             raise ValueError(
                 "transform swt only supports mode='periodization'")
         if level is None:
-            level = min(swt_max_level(s) for s in data.shape)
+            level = min(swt_max_level(s) for s in axes_shapes)
         kwargs = {"wavelet": wavelets, "axes": axes, "norm": True}
         forward = partial(swtn, level=level, trim_approx=True, **kwargs)
         inverse = partial(iswtn, **kwargs)
-- 
2.43.0


From d0cbe262f78a10ac1e4bf1e23d7cbf64b1a1cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:50 +0000
Subject: [PATCH 07/43] fix: mra, mra2 and mran failed on array_like data such
 as lists

---
 pywt/_mra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index 1242284..b98ec34 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -72,6 +72,7 @@ def mra(data, wavelet, level=None, axis=-1, transform='swt',
         https://doi.org/10.2307/2965551
 
     """
+    data = np.asarray(data)
     if transform == 'swt':
         if mode != 'periodization':
             raise ValueError(
@@ -202,6 +203,7 @@ def mra2(data, wavelet, level=None, axes=(-2, -1), transform='swt2',
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
+    data = np.asarray(data)
     if transform == 'swt2':
         if mode != 'periodization':
             raise ValueError(
@@ -343,6 +345,7 @@ def mran(data, wavelet, level=None, axes=None, transform='swtn',
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
+    data = np.asarray(data)
     axes, axes_shapes, ndim_transform = _prep_axes_wavedecn(data.shape, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
 
-- 
2.43.0


From 2f11aa49ba6a198e6422de97ffcb363730527adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:50 +0000
Subject: [PATCH 08/43] fix: downcoef never returned for length 1 data in
 reflect and antireflect modes

---
 pywt/_extensions/_dwt.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 0fba429..c2f6a2c 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -442,6 +442,8 @@ cpdef downcoef(bint do_dec_a, cdata_t[::1] data, Wavelet wavelet, MODE mode, int
         output_len = common.dwt_buffer_length(data.size, wavelet.dec_len, mode)
         if output_len < 1:
             raise RuntimeError("Invalid output length.")
+        if data_size == 1 and (mode == MODE.MODE_REFLECT or mode == MODE.MODE_ANTIREFLECT):
+            raise ValueError("Input data length must be greater than 1 for [anti]reflect mode.")
 
         # To mirror multi-level wavelet decomposition behaviour, when detail
         # coefficients are requested, the dec_d variant is only called at the
-- 
2.43.0


From d44ac907731db25d488361db119d7310c68f067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:10 +0000
Subject: [PATCH 09/43] fix: pad failed for zero right widths in smooth and
 antisymmetric modes and misread single samples in smooth mode

---
 pywt/_dwt.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 1af28d9..c6a9b4d 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -461,16 +461,21 @@ def pad(x, pad_widths, mode):
         xp = np.pad(x, pad_widths, mode='edge')
     elif mode == 'smooth':
         def pad_smooth(vector, pad_width, iaxis, kwargs):
+            first = pad_width[0]
+            last = vector.size - pad_width[1] - 1
+            # a single sample has no slope: it is extended as a constant
+            step = min(1, last - first)
+
             # smooth extension to left
-            left = vector[pad_width[0]]
-            slope_left = (left - vector[pad_width[0] + 1])
+            left = vector[first]
+            slope_left = (left - vector[first + step])
             vector[:pad_width[0]] = \
                 left + np.arange(pad_width[0], 0, -1) * slope_left
 
             # smooth extension to right
-            right = vector[-pad_width[1] - 1]
-            slope_right = (right - vector[-pad_width[1] - 2])
-            vector[-pad_width[1]:] = \
+            right = vector[last]
+            slope_right = (right - vector[last - step])
+            vector[last + 1:] = \
                 right + np.arange(1, pad_width[1] + 1) * slope_right
             return vector
         xp = np.pad(x, pad_widths, pad_smooth)
@@ -481,7 +486,7 @@ def pad(x, pad_widths, mode):
             npad_l, npad_r = pad_width
             vsize_nonpad = vector.size - npad_l - npad_r
             # Note: must modify vector in-place
-            vector[:] = np.pad(vector[pad_width[0]:-pad_width[-1]],
+            vector[:] = np.pad(vector[npad_l:npad_l + vsize_nonpad],
                                pad_width, mode='symmetric')
             vp = vector
             r_edge = npad_l + vsize_nonpad - 1
-- 
2.43.0


From 7eb878cf59c5e061bae9edf308fc14678aa6b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:10 +0000
Subject: [PATCH 10/43] fix: downcoef and upcoef accepted '' and 'ad' as part

---
 pywt/_dwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index c6a9b4d..472eb15 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -336,7 +336,7 @@ def downcoef(part, data, wavelet, mode='symmetric', level=1):
     data = np.asarray(data, dtype=dt, order='C')
     if data.ndim > 1:
         raise ValueError("downcoef only supports 1d data.")
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     mode = Modes.from_object(mode)
     wavelet = _as_wavelet(wavelet)
@@ -396,7 +396,7 @@ def upcoef(part, coeffs, wavelet, level=1, take=0):
     if coeffs.ndim > 1:
         raise ValueError("upcoef only supports 1d coeffs.")
     wavelet = _as_wavelet(wavelet)
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     return np.asarray(_upcoef(part == 'a', coeffs, wavelet, level, take))
 
-- 
2.43.0


From e9e566dc297f2585fb643fe1a066701b7d3e1f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:47 +0000
Subject: [PATCH 11/43] fix: repeated axes were accepted when one was given as
 a negative alias

---
 pywt/_multilevel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 1529cc2..6813fdd 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -228,7 +228,7 @@ def wavedec2(data, wavelet, mode='symmetric', level=None, axes=(-2, -1)):
     axes = tuple(axes)
     if len(axes) != 2:
         raise ValueError("Expected 2 axes")
-    if len(axes) != len(set(axes)):
+    if len(axes) != len({a + data.ndim if a < 0 else a for a in axes}):
         raise ValueError("The axes passed to wavedec2 must be unique.")
     try:
         axes_sizes = [data.shape[ax] for ax in axes]
@@ -312,6 +312,8 @@ def waverec2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
 
     a, ds = coeffs[0], coeffs[1:]
     a = np.asarray(a)
+    if len(axes) != len({ax + a.ndim if ax < 0 else ax for ax in axes}):
+        raise ValueError("The axes passed to waverec2 must be unique.")
 
     for d in ds:
         if not isinstance(d, (list, tuple)) or len(d) != 3:
@@ -347,7 +349,7 @@ def _prep_axes_wavedecn(shape, axes):
         axes = range(ndim)
     else:
         axes = tuple(axes)
-    if len(axes) != len(set(axes)):
+    if len(axes) != len({a + ndim if a < 0 else a for a in axes}):
         raise ValueError("The axes passed to wavedecn must be unique.")
     try:
         axes_shapes = [shape[ax] for ax in axes]
@@ -560,7 +562,7 @@ def waverecn(coeffs, wavelet, mode='symmetric', axes=None):
         axes = range(ndim)
     else:
         axes = tuple(axes)
-    if len(axes) != len(set(axes)):
+    if len(axes) != len({a + ndim if a < 0 else a for a in axes}):
         raise ValueError("The axes passed to waverecn must be unique.")
     ndim_transform = len(axes)
 
@@ -1193,7 +1195,7 @@ def unravel_coeffs(arr, coeff_slices, coeff_shapes, output_format='wavedecn'):
 
 def _check_fswavedecn_axes(data, axes):
     """Axes checks common to fswavedecn, fswaverecn."""
-    if len(axes) != len(set(axes)):
+    if len(axes) != len({a + data.ndim if a < 0 else a for a in axes}):
         raise AxisError("The axes passed to fswavedecn must be unique.")
     try:
         [data.shape[ax] for ax in axes]
-- 
2.43.0


From f88962309debe531995b465471d6f8eda5ccd031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 12/43] fix: wavelet packets accepted repeated axes given as
 negative aliases, and WaveletPacketND failed on lists

---
 pywt/_wavelet_packets.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 57ebcb9..d82d9de 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -842,6 +842,8 @@ class WaveletPacket2D(Node2D):
             if data.ndim < 2:
                 raise ValueError(
                     "WaveletPacket2D requires data with 2 or more dimensions.")
+            if len({ax % data.ndim for ax in self.axes}) != 2:
+                raise ValueError("Expected two unique axes.")
             self.data_size = data.shape
             transform_size = [data.shape[ax] for ax in self.axes]
             if maxlevel is None:
@@ -960,7 +962,9 @@ class WaveletPacketND(NodeND):
     """
     def __init__(self, data, wavelet, mode='smooth', maxlevel=None,
                  axes=None):
-        if (data is None) and (axes is None):
+        if data is not None:
+            data = np.asarray(data)
+        elif axes is None:
             # ndim is required to create a NodeND object
             raise ValueError("If data is None, axes must be specified")
 
@@ -975,7 +979,6 @@ class WaveletPacketND(NodeND):
         ndim_transform = len(axes)
 
         if data is not None:
-            data = np.asarray(data)
             if data.ndim == 0:
                 raise ValueError("data must be at least 1D")
             ndim = data.ndim
@@ -994,6 +997,8 @@ class WaveletPacketND(NodeND):
             if data.ndim < len(axes):
                 raise ValueError("The number of axes exceeds the number of "
                                  "data dimensions.")
+            if len({ax % data.ndim for ax in axes}) != len(axes):
+                raise ValueError("Expected a set of unique axes.")
             self.data_size = data.shape
             transform_size = [data.shape[ax] for ax in self.axes]
             if maxlevel is None:
-- 
2.43.0


From a13b33060faa677a54a5e67cab6b2bd1f4894869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 13/43] fix: dwtn and dwt2 accessed memory out of bounds for
 out-of-range axes

---
 pywt/_multidim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 5a30b80..11dcbaf 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -175,6 +175,8 @@ def dwtn(data, wavelet, mode='symmetric', axes=None):
     if axes is None:
         axes = range(data.ndim)
     axes = [a + data.ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= data.ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
 
     modes = _modes_per_axis(mode, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
-- 
2.43.0


From d638201fbf1db5cdf34fa516c36187c32c87560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 14/43] fix: inverse stationary transforms accepted axes below
 -ndim

---
 pywt/_swt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index f64e959..ba5b5a6 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -745,6 +745,8 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     if axes is None:
         axes = range(output.ndim)
     axes = [a + ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= ndim for a in axes):
+        raise AxisError("Axis greater than coefficient dimensions")
     if len(axes) != len(set(axes)):
         raise ValueError("The axes passed to swtn must be unique.")
     if ndim_transform != len(axes):
-- 
2.43.0


From 4e187c148dad3b602e4a8e5c4d68d6231bdb9870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 15/43] fix: iswtn removed and re-inserted keys of the caller's
 coefficient dictionaries

---
 pywt/_swt.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index ba5b5a6..5eb59ce 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -770,9 +770,9 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     for j in range(num_levels):
         step_size = int(pow(2, num_levels-j-1))
         last_index = step_size
-        if not trim_approx:
-            a = coeffs[j].pop('a'*ndim_transform)  # will restore later
-        details = coeffs[j]
+        # the approximations of this level are not needed
+        details = {k: v for k, v in coeffs[j].items()
+                   if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
             [dt, ] + [v.dtype for v in details.values()]))
@@ -822,6 +822,4 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                 output[tuple(indices)] += x
                 ntransforms += 1
             output[tuple(indices)] /= ntransforms  # normalize
-        if not trim_approx:
-            coeffs[j]['a'*ndim_transform] = a  # restore approx coeffs to dict
     return output
-- 
2.43.0


From 94d72470f910931ed9483d0e1bc775227b7aeed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:56 +0000
Subject: [PATCH 16/43] fix: byte-swapped complex data lost its imaginary part

---
 pywt/_extensions/_pywt.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index ddef575..e636208 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -1036,7 +1036,11 @@ cpdef np.dtype _check_dtype(data):
     try:
         dt = data.dtype
         if dt not in (np.float64, np.float32, np.complex64, np.complex128):
-            if dt == np.half:
+            if not dt.isnative and dt.newbyteorder('=') in (
+                    np.float32, np.complex64, np.complex128):
+                # byte-swapped input keeps its precision and kind
+                dt = dt.newbyteorder('=')
+            elif dt == np.half:
                 # half-precision input converted to single precision
                 dt = np.dtype('float32')
             elif dt == np.complex256:
-- 
2.43.0


From ef0bde404559105ab1543ee47742fad7b0aa397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:56 +0000
Subject: [PATCH 17/43] fix: one-dimensional transforms rejected read-only
 input arrays

---
 pywt/_extensions/_dwt.pxd | 2 +-
 pywt/_extensions/_dwt.pyx | 6 +++---
 pywt/_extensions/_swt.pyx | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywt/_extensions/_dwt.pxd b/pywt/_extensions/_dwt.pxd
index bf5aefd..4e96cf0 100644
--- a/pywt/_extensions/_dwt.pxd
+++ b/pywt/_extensions/_dwt.pxd
@@ -1,5 +1,5 @@
 from ._pywt cimport Wavelet, cdata_t
 
 
-cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
+cpdef upcoef(bint do_rec_a, const cdata_t[::1] coeffs, Wavelet wavelet, int level,
              size_t take)
diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index c2f6a2c..5770702 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -23,7 +23,7 @@ cpdef dwt_coeff_len(size_t data_len, size_t filter_len, MODE mode):
 
     return common.dwt_buffer_length(data_len, filter_len, mode)
 
-cpdef dwt_single(cdata_t[::1] data, Wavelet wavelet, MODE mode):
+cpdef dwt_single(const cdata_t[::1] data, Wavelet wavelet, MODE mode):
     cdef size_t output_len = dwt_coeff_len(data.size, wavelet.dec_len, mode)
     cdef np.ndarray cA, cD
     cdef int retval_a, retval_d
@@ -336,7 +336,7 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     return output
 
 
-cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
+cpdef upcoef(bint do_rec_a, const cdata_t[::1] coeffs, Wavelet wavelet, int level,
              size_t take):
     cdef cdata_t[::1] rec
     cdef int i, retval
@@ -429,7 +429,7 @@ cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
     return rec
 
 
-cpdef downcoef(bint do_dec_a, cdata_t[::1] data, Wavelet wavelet, MODE mode, int level):
+cpdef downcoef(bint do_dec_a, const cdata_t[::1] data, Wavelet wavelet, MODE mode, int level):
     cdef cdata_t[::1] coeffs
     cdef int i, retval
     cdef size_t output_len, data_size
diff --git a/pywt/_extensions/_swt.pyx b/pywt/_extensions/_swt.pyx
index 26e9e33..ba07e4e 100644
--- a/pywt/_extensions/_swt.pyx
+++ b/pywt/_extensions/_swt.pyx
@@ -51,7 +51,7 @@ def swt_max_level(size_t input_len):
     return max_level
 
 
-def swt(cdata_t[::1] data, Wavelet wavelet, size_t level, size_t start_level,
+def swt(const cdata_t[::1] data, Wavelet wavelet, size_t level, size_t start_level,
         bool trim_approx=False):
     cdef cdata_t[::1] cA, cD
     cdef Wavelet w
-- 
2.43.0


From fc6d026cf55761c5e1136990656be027b27875d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 18/43] fix: complex data given as lists was rejected by 1-D
 transforms

---
 pywt/_extensions/_pywt.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index e636208..92f58aa 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -1050,7 +1050,8 @@ cpdef np.dtype _check_dtype(data):
                 # integer input was always accepted; convert to float64
                 dt = np.dtype('float64')
     except AttributeError:
-        dt = np.dtype('float64')
+        # array_like input without a dtype, such as lists
+        dt = np.dtype('complex128' if np.iscomplexobj(data) else 'float64')
     return dt
 
 
-- 
2.43.0


From 2317fadd876c1b57f0523c9bc13185855d420eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 19/43] fix: idwt accepted an n-D array of details with 1-D
 approximations

---
 pywt/_dwt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 472eb15..f7c68ed 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -285,6 +285,9 @@ def idwt(cA, cD, wavelet, mode='symmetric', axis=-1):
         raise AxisError("Axis greater than coefficient dimensions")
 
     if ndim == 1:
+        if cD.ndim != 1:
+            raise ValueError("Coefficients arrays must have the same number "
+                             "of dimensions.")
         rec = idwt_single(cA, cD, wavelet, mode)
     else:
         rec = idwt_axis(cA, cD, wavelet, mode, axis=axis)
-- 
2.43.0


From 9be623648a7ef817574fdafc7a9df89fe57e6b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 20/43] fix: idwtn returned None when the number of axes did
 not match the coefficient names

---
 pywt/_multidim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 11dcbaf..d35bf7c 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -284,6 +284,9 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
     else:
         ndim = len(coeff_shape)
     axes = [a + ndim if a < 0 else a for a in axes]
+    if len(axes) != ndim_transform:
+        raise ValueError("The coefficient names must have one character per "
+                         "transformed axis.")
 
     modes = _modes_per_axis(mode, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
-- 
2.43.0


From 5b0bc253d50c4fe8d6a8c667336a459073fada19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 21/43] fix: coeffs_to_array and ravel_coeffs narrowed details
 to the dtype of the approximation

---
 pywt/_multilevel.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 6813fdd..7192f85 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -673,6 +673,12 @@ def _prepare_coeffs_axes(coeffs, axes):
     return coeffs, axes, ndim, ndim_transform
 
 
+def _common_coeffs_dtype(coeffs):
+    """The dtype able to hold every coefficient of a wavedecn-style list."""
+    dtypes = [v.dtype for d in coeffs[1:] for v in d.values() if v is not None]
+    return np.result_type(coeffs[0].dtype, *dtypes)
+
+
 def coeffs_to_array(coeffs, padding=0, axes=None):
     """
     Arrange a wavelet coefficient list from ``wavedecn`` into a single array.
@@ -759,12 +765,13 @@ def coeffs_to_array(coeffs, padding=0, axes=None):
     arr_shape, is_tight_packing = _determine_coeff_array_shape(coeffs, axes)
 
     # preallocate output array
+    dtype = _common_coeffs_dtype(coeffs)
     if padding is None:
         if not is_tight_packing:
             raise ValueError("array coefficients cannot be tightly packed")
-        coeff_arr = np.empty(arr_shape, dtype=a_coeffs.dtype)
+        coeff_arr = np.empty(arr_shape, dtype=dtype)
     else:
-        coeff_arr = np.full(arr_shape, padding, dtype=a_coeffs.dtype)
+        coeff_arr = np.full(arr_shape, padding, dtype=dtype)
 
     a_slices = tuple([slice(s) for s in a_shape])
     coeff_arr[a_slices] = a_coeffs
@@ -1085,7 +1092,7 @@ def ravel_coeffs(coeffs, axes=None):
 
     # preallocate output array
     arr_size = wavedecn_size(coeffs)
-    coeff_arr = np.empty((arr_size, ), dtype=a_coeffs.dtype)
+    coeff_arr = np.empty((arr_size, ), dtype=_common_coeffs_dtype(coeffs))
 
     a_slice = slice(a_size)
     coeff_arr[a_slice] = a_coeffs.ravel()
-- 
2.43.0


From cfd8cf47d8b26b1d757fb8fdb5ed2e612338066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 22/43] fix: WaveletPacketND could not reconstruct data of odd
 size

---
 pywt/_wavelet_packets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index d82d9de..332279f 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -675,6 +675,9 @@ class NodeND(BaseNode):
             )
         else:
             rec = idwtn(coeffs, self.wavelet, self.mode, axes=self.axes)
+            if self._data_shape is not None and (
+                    rec.shape != self._data_shape):
+                rec = rec[tuple([slice(sz) for sz in self._data_shape])]
             if update:
                 self.data = rec
             return rec
@@ -741,7 +744,7 @@ class WaveletPacket(Node):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -869,7 +872,7 @@ class WaveletPacket2D(Node2D):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -1020,7 +1023,7 @@ class WaveletPacketND(NodeND):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
-- 
2.43.0


From 20198582e0fb02034df8985fd5d2e7ff01e0cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 23/43] fix: access to a missing packet node discarded its
 replaced or decomposed siblings

---
 pywt/_wavelet_packets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 332279f..fd7648f 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -227,7 +227,13 @@ class BaseNode:
         self._validate_node_name(part)
         subnode = self._get_node(part)
         if subnode is None and decompose and not self.is_empty:
+            # only add what is missing: subnodes that were assigned by the
+            # user or that were already decomposed are kept
+            existing = [(p, self._get_node(p)) for p in self.PARTS]
             self.decompose()
+            for p, node in existing:
+                if node is not None:
+                    self._set_node(p, node)
             subnode = self._get_node(part)
         return subnode
 
-- 
2.43.0


From e3212d79fc324edf2d0c63e74a7e028707879a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 24/43] fix: packet nodes with assigned data of odd size were
 not trimmed on reconstruction

---
 pywt/_wavelet_packets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index fd7648f..a91894f 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -308,6 +308,7 @@ class BaseNode:
                 dtype = _check_dtype(data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
+                self._data_shape = self.data.shape
         else:
             raise TypeError("Invalid path parameter type - expected string but"
                             " got %s." % type(path))
-- 
2.43.0


From af8ef7612c13a986b9924bd1ec4982e0d8467a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 25/43] fix: frequency order of packet level 0 did not list the
 root node

---
 pywt/_wavelet_packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index a91894f..4ddf696 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -20,6 +20,8 @@ from ._multidim import dwt2, dwtn, idwt2, idwtn
 
 
 def get_graycode_order(level, x='a', y='d'):
+    if level == 0:
+        return ['']
     graycode_order = [x, y]
     for i in range(level - 1):
         graycode_order = [x + path for path in graycode_order] + \
-- 
2.43.0


From 7a0f6791643833f16757b7f06ee9746b46cded11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 26/43] fix: assigning or reading one packet node dropped,
 restored or discarded its siblings

---
 pywt/_wavelet_packets.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 4ddf696..91d294b 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -229,13 +229,14 @@ class BaseNode:
         self._validate_node_name(part)
         subnode = self._get_node(part)
         if subnode is None and decompose and not self.is_empty:
-            # only add what is missing: subnodes that were assigned by the
-            # user or that were already decomposed are kept
-            existing = [(p, self._get_node(p)) for p in self.PARTS]
+            # if some subnodes exist already, then add only the missing one:
+            # those replaced or deleted by the user must stay as they are
+            existing = {p: self._get_node(p) for p in self.PARTS}
             self.decompose()
-            for p, node in existing:
-                if node is not None:
-                    self._set_node(p, node)
+            if any(node is not None for node in existing.values()):
+                for p, node in existing.items():
+                    if p != part:
+                        self._set_node(p, node)
             subnode = self._get_node(part)
         return subnode
 
@@ -296,7 +297,10 @@ class BaseNode:
             ):
                 raise IndexError("Path length out of range.")
             if path:
-                subnode = self.get_subnode(path[0:self.PART_LEN], False)
+                # a node with data is decomposed first, so that only the
+                # assigned sub-band is replaced
+                subnode = self.get_subnode(path[0:self.PART_LEN],
+                                           not self.has_any_subnode)
                 if subnode is None:
                     self._create_subnode(path[0:self.PART_LEN], None)
                     subnode = self.get_subnode(path[0:self.PART_LEN], False)
-- 
2.43.0


From 82c111e7e37361a8e4b46fd4f0330bc66f871566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 27/43] fix: assigning a packet node object lost the imaginary
 part of its data

---
 pywt/_wavelet_packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 91d294b..39a7c92 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -311,7 +311,7 @@ class BaseNode:
                 else:
                     self.data = np.asarray(data)
                 # convert data to nearest supported dtype
-                dtype = _check_dtype(data)
+                dtype = _check_dtype(self.data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
                 self._data_shape = self.data.shape
-- 
2.43.0


From ebeb93db590532f70427a1227429c12b5cc86b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:21 +0000
Subject: [PATCH 28/43] fix: hard, greater and less thresholding wrapped an
 integer substitute the data dtype cannot hold

---
 pywt/_thresholding.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 0f6fd69..b42891c 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -13,6 +13,16 @@ import numpy as np
 __all__ = ['threshold', 'threshold_firm']
 
 
+def _replace(cond, substitute, data):
+    if data.dtype.kind in 'iu' and isinstance(substitute, (int, np.integer)):
+        info = np.iinfo(data.dtype)
+        if not info.min <= substitute <= info.max:
+            # a Python integer takes on the dtype of data and would wrap around
+            data = data.astype(np.result_type(data.dtype,
+                                              np.min_scalar_type(substitute)))
+    return np.where(cond, substitute, data)
+
+
 def soft(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
@@ -56,21 +66,21 @@ def nn_garrote(data, value, substitute=0):
 def hard(data, value, substitute=0):
     data = np.asarray(data)
     cond = np.less(np.absolute(data), value)
-    return np.where(cond, substitute, data)
+    return _replace(cond, substitute, data)
 
 
 def greater(data, value, substitute=0):
     data = np.asarray(data)
     if np.iscomplexobj(data):
         raise ValueError("greater thresholding only supports real data")
-    return np.where(np.less(data, value), substitute, data)
+    return _replace(np.less(data, value), substitute, data)
 
 
 def less(data, value, substitute=0):
     data = np.asarray(data)
     if np.iscomplexobj(data):
         raise ValueError("less thresholding only supports real data")
-    return np.where(np.greater(data, value), substitute, data)
+    return _replace(np.greater(data, value), substitute, data)
 
 
 thresholding_options = {'soft': soft,
-- 
2.43.0


From 11c947711400a8063ccc0a867724e8596a9959c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 29/43] fix: n-D inverse transform of half-precision
 coefficients over several levels was promoted to double

---
 pywt/_multidim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index d35bf7c..feee0d3 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -14,6 +14,7 @@ import numpy as np
 
 from ._c99_config import _have_c99_complex
 from ._extensions._dwt import dwt_axis, idwt_axis
+from ._extensions._pywt import _check_dtype
 from ._utils import AxisError, _modes_per_axis, _wavelets_per_axis
 
 __all__ = ['dwt2', 'idwt2', 'dwtn', 'idwtn']
@@ -302,6 +303,9 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
             L = coeffs.get(key + 'a', None)
             H = coeffs.get(key + 'd', None)
             if L is not None and H is not None:
+                # half and extended precision are computed in single and double
+                L = np.asarray(L, dtype=_check_dtype(L))
+                H = np.asarray(H, dtype=_check_dtype(H))
                 if L.dtype != H.dtype:
                     # upcast to a common dtype (float64 or complex128)
                     if L.dtype.kind == 'c' or H.dtype.kind == 'c':
-- 
2.43.0


From 78c91beec16693caf8d6979b17b0f82a38b1e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 30/43] fix: iswtn returned extended precision for longdouble
 and half-promoted mixes for half-precision coefficients

---
 pywt/_swt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 5eb59ce..dc11e20 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -775,7 +775,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                    if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [dt, ] + [v.dtype for v in details.values()]))
+            [dt, ] + [_check_dtype(v) for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-- 
2.43.0


From 44e35b2f72740cb9d02fec60d7b96c705ac5e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:08 +0000
Subject: [PATCH 31/43] fix: iswt2 and iswtn dropped precision and the
 imaginary part when a finer level's details had a narrower dtype

---
 pywt/_swt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index dc11e20..7bb189d 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -489,7 +489,7 @@ def iswt2(coeffs, wavelet, norm=False, axes=(-2, -1)):
         # make sure output shares the common dtype
         # (conversion of dtype for individual coeffs is handled within idwt2 )
         common_dtype = np.result_type(*(
-            [dt, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
+            [output.dtype, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
@@ -775,7 +775,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                    if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [dt, ] + [_check_dtype(v) for v in details.values()]))
+            [output.dtype, ] + [_check_dtype(v) for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-- 
2.43.0


From 3ff6ca3a70b0f457c62d4b336353bee7b6da8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:31 +0000
Subject: [PATCH 32/43] fix: inverse transforms of n-D coefficients that are
 empty along the axis never returned

---
 pywt/_extensions/_dwt.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 5770702..fbe0782 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -289,6 +289,10 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     output_shape = input_shape.copy()
     output_shape[axis] = common.idwt_buffer_length(input_shape[axis],
                                                    wavelet.rec_len, mode)
+    if output_shape[axis] < 1:
+        msg = ("Invalid coefficient arrays length for specified wavelet. "
+               "Wavelet and mode must be the same as used for decomposition.")
+        raise ValueError(msg)
     output = np.empty(output_shape, output_dtype)
 
     output_info.ndim = output.ndim
-- 
2.43.0


From af3039750b742a959894b38bb3d022d052e0fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:37 +0000
Subject: [PATCH 33/43] fix: multilevel inverses trimmed mismatched
 approximations along axes that are not transformed

---
 pywt/_multilevel.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 7192f85..7afd116 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -166,7 +166,9 @@ def waverec(coeffs, wavelet, mode='symmetric', axis=-1):
         if (a is not None) and (d is not None):
             try:
                 if a.shape[axis] == d.shape[axis] + 1:
-                    a = a[tuple(slice(s) for s in d.shape)]
+                    idx = [slice(None), ] * a.ndim
+                    idx[axis] = slice(d.shape[axis])
+                    a = a[tuple(idx)]
                 elif a.shape[axis] != d.shape[axis]:
                     raise ValueError("coefficient shape mismatch")
             except IndexError:
@@ -332,8 +334,11 @@ def waverec2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
         else:
             if not all(s == d_shape for s in d_shapes):
                 raise ValueError("All detail shapes must be the same length.")
-            idxs = tuple(slice(None, -1 if a_len == d_len + 1 else None)
-                         for a_len, d_len in zip(a.shape, d_shape))
+            trans_axes = [ax + a.ndim if ax < 0 else ax for ax in axes]
+            idxs = tuple(slice(None, -1 if (a_len == d_len + 1 and
+                                            ax in trans_axes) else None)
+                         for ax, (a_len, d_len) in enumerate(
+                             zip(a.shape, d_shape)))
         a = idwt2((a[idxs], d), wavelet, mode, axes)
 
     return a
@@ -444,9 +449,9 @@ def wavedecn(data, wavelet, mode='symmetric', level=None, axes=None):
     return coeffs_list
 
 
-def _match_coeff_dims(a_coeff, d_coeff_dict):
-    # For each axis, compare the approximation coeff shape to one of the
-    # stored detail coeffs and truncate the last element along the axis
+def _match_coeff_dims(a_coeff, d_coeff_dict, axes):
+    # For each transformed axis, compare the approximation coeff shape to one
+    # of the stored detail coeffs and truncate the last element along the axis
     # if necessary.
     if a_coeff is None:
         return None
@@ -454,7 +459,9 @@ def _match_coeff_dims(a_coeff, d_coeff_dict):
         return a_coeff
     d_coeff = d_coeff_dict[next(iter(d_coeff_dict))]
     size_diffs = np.subtract(a_coeff.shape, d_coeff.shape)
-    if np.any((size_diffs < 0) | (size_diffs > 1)):
+    max_diffs = np.zeros(a_coeff.ndim, dtype=int)
+    max_diffs[list(axes)] = 1
+    if np.any((size_diffs < 0) | (size_diffs > max_diffs)):
         print(size_diffs)
         raise ValueError("incompatible coefficient array sizes")
     return a_coeff[tuple(slice(s) for s in d_coeff.shape)]
@@ -573,7 +580,7 @@ def waverecn(coeffs, wavelet, mode='symmetric', axes=None):
         # coefficient returned at the previous level may exceed the size of the
         # stored detail coefficients by 1 on any given axis.
         if idx > 0:
-            a = _match_coeff_dims(a, d)
+            a = _match_coeff_dims(a, d, axes)
         d['a' * ndim_transform] = a
         a = idwtn(d, wavelet, mode, axes)
 
-- 
2.43.0


From 5e53ee3f007d7643564e3d4703e56f147fbac01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 34/43] fix: inverse stationary transforms accepted
 coefficients whose sizes do not match

---
 pywt/_swt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 7bb189d..7e6afb9 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -231,6 +231,9 @@ def iswt(coeffs, wavelet, norm=False, axis=-1):
         else:
             _, cD = coeffs[-j]
         cD = np.asarray(cD, dtype=_check_dtype(cD))
+        if cD.shape != output.shape:
+            raise RuntimeError(
+                "Mismatch in shape of intermediate coefficient arrays")
         if cD.dtype != output.dtype:
             # upcast to a common dtype (float64 or complex128)
             if output.dtype.kind == 'c' or cD.dtype.kind == 'c':
@@ -481,8 +484,8 @@ def iswt2(coeffs, wavelet, norm=False, axes=(-2, -1)):
             (cH, cV, cD) = coeffs[j]
         else:
             _, (cH, cV, cD) = coeffs[j]
-        # We are going to assume cH, cV, and cD are of equal size
-        if (cH.shape != cV.shape) or (cH.shape != cD.shape):
+        # cH, cV, and cD must have the size of the approximation
+        if any(c.shape != output.shape for c in (cH, cV, cD)):
             raise RuntimeError(
                 "Mismatch in shape of intermediate coefficient arrays")
 
@@ -779,9 +782,9 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-        # We assume all coefficient arrays are of equal size
+        # All coefficient arrays must be of equal size
         shapes = [v.shape for k, v in details.items()]
-        if len(set(shapes)) != 1:
+        if set(shapes) != {output.shape}:
             raise RuntimeError(
                 "Mismatch in shape of intermediate coefficient arrays")
 
-- 
2.43.0


From 2eae3da7100444b943ce9d0be444d8e0a14a8810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:33 +0000
Subject: [PATCH 35/43] fix: swt returned no coefficients when the sum of the
 levels wrapped around

---
 pywt/_extensions/_swt.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_extensions/_swt.pyx b/pywt/_extensions/_swt.pyx
index ba07e4e..ccf683e 100644
--- a/pywt/_extensions/_swt.pyx
+++ b/pywt/_extensions/_swt.pyx
@@ -70,7 +70,7 @@ def swt(const cdata_t[::1] data, Wavelet wavelet, size_t level, size_t start_lev
         raise ValueError("start_level must be less than %d." %
                          common.swt_max_level(data.size))
 
-    if end_level > common.swt_max_level(data.size):
+    if level > common.swt_max_level(data.size) - start_level:
         msg = ("Level value too high (max level for current data size and "
                "start_level is %d)." % (
                 common.swt_max_level(data.size) - start_level))
@@ -181,7 +181,7 @@ cpdef swt_axis(np.ndarray data, Wavelet wavelet, size_t level,
         raise ValueError("start_level must be less than %d." %
                          common.swt_max_level(data.shape[axis]))
 
-    if end_level > common.swt_max_level(data.shape[axis]):
+    if level > common.swt_max_level(data.shape[axis]) - start_level:
         msg = ("Level value too high (max level for current data size and "
                "start_level is %d)." % (
                 common.swt_max_level(data.shape[axis]) - start_level))
-- 
2.43.0


From 291a408bfed7d518a580be2c9140bfbcdcaabbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 36/43] fix: idwtn accessed memory out of bounds when the
 coefficient names were longer than the dimensions

---
 pywt/_multidim.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index feee0d3..b6db878 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -279,11 +279,9 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
     if any(s != coeff_shape for s in coeff_shapes):
         raise ValueError("`coeffs` must all be of equal size (or None)")
 
+    ndim = len(coeff_shape)
     if axes is None:
         axes = range(ndim_transform)
-        ndim = ndim_transform
-    else:
-        ndim = len(coeff_shape)
     axes = [a + ndim if a < 0 else a for a in axes]
     if len(axes) != ndim_transform:
         raise ValueError("The coefficient names must have one character per "
-- 
2.43.0


From f2b73df874235a44023197014988978eb4dccc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 37/43] fix: cwt ignored out-of-range axes for 1-D data

---
 pywt/_cwt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_cwt.py b/pywt/_cwt.py
index 0d69095..35082f9 100644
--- a/pywt/_cwt.py
+++ b/pywt/_cwt.py
@@ -112,6 +112,8 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
 
     if not np.isscalar(axis):
         raise AxisError("axis must be a scalar.")
+    if not -data.ndim <= axis < data.ndim:
+        raise AxisError("Axis greater than data dimensions")
 
     dt_out = dt_cplx if wavelet.complex_cwt else dt
     out = np.empty((np.size(scales),) + data.shape, dtype=dt_out)
-- 
2.43.0


From 77dc31a8873ae1711c5f0f90adf3ea6bd0296c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 38/43] fix: cwt with method 'fft' accepted empty data

---
 pywt/_cwt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_cwt.py b/pywt/_cwt.py
index 35082f9..1747110 100644
--- a/pywt/_cwt.py
+++ b/pywt/_cwt.py
@@ -114,6 +114,9 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
         raise AxisError("axis must be a scalar.")
     if not -data.ndim <= axis < data.ndim:
         raise AxisError("Axis greater than data dimensions")
+    if data.shape[axis] == 0:
+        raise ValueError("Data must have non-zero size along the transform "
+                         "axis.")
 
     dt_out = dt_cplx if wavelet.complex_cwt else dt
     out = np.empty((np.size(scales),) + data.shape, dtype=dt_out)
-- 
2.43.0


From 77f1614a97b8a7fcfcacf1c414693a1420a99f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:03 +0000
Subject: [PATCH 39/43] cwt: keep ignoring axis for 1-D data (existing tests
 rely on it) and test emptiness after reordering the axes

---
 pywt/_cwt.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pywt/_cwt.py b/pywt/_cwt.py
index 1747110..1849302 100644
--- a/pywt/_cwt.py
+++ b/pywt/_cwt.py
@@ -112,11 +112,6 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
 
     if not np.isscalar(axis):
         raise AxisError("axis must be a scalar.")
-    if not -data.ndim <= axis < data.ndim:
-        raise AxisError("Axis greater than data dimensions")
-    if data.shape[axis] == 0:
-        raise ValueError("Data must have non-zero size along the transform "
-                         "axis.")
 
     dt_out = dt_cplx if wavelet.complex_cwt else dt
     out = np.empty((np.size(scales),) + data.shape, dtype=dt_out)
@@ -143,6 +138,9 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
         data_shape_pre = data.shape
         data = data.reshape((-1, data.shape[-1]))
 
+    if data.shape[-1] == 0:
+        raise ValueError("Data must have non-zero size.")
+
     for i, scale in enumerate(scales):
         step = x[1] - x[0]
         j = np.arange(scale * (x[-1] - x[0]) + 1) / (scale * step)
-- 
2.43.0


From 5ed8ea805f92be85cf00034e8d49241d9a1ec0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:04 +0000
Subject: [PATCH 40/43] fix: coeffs_to_array accepted repeated axes when
 packing

---
 pywt/_multilevel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 7afd116..f6287e0 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -676,6 +676,8 @@ def _prepare_coeffs_axes(coeffs, axes):
         raise ValueError(
             "The length of axes doesn't match the number of dimensions "
             "transformed.")
+    if len(axes) != len({a + ndim if a < 0 else a for a in axes}):
+        raise ValueError("The axes passed must be unique.")
 
     return coeffs, axes, ndim, ndim_transform
 
-- 
2.43.0


From 0b4b13f0e3d6b645aa4cfb26baad2451c92d441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:44 +0000
Subject: [PATCH 41/43] fix: pickling or copying a Wavelet lost its properties

A built-in wavelet came back as a custom filter bank: not orthogonal, without
family, symmetry, family number and vanishing moments, so that wavefun returned five
arrays instead of three and normalised stationary transforms warned.  The
user-settable attributes of custom wavelets were lost as well.
---
 pywt/_extensions/_pywt.pyx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 92f58aa..1f63bc3 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -431,7 +431,15 @@ cdef public class Wavelet [type WaveletType, object WaveletObject]:
             self.w = NULL
 
     def __reduce__(self):
-        return (Wavelet, (self.name, self.filter_bank))
+        # built-in wavelets are identified by name alone
+        if self.number is None:
+            args = (self.name, self.filter_bank)
+        else:
+            args = (self.name, )
+        return (Wavelet, args, (self.orthogonal, self.biorthogonal))
+
+    def __setstate__(self, state):
+        self.orthogonal, self.biorthogonal = state
 
     def __len__(self):
         return self.w.dec_len
-- 
2.43.0


From dfb36c4f405e8395748c244e5f32b6a3d57f52e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:44 +0000
Subject: [PATCH 42/43] fix: pickling or copying a ContinuousWavelet lost
 user-set attributes

Bounds, bandwidth and center frequency and spline order set on the object
were reset to the values of the name.
---
 pywt/_extensions/_pywt.pyx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 1f63bc3..4b0075f 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -786,7 +786,17 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
             self.w = NULL
 
     def __reduce__(self):
-        return (ContinuousWavelet, (self.name, self.dt))
+        return (ContinuousWavelet, (self.name, self.dt),
+                (self.orthogonal, self.biorthogonal, self.complex_cwt,
+                 self.w.lower_bound, self.w.upper_bound,
+                 self.w.center_frequency, self.w.bandwidth_frequency,
+                 self.w.fbsp_order))
+
+    def __setstate__(self, state):
+        (self.orthogonal, self.biorthogonal, self.complex_cwt,
+         self.lower_bound, self.upper_bound,
+         self.center_frequency, self.bandwidth_frequency,
+         self.fbsp_order) = state
 
     property family_number:
         "Wavelet family number"
-- 
2.43.0


From a8f5de5b66b7053225a5a1360861837aaab0a41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:44 +0000
Subject: [PATCH 43/43] fix: pickling or copying a packet tree lost its nodes
 and axes

WaveletPacket and WaveletPacket2D were rebuilt from the root data alone with
the default axes: assigned or deleted nodes, trees built from nodes only and
the axes were lost.  WaveletPacketND was not affected.
---
 pywt/_wavelet_packets.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 39a7c92..eb3829b 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -740,10 +740,6 @@ class WaveletPacket(Node):
 
         self._maxlevel = maxlevel
 
-    def __reduce__(self):
-        return (WaveletPacket,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
-
     def reconstruct(self, update=True):
         """
         Reconstruct data value using coefficients from subnodes.
@@ -868,10 +864,6 @@ class WaveletPacket2D(Node2D):
             self.data_size = None
         self._maxlevel = maxlevel
 
-    def __reduce__(self):
-        return (WaveletPacket2D,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
-
     def reconstruct(self, update=True):
         """
         Reconstruct data using coefficients from subnodes.
-- 
2.43.0

