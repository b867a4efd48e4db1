From 2e61bcee50749c1f14f47c6c2ab199b6935b12d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:42 +0000
Subject: [PATCH 01/25] fix: unwarp lines given as integer or single-precision
 coordinates

The output buffer took the dtype of the input line, truncating results for
integer coordinates, and single-precision radii made the numerical inversion
of the backward model stop at its starting point, returning the line as is.
---
 discorpy/post/postprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index e86f39a..d12f9ce 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -52,6 +52,7 @@ def unwarp_line_forward(list_lines, xcenter, ycenter, list_fact):
     list_ulines = []
     list_expo = np.arange(len(list_fact), dtype=np.int16)
     for _, line in enumerate(list_lines):
+        line = np.asarray(line, dtype=np.float64)
         uline = np.zeros_like(line)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
@@ -89,6 +90,7 @@ def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
     """
     list_ulines = []
     for _, line in enumerate(list_lines):
+        line = np.asarray(line, dtype=np.float64)
         uline = np.zeros_like(line)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
-- 
2.43.0


From 00f43bfa5c0089c1fdb3d24a0bed803f8eaf8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:42 +0000
Subject: [PATCH 02/25] fix: int16 overflow of row/column indices above 32767

---
 discorpy/post/postprocessing.py | 10 +++++-----
 discorpy/prep/linepattern.py    |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index d12f9ce..f2f0166 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -220,8 +220,8 @@ def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
     yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_min = int(np.floor(np.amin(yd_list)))
+    yd_max = int(np.ceil(np.amax(yd_list))) + 1
     yd_list = yd_list - yd_min
     sino = np.zeros((depth, width), dtype=np.float32)
     indices = yd_list, xd_list
@@ -283,7 +283,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     if (len(mat3D.shape) < 3):
         raise ValueError("Input must be a 3D data")
     (depth, height, width) = mat3D.shape
-    index_list = np.arange(height, dtype=np.int16)
+    index_list = np.arange(height)
     if stop_index == -1:
         stop_index = height
     if (start_index not in index_list) or (stop_index not in index_list):
@@ -299,8 +299,8 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     flist = np.sum(np.asarray(
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2))) + 1
+    yd_min = int(np.floor(np.amin(yd_list1)))
+    yd_max = int(np.ceil(np.amax(yd_list2))) + 1
     yu_list = np.arange(start_index, stop_index + 1) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 18636f7..68288d7 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -548,8 +548,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         ylist = rlist * np.sin(-angle)
         xlist = np.clip(xlist, 0, width - 1)
         ylist = np.clip(index + ylist, 0, height - 1)
-        ymin = np.int16(np.floor(np.amin(ylist)))
-        ymax = np.int16(np.ceil(np.amax(ylist))) + 1
+        ymin = int(np.floor(np.amin(ylist)))
+        ymax = int(np.ceil(np.amax(ylist))) + 1
         indices = ylist - ymin, xlist
         profile = ndi.map_coordinates(mat[ymin:ymax, :], indices, order=3,
                                       mode='nearest')
@@ -559,8 +559,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         xlist = rlist * np.sin(angle)
         xlist = np.clip(index + xlist, 0, width - 1)
         ylist = np.clip(ylist, 0, height - 1)
-        xmin = np.int16(np.floor(np.amin(xlist)))
-        xmax = np.int16(np.ceil(np.amax(xlist))) + 1
+        xmin = int(np.floor(np.amin(xlist)))
+        xmax = int(np.ceil(np.amax(xlist))) + 1
         indices = ylist, xlist - xmin
         profile = ndi.map_coordinates(mat[:, xmin:xmax], indices, order=3,
                                       mode='nearest')
-- 
2.43.0


From 5f7e35732088899d35efd786c7323592392a870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:42 +0000
Subject: [PATCH 03/25] fix: stop_index=-1 of unwarp_chunk_slices_backward
 always raised

The last slice is inclusive, so '-1' has to stand for height - 1.
---
 discorpy/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index f2f0166..57d1efa 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -285,7 +285,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     (depth, height, width) = mat3D.shape
     index_list = np.arange(height)
     if stop_index == -1:
-        stop_index = height
+        stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
         raise ValueError("Selected index is out of the range")
     xu_list = np.arange(0, width) - xcenter
-- 
2.43.0


From 184ea21c1ab2507c7917a9c5ec8c5b85560a0299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:42 +0000
Subject: [PATCH 04/25] fix: optimizing=True had no effect on the distortion
 coefficients

The starting value was single precision, for which the finite-difference
step of the optimizer vanishes: it stopped with NaN at the first step.
---
 discorpy/proc/processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 79aaaec..fa5e196 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -342,7 +342,8 @@ def _optimize_intercept(dist_hv, pos_hv, list_inter):
     """
     list_arg = [list_inter[pos_hv], pos_hv]
     list_arg.extend(list_inter)
-    minimum = optimize.minimize(_func_opt, dist_hv, args=tuple(list_arg))
+    minimum = optimize.minimize(_func_opt, np.float64(dist_hv),
+                                args=tuple(list_arg))
     return minimum.x[0]
 
 
-- 
2.43.0


From 48acaca454466917cdf78bbf0c12c6554e6b538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:23 +0000
Subject: [PATCH 05/25] fix: grid line through the centre of distortion ruined
 the coefficients

The ratio between the distorted and undistorted intercepts of a line is
undefined at the centre and dominated by noise next to it: the backward
model raised LinAlgError or returned meaningless coefficients, the forward
model was guarded against exact zero only.
---
 discorpy/proc/processing.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index fa5e196..10218f0 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -453,23 +453,27 @@ def calc_coef_backward(list_hor_lines, list_ver_lines, xcenter, ycenter,
     for i, line in enumerate(list_hor_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_hor[i])
         uc_coef = np.float64(list_hor_uc[i])
-        for _, point in enumerate(line):
-            xd = np.float64(point[1])
-            yd = np.float64(point[0])
-            rd = np.sqrt(xd * xd + yd * yd)
-            Fb = (a_coef * xd * xd + c_coef) / uc_coef
-            Amatrix.append(np.power(rd / Fb, list_expo))
-            Bmatrix.append(Fb)
+        if np.abs(uc_coef) >= 1.0:  # Ratio is ill-conditioned otherwise
+            for _, point in enumerate(line):
+                xd = np.float64(point[1])
+                yd = np.float64(point[0])
+                rd = np.sqrt(xd * xd + yd * yd)
+                Fb = (a_coef * xd * xd + c_coef) / uc_coef
+                if Fb != 0.0:
+                    Amatrix.append(np.power(rd / Fb, list_expo))
+                    Bmatrix.append(Fb)
     for i, line in enumerate(list_ver_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_ver[i])
         uc_coef = np.float64(list_ver_uc[i])
-        for _, point in enumerate(line):
-            xd = np.float64(point[1])
-            yd = np.float64(point[0])
-            rd = np.sqrt(xd * xd + yd * yd)
-            Fb = (a_coef * yd * yd + c_coef) / uc_coef
-            Amatrix.append(np.power(rd / Fb, list_expo))
-            Bmatrix.append(Fb)
+        if np.abs(uc_coef) >= 1.0:  # Ratio is ill-conditioned otherwise
+            for _, point in enumerate(line):
+                xd = np.float64(point[1])
+                yd = np.float64(point[0])
+                rd = np.sqrt(xd * xd + yd * yd)
+                Fb = (a_coef * yd * yd + c_coef) / uc_coef
+                if Fb != 0.0:
+                    Amatrix.append(np.power(rd / Fb, list_expo))
+                    Bmatrix.append(Fb)
     Amatrix = np.asarray(Amatrix, dtype=np.float64)
     Bmatrix = np.asarray(Bmatrix, dtype=np.float64)
     list_fact = np.linalg.lstsq(Amatrix, Bmatrix, rcond=1e-64)[0]
@@ -517,7 +521,7 @@ def calc_coef_forward(list_hor_lines, list_ver_lines, xcenter, ycenter,
     for i, line in enumerate(list_hor_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_hor[i])
         uc_coef = np.float64(list_hor_uc[i])
-        if uc_coef != 0.0:
+        if np.abs(uc_coef) >= 1.0:  # Ratio is ill-conditioned otherwise
             for _, point in enumerate(line):
                 xd = np.float64(point[1])
                 yd = np.float64(point[0])
@@ -529,7 +533,7 @@ def calc_coef_forward(list_hor_lines, list_ver_lines, xcenter, ycenter,
     for i, line in enumerate(list_ver_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_ver[i])
         uc_coef = np.float64(list_ver_uc[i])
-        if uc_coef != 0.0:
+        if np.abs(uc_coef) >= 1.0:  # Ratio is ill-conditioned otherwise
             for _, point in enumerate(line):
                 xd = np.float64(point[1])
                 yd = np.float64(point[0])
-- 
2.43.0


From 4b1086835ae024535c08426a96d7e190e643c2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:23 +0000
Subject: [PATCH 06/25] fix: correct_perspective_effect never raised its
 ValueErrors

np.where returns a tuple, so the test for missing upward/downward/leftward/
rightward curves was always true and the method failed later with NaNs.
---
 discorpy/proc/processing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 10218f0..2546feb 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -1381,25 +1381,25 @@ def correct_perspective_effect(list_hor_lines, list_ver_lines, xcenter,
     if len(list_coef_ver) < 2:
         raise ValueError("Need at least 2 vertical lines!!!")
     indices = np.where(list_coef_hor[:, 0] > 0)
-    if len(indices) > 0:
+    if len(indices[0]) > 0:
         bh1, ch1 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open upwards !!!")
     indices = np.where(list_coef_hor[:, 0] < 0)
-    if len(indices) > 0:
+    if len(indices[0]) > 0:
         bh2, ch2 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open downwards !!!")
     indices = np.where(list_coef_ver[:, 0] > 0)
-    if len(indices) > 0:
+    if len(indices[0]) > 0:
         bv1, cv1 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open rightwards !!!")
     indices = np.where(list_coef_ver[:, 0] < 0)
-    if len(indices) > 0:
+    if len(indices[0]) > 0:
         bv2, cv2 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
     else:
-- 
2.43.0


From b55bbb62e977641222cb49de9529fbc4712841d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:07 +0000
Subject: [PATCH 07/25] fix: background normalization returned NaN/Inf at zero
 background

Numpy does not raise ZeroDivisionError, so the fallback was dead code.
---
 discorpy/prep/preprocessing.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 5587641..b0f0f28 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -65,11 +65,9 @@ def normalization(mat, size=51):
     """
     mat_bck = ndi.median_filter(mat, size, mode="reflect")
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    check = mat_bck != 0.0
+    mat_cor = np.where(check, mean_val * mat / np.where(check, mat_bck, 1),
+                       mat)
     return mat_cor
 
 
@@ -150,11 +148,9 @@ def normalization_fft(mat, sigma=10, pad=100, mode='reflect'):
     """
     mat_bck = _apply_fft_filter(mat, sigma, pad, mode=mode)
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    check = mat_bck != 0.0
+    mat_cor = np.where(check, mean_val * mat / np.where(check, mat_bck, 1),
+                       mat)
     return mat_cor
 
 
-- 
2.43.0


From bc1b4b7d0be334f1985c51f267ac4b89532156ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:07 +0000
Subject: [PATCH 08/25] fix: IndexError for points outside the frame of a
 parabola mask

The mask was indexed before the bounds of the points were checked.
---
 discorpy/prep/preprocessing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index b0f0f28..a2510f1 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -954,8 +954,9 @@ def remove_points_using_parabola_mask(points, height, width, hor_curviness=0.3,
                               rotate=rotate)
     y_cors, x_cors = np.int32(points[:, 0]), np.int32(points[:, 1])
     valid_indices = ((y_cors >= 0) & (y_cors < height) &
-                     (x_cors >= 0) & (x_cors < width) &
-                     (mask[y_cors, x_cors] == 1.0))
+                     (x_cors >= 0) & (x_cors < width))
+    valid_indices[valid_indices] = mask[y_cors[valid_indices],
+                                        x_cors[valid_indices]] == 1.0
     return points[valid_indices]
 
 
-- 
2.43.0


From 48efd98eb8f5219076f059297885cf679c3bd1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:22 +0000
Subject: [PATCH 09/25] fix: polyfit grouping reused the previous line for
 groups of two dots

A group of fewer than three dots was replaced by whatever the previous
iteration left behind: the whole unsorted middle band, or the previous line
rotated once more.
---
 discorpy/prep/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index a2510f1..6d04635 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -1194,8 +1194,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
         if len(grouped_points) > 0:
             residual = ratio * line_dist
             for current_points in grouped_points:
+                selected_points = current_points
                 if len(current_points) > 2:
-                    selected_points = current_points
                     x_left = selected_points[0, 1]
                     x_right = selected_points[-1, 1]
                     selected_points = _get_nearby_hor_points_iter(
@@ -1373,8 +1373,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
         if len(grouped_points) > 0:
             residual = ratio * line_dist
             for current_points in grouped_points:
+                selected_points = current_points
                 if len(current_points) > 2:
-                    selected_points = current_points
                     y_left = selected_points[0, 0]
                     y_right = selected_points[-1, 0]
                     selected_points = _get_nearby_ver_points_iter(
-- 
2.43.0


From 3e439bada6521b54d52370a73d7ed668fc636154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:24 +0000
Subject: [PATCH 10/25] fix: select_dots_based_distance rejected dots slightly
 closer than dot_dist

The error was measured from the multiple of dot_dist below the distance, so
a distance of 0.99*dot_dist counted as an error of 99%.
---
 discorpy/prep/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 6d04635..7d99eeb 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -446,8 +446,8 @@ def select_dots_based_distance(mat, dot_dist, ratio=0.3):
     mat1 = np.zeros_like(mat)
     for i, j in enumerate(list_dots):
         dist = list_dist[i]
-        num = dist // dot_dist
-        dist_error = (dist - num * dot_dist) / dot_dist
+        num = np.round(dist / dot_dist)
+        dist_error = np.abs(dist - num * dot_dist) / dot_dist
         if any(dist_error < ratio):
             mat1[j] = mat[j]
     return mat1
-- 
2.43.0


From b57f19d7387a0cdc6c50607de8144cc7c136ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:24 +0000
Subject: [PATCH 11/25] fix: sliding_window_slope truncated slopes of integer
 data

---
 discorpy/prep/linepattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 68288d7..cdff468 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -180,7 +180,7 @@ def sliding_window_slope(list_data, size=3, norm=True):
     radius = size // 2
     padded_data = np.pad(list_data, (radius, radius), 'edge')
     x_list = np.arange(size)
-    slopes = np.zeros_like(list_data)
+    slopes = np.zeros(npoint)
     for i in range(len(list_data)):
         local_data = padded_data[i:i + size]
         slopes[i] = np.polyfit(x_list, local_data, 1)[0]
-- 
2.43.0


From 66d856b23a924638333be930eeca537510b4b3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:46 +0000
Subject: [PATCH 12/25] fix: overflow when rescaling an image to 8 bits

The subtraction was done in the dtype of the image: wrong grey levels for
signed integers, float16 overflow, TypeError for booleans.
---
 discorpy/losa/loadersaver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 21c70a5..5289a8b 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -430,9 +430,10 @@ def save_image(file_path, mat, overwrite=True):
     file_ext = file_path.suffix
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
-            nmin, nmax = np.min(mat), np.max(mat)
+            nmin, nmax = float(np.min(mat)), float(np.max(mat))
             if nmax != nmin:
-                mat = np.uint8(255.0 * (mat - nmin) / (nmax - nmin))
+                mat = np.uint8(255.0 * (np.float64(mat) - nmin)
+                               / (nmax - nmin))
             else:
                 mat = np.uint8(mat)
     else:
-- 
2.43.0


From b2944f8fba200e85467d18a86d9ab2cc4d872420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:46 +0000
Subject: [PATCH 13/25] fix: save_image reduced .TIF/.TIFF (upper case) images
 to 8 bits

---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 5289a8b..b106548 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -427,7 +427,7 @@ def save_image(file_path, mat, overwrite=True):
         Updated file path.
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
-    file_ext = file_path.suffix
+    file_ext = file_path.suffix.lower()
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
             nmin, nmax = float(np.min(mat)), float(np.max(mat))
-- 
2.43.0


From 49896cb4e97cf13ffe8cefee4d6dfa7d4eb46e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:03 +0000
Subject: [PATCH 14/25] fix: load_hdf_file dropped or transposed axes for
 single-slice selections

A one-element selection along the last axis raised IndexError (or came back
transposed), an integer index on a dataset having another axis of size one
lost that axis, and numpy integers were not accepted as an index.
---
 discorpy/losa/loadersaver.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index b106548..5c2d354 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -290,7 +290,7 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
         if index is None:
             mat = np.float32(idata[:, :, :])
         else:
-            if isinstance(index, int):
+            if isinstance(index, (int, np.integer)):
                 try:
                     if axis == 0:
                         mat = np.float32(idata[index, :, :])
@@ -298,7 +298,6 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, index, :])
                     else:
                         mat = np.float32(idata[:, :, index])
-                    axis = np.clip(axis, 0, 1)
                 except IndexError:
                     raise
             if isinstance(index, tuple) or isinstance(index, list):
@@ -322,10 +321,10 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, :, list_index])
                 except IndexError:
                     raise
-            if mat.shape[axis] == 1:
-                mat = np.swapaxes(mat, axis, 0)[0]
-            if mat.shape[axis] == 0:
-                raise ValueError("Empty indices!")
+                if mat.shape[axis] == 0:
+                    raise ValueError("Empty indices!")
+                if mat.shape[axis] == 1:
+                    mat = np.take(mat, 0, axis=axis)
     return mat
 
 
-- 
2.43.0


From 7d09b0746b4a5b3e7f5b69371875a3cd8796ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:18 +0000
Subject: [PATCH 15/25] fix: plot savers leaked global matplotlib state

save_residual_plot replaced the user's rcParams by the defaults, and a figure
stayed open whenever writing it failed.
---
 discorpy/losa/loadersaver.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 5c2d354..6660e05 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -493,7 +493,8 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
         plt.savefig(file_path, dpi=dpi)
     except Exception as error:
         raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    plt.close()
+    finally:
+        plt.close(fig)
     return file_path
 
 
@@ -553,6 +554,7 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     fig = plt.figure(frameon=False)
     fig.set_size_inches(width / dpi, height / dpi)
     m_size = 0.5 * min(height / dpi, width / dpi)
+    rc_params = plt.rcParams.copy()
     plt.rc('font', size=np.int16(m_size * 4))
     if __check_font(font_family):
         plt.rcParams['font.family'] = font_family
@@ -564,8 +566,9 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
         plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
     except Exception as error:
         raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    plt.close()
-    plt.rcParams.update(plt.rcParamsDefault)
+    finally:
+        plt.close(fig)
+        plt.rcParams.update(rc_params)
     return file_path
 
 
@@ -706,7 +709,8 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
         plt.savefig(file_path, dpi=dpi)
     except IOError:
         raise ValueError("Couldn't write to file {}".format(file_path))
-    plt.close()
+    finally:
+        plt.close(fig)
     return file_path
 
 
-- 
2.43.0


From 8cb56043583c88aec75eadfbb772789f5a98d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:38 +0000
Subject: [PATCH 16/25] fix: plots saved without an extension clobbered each
 other

Matplotlib appended .png behind the back of the overwrite protection: a
folder was made under the given name, the returned path was that folder, and
with overwrite=False a third plot silently replaced the second.
---
 discorpy/losa/loadersaver.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 6660e05..0ea8bb4 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -476,7 +476,10 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = __get_path(file_path, check_exist=False)
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
+    file_path = str(file_path)
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
@@ -547,7 +550,10 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = __get_path(file_path, check_exist=False)
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
+    file_path = str(file_path)
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
@@ -692,6 +698,8 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
         Updated file path.
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
     _create_folder(str(file_path))
     if not overwrite:
         file_path = _create_file_name(str(file_path))
-- 
2.43.0


From 6d22e5ac7b483193dfec82774d1887166eab8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:17 +0000
Subject: [PATCH 17/25] fix: find_cod_fine was ill-conditioned for grids
 aligned with the axes

The nearest points of the horizontal lines spread along y (those of the
vertical lines along x), so y was regressed on an almost constant x: for an
unrotated grid the metric was noise and the search ended up to tens of pixels
away from the coarse estimate. Regress on the coordinate that varies.
---
 discorpy/proc/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 2546feb..13a4d42 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -186,8 +186,8 @@ def _calc_error(list_coef_hor, list_coef_ver):
         xm = coefs[0] * ym ** 2 + coefs[1] * ym + coefs[2]
         list_vpoint[i, 0] = ym
         list_vpoint[i, 1] = xm
-    error_h = np.polyfit(list_hpoint[:, 0], list_hpoint[:, 1], 1)[-1]
-    error_v = np.polyfit(list_vpoint[:, 0], list_vpoint[:, 1], 1)[-1]
+    error_h = np.polyfit(list_hpoint[:, 1], list_hpoint[:, 0], 1)[-1]
+    error_v = np.polyfit(list_vpoint[:, 1], list_vpoint[:, 0], 1)[-1]
     return np.abs(error_h) + np.abs(error_v)
 
 
-- 
2.43.0


From f3267a76cb99612976343573d3aa26ddd67e0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:36 +0000
Subject: [PATCH 18/25] fix: integer overflow in calc_perspective_coefficients

Products of coordinates were formed in the dtype of the points: 16-bit or
unsigned pixel coordinates silently gave wrong coefficients.
---
 discorpy/proc/processing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 13a4d42..6e1b45d 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -1257,11 +1257,11 @@ def calc_perspective_coefficients(source_points, target_points,
 
     """
     if mapping == "forward":
-        s_points = np.fliplr(np.asarray(source_points))
-        t_points = np.fliplr(np.asarray(target_points))
+        s_points = np.fliplr(np.asarray(source_points, dtype=np.float64))
+        t_points = np.fliplr(np.asarray(target_points, dtype=np.float64))
     else:
-        s_points = np.fliplr(np.asarray(target_points))
-        t_points = np.fliplr(np.asarray(source_points))
+        s_points = np.fliplr(np.asarray(target_points, dtype=np.float64))
+        t_points = np.fliplr(np.asarray(source_points, dtype=np.float64))
     Amatrix = []
     for p1, p2 in zip(s_points, t_points):
         Amatrix.append(
-- 
2.43.0


From 56045817443106f58f28805a568fbf9975a0a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:05 +0000
Subject: [PATCH 19/25] fix: normalization_fft wrapped the image with a sign
 flip for odd sizes

Multiplying by (-1)^(x+y) centres the spectrum only when the padded height
and width are even; for odd sizes the background near the borders was wrong
by up to tens of percent. Shift the window instead.
---
 discorpy/prep/preprocessing.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 7d99eeb..f5fc503 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -38,7 +38,7 @@ Module of pre-processing methods:
 
 import numpy as np
 from scipy import ndimage as ndi
-from scipy.fftpack import fft2, ifft2
+from scipy.fftpack import fft2, ifft2, ifftshift
 from scipy.ndimage.measurements import center_of_mass
 from skimage.filters import threshold_otsu
 from skimage.segmentation import clear_border
@@ -118,11 +118,7 @@ def _apply_fft_filter(mat, sigma, pad, mode='reflect'):
     mat = np.pad(mat, ((pad, pad), (pad, pad)), mode=mode)
     (height, width) = mat.shape
     window = _make_window(height, width, sigma)
-    xlist = np.arange(0, width)
-    ylist = np.arange(0, height)
-    x, y = np.meshgrid(xlist, ylist)
-    matsign = np.power(-1.0, x + y)
-    mat = np.real(ifft2(fft2(mat * matsign) * window) * matsign)
+    mat = np.real(ifft2(fft2(mat) * ifftshift(window)))
     return mat[pad:height - pad, pad:width - pad]
 
 
-- 
2.43.0


From 96f21cadfd7bc6e423d418541ad1f54dc48277b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:23 +0000
Subject: [PATCH 20/25] fix: dot filters mixed up dots whose bounding boxes
 overlap

The size, axes ratio and pixels of a dot were taken from its bounding box,
including pixels of any other object reaching into that box (a scratch or a
hair close to a dot): dots were wrongly rejected and fragments of rejected
objects were kept. Use the pixels of the dot only.
---
 discorpy/prep/preprocessing.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index f5fc503..8bc2975 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -344,11 +344,11 @@ def select_dots_based_size(mat, dot_size, ratio=0.3):
     max_size = dot_size + ratio * dot_size
     mat_label, _ = ndi.label(np.int16(mat))
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if _check_dot_size(mat[dot], min_size, max_size)]
     mat1 = np.zeros_like(mat, dtype=np.int16)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, j in enumerate(list_dots):
+        dot = mat[j] * (mat_label[j] == i + 1)  # Exclude nearby dots
+        if _check_dot_size(dot, min_size, max_size):
+            mat1[j] = mat1[j] + dot
     return mat1
 
 
@@ -403,11 +403,11 @@ def select_dots_based_ratio(mat, ratio=0.3):
     mat = np.int16(mat)
     mat_label, _ = ndi.label(mat)
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if _check_axes_ratio(mat[dot], ratio)]
     mat1 = np.zeros_like(mat)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, j in enumerate(list_dots):
+        dot = mat[j] * (mat_label[j] == i + 1)  # Exclude nearby dots
+        if _check_axes_ratio(dot, ratio):
+            mat1[j] = mat1[j] + dot
     return mat1
 
 
@@ -445,7 +445,7 @@ def select_dots_based_distance(mat, dot_dist, ratio=0.3):
         num = np.round(dist / dot_dist)
         dist_error = np.abs(dist - num * dot_dist) / dot_dist
         if any(dist_error < ratio):
-            mat1[j] = mat[j]
+            mat1[j] = mat1[j] + mat[j] * (mat_label[j] == i + 1)
     return mat1
 
 
-- 
2.43.0


From 6f2e9a81b454a47997503216b2b1b86e82d27bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:51 +0000
Subject: [PATCH 21/25] fix: grouping of dots dropped lines at exactly the
 accepted ratio

accepted_ratio is documented as 'equal to or larger than', but lines needed
strictly more dots than int(accepted_ratio * maximum): accepted_ratio=1.0
returned nothing.
---
 discorpy/prep/preprocessing.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 8bc2975..25a099f 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -653,8 +653,8 @@ def group_dots_hor_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
         if len(dots_selected) > 1:
             list_lines.append(dots_selected)
     list_len = [len(i) for i in list_lines]
-    len_accepted = int(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 0]))
     return lines_selected
@@ -725,8 +725,8 @@ def group_dots_ver_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
             dots_selected = np.fliplr(dots_selected)  # Swap back
             list_lines.append(dots_selected)
     list_length = [len(i) for i in list_lines]
-    len_accepted = int(accepted_ratio * np.max(list_length))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_length)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 1]))
     return lines_selected
@@ -1205,8 +1205,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points[:, 1].argsort()]
                     list_lines.append(selected_points)
     list_len = [len(i) for i in list_lines]
-    len_accepted = np.int16(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     y_vals = [np.median(line[:, 0]) for line in lines_selected]
     ids = np.where(np.abs(np.diff(y_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
@@ -1383,8 +1383,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points[:, 0].argsort()]
                     list_lines.append(selected_points)
     list_len = [len(i) for i in list_lines]
-    len_accepted = np.int16(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     x_vals = [np.median(line[:, 1]) for line in lines_selected]
     ids = np.where( np.abs(np.diff(x_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
-- 
2.43.0


From ae069713815603631731c5dbc46d93af35ed60c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:07 +0000
Subject: [PATCH 22/25] fix: polyfit grouping dropped lines of tilted grids as
 duplicates

Duplicated lines were detected from the median coordinate in the tilted
frame, where neighbouring lines with different missing dots can coincide.
---
 discorpy/prep/preprocessing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 25a099f..77c287f 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -1207,7 +1207,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     list_len = [len(i) for i in list_lines]
     len_accepted = accepted_ratio * np.max(list_len)
     lines_selected = [line for line in list_lines if len(line) >= len_accepted]
-    y_vals = [np.median(line[:, 0]) for line in lines_selected]
+    y_vals = [np.median(line[:, 0] - slope * line[:, 1])
+              for line in lines_selected]
     ids = np.where(np.abs(np.diff(y_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
         ids = np.insert(ids + 1, 0, 0)
@@ -1385,7 +1386,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     list_len = [len(i) for i in list_lines]
     len_accepted = accepted_ratio * np.max(list_len)
     lines_selected = [line for line in list_lines if len(line) >= len_accepted]
-    x_vals = [np.median(line[:, 1]) for line in lines_selected]
+    x_vals = [np.median(line[:, 1] - slope * line[:, 0])
+              for line in lines_selected]
     ids = np.where( np.abs(np.diff(x_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
         ids = np.insert(ids + 1, 0, 0)
-- 
2.43.0


From a549d50d37a786709019c89f25242fe52b3d9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:24 +0000
Subject: [PATCH 23/25] fix: cross points were up to a pixel off at the far end
 of a profile

The scale from samples to pixels was taken from the last sample of the
profile, which is clipped to the frame, so that the error of the positions
grew linearly along the profile.
---
 discorpy/prep/linepattern.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index cdff468..7cad3c5 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -665,8 +665,8 @@ def get_cross_points_hor_lines(mat, slope_ver, dist_ver, ratio=0.3, norm=True,
     for i in np.arange(min_row + offset, max_row - offset, ratio * dist_ver):
         xlist, ylist, profile = get_tilted_profile(mat, i, np.rad2deg(angle),
                                                    direction="vertical")
-        scale = np.sqrt((xlist[-1] - xlist[0]) ** 2
-                        + (ylist[-1] - ylist[0]) ** 2) / (height - 1)
+        scale = np.sqrt((xlist[1] - xlist[0]) ** 2
+                        + (ylist[1] - ylist[0]) ** 2)
         if chessboard is True:
             profile = sliding_window_slope(profile, size=3)
         rlist = get_local_extrema_points(profile, option="max", radius=radius,
@@ -745,8 +745,8 @@ def get_cross_points_ver_lines(mat, slope_hor, dist_hor, ratio=0.3, norm=True,
     for i in np.arange(min_col + offset, max_col - offset, ratio * dist_hor):
         xlist, ylist, profile = get_tilted_profile(mat, i, -np.rad2deg(angle),
                                                    direction="horizontal")
-        scale = np.sqrt((xlist[-1] - xlist[0]) ** 2
-                        + (ylist[-1] - ylist[0]) ** 2) / (width - 1)
+        scale = np.sqrt((xlist[1] - xlist[0]) ** 2
+                        + (ylist[1] - ylist[0]) ** 2)
         if chessboard is True:
             profile = sliding_window_slope(profile, size=3)
         rlist = get_local_extrema_points(profile, option="max", radius=radius,
-- 
2.43.0


From 250a318e5114f1864fbce08bc5186389b4d324c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:41 +0000
Subject: [PATCH 24/25] fix: return a single dot line only once from the
 polyfit-based grouping

---
 discorpy/prep/preprocessing.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 77c287f..6b94a2a 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -1210,11 +1210,9 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     y_vals = [np.median(line[:, 0] - slope * line[:, 1])
               for line in lines_selected]
     ids = np.where(np.abs(np.diff(y_vals)) > 0.1 * line_dist)[0]
-    if len(ids) > 0:
-        ids = np.insert(ids + 1, 0, 0)
-        lines_tmp = [line for idx, line in enumerate(lines_selected) if
-                     idx in ids]
-        lines_selected = lines_tmp
+    ids = np.insert(ids + 1, 0, 0)
+    lines_selected = [line for idx, line in enumerate(lines_selected) if
+                      idx in ids]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 0]))
     return lines_selected
@@ -1389,11 +1387,9 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     x_vals = [np.median(line[:, 1] - slope * line[:, 0])
               for line in lines_selected]
     ids = np.where( np.abs(np.diff(x_vals)) > 0.1 * line_dist)[0]
-    if len(ids) > 0:
-        ids = np.insert(ids + 1, 0, 0)
-        lines_tmp = [line for idx, line in enumerate(lines_selected) if
-                     idx in ids]
-        lines_selected = lines_tmp
+    ids = np.insert(ids + 1, 0, 0)
+    lines_selected = [line for idx, line in enumerate(lines_selected) if
+                      idx in ids]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 1]))
     return lines_selected
-- 
2.43.0


From f600b835daabe674a70e95907540cfcd110d86df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:30 +0000
Subject: [PATCH 25/25] fix: plot savers leaked figures and settings when
 drawing fails

---
 discorpy/losa/loadersaver.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 0ea8bb4..c1c71ed 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -32,6 +32,7 @@ Module for I/O tasks:
 
 """
 
+import functools
 import json
 import pickle
 import platform
@@ -450,6 +451,30 @@ def save_image(file_path, mat, overwrite=True):
     return file_path
 
 
+def _restore_on_failure(plot_func):
+    """
+    Decorator for functions using pyplot. Closes the figures left open and
+    restores the Matplotlib settings if the function fails, e.g. due to an
+    invalid color or data with a wrong shape.
+    """
+
+    @functools.wraps(plot_func)
+    def wrapper(*args, **kwargs):
+        rc_params = plt.rcParams.copy()
+        fig_nums = plt.get_fignums()
+        try:
+            return plot_func(*args, **kwargs)
+        except Exception:
+            for num in plt.get_fignums():
+                if num not in fig_nums:
+                    plt.close(num)
+            plt.rcParams.update(rc_params)
+            raise
+
+    return wrapper
+
+
+@_restore_on_failure
 def save_plot_image(file_path, list_lines, height, width, overwrite=True,
                     dpi=100):
     """
@@ -522,6 +547,7 @@ def __check_font(font_family):
         return False
 
 
+@_restore_on_failure
 def save_residual_plot(file_path, list_data, height, width, overwrite=True,
                        dpi=100, font_family='Times New Roman'):
     """
@@ -665,6 +691,7 @@ def open_hdf_stream(file_path, data_shape, key_path='entry/data',
     return data_out
 
 
+@_restore_on_failure
 def save_plot_points(file_path, list_points, height, width, overwrite=True,
                      dpi=100, marker="o", color="blue"):
     """
-- 
2.43.0

