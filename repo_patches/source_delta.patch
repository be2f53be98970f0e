From 1b7ca364969e55ba025b10d22cd9fff436d5f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 01/48] fix: sub-pixel registration when stitching, joining or
 extending with a fractional width

Each of the two images was moved by the whole fractional part (and, when
joining, in the wrong direction), so the halves of the composite were
misregistered by up to one pixel.  Move each by half of it.
---
 algotom/prep/conversion.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index e0d91e2..63d1841 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -109,12 +109,13 @@ def stitch_image(mat1, mat2, overlap, side, wei_mat1=None, wei_mat2=None,
     overlap_int = int(np.round(overlap + 1.0e-3))
     sub_pixel = overlap - overlap_int
     if sub_pixel != 0.0:
+        half = 0.5 * sub_pixel
         if side == 1:
-            mat1 = shift(mat1, (0, sub_pixel), mode='nearest')
-            mat2 = shift(mat2, (0, -sub_pixel), mode='nearest')
+            mat1 = shift(mat1, (0, half), mode='nearest')
+            mat2 = shift(mat2, (0, -half), mode='nearest')
         else:
-            mat1 = shift(mat1, (0, -sub_pixel), mode='nearest')
-            mat2 = shift(mat2, (0, sub_pixel), mode='nearest')
+            mat1 = shift(mat1, (0, -half), mode='nearest')
+            mat2 = shift(mat2, (0, half), mode='nearest')
     if nrow1 != nrow2:
         raise ValueError("Two images are not at the same height!!!")
     if (wei_mat1 is None) or (wei_mat2 is None):
@@ -177,12 +178,13 @@ def join_image(mat1, mat2, joint_width, side, norm=True, total_width=None):
     sub_pixel = joint_width - joint_int
     side = int(side)
     if sub_pixel != 0.0:
+        half = 0.5 * sub_pixel
         if side == 1:
-            mat1 = shift(mat1, (0, sub_pixel), mode='nearest')
-            mat2 = shift(mat2, (0, -sub_pixel), mode='nearest')
+            mat1 = shift(mat1, (0, -half), mode='nearest')
+            mat2 = shift(mat2, (0, half), mode='nearest')
         else:
-            mat1 = shift(mat1, (0, -sub_pixel), mode='nearest')
-            mat2 = shift(mat2, (0, sub_pixel), mode='nearest')
+            mat1 = shift(mat1, (0, half), mode='nearest')
+            mat2 = shift(mat2, (0, -half), mode='nearest')
     if nrow1 != nrow2:
         raise ValueError("Two images are not at the same height!!!")
     total_width0 = ncol1 + ncol2 + joint_int
@@ -436,7 +438,7 @@ def extend_sinogram(sino_360, cor, apply_log=True):
     sub_pixel = overlap - overlap_int
     if side == 1:
         if sub_pixel != 0.0:
-            sino_360 = shift(sino_360, (0, sub_pixel), mode='nearest')
+            sino_360 = shift(sino_360, (0, 0.5 * sub_pixel), mode='nearest')
         wei_list = np.linspace(1.0, 0.0, overlap_int)
         wei_mat = np.tile(wei_list, (nrow, 1))
         sino_360[:, -overlap_int:] = sino_360[:, -overlap_int:] * wei_mat
@@ -444,7 +446,8 @@ def extend_sinogram(sino_360, cor, apply_log=True):
         sino_pad = np.pad(sino_360, ((0, 0), (0, pad_wid)), mode='edge')
     else:
         if sub_pixel != 0.0:
-            sino_360 = shift(sino_360, (0, -sub_pixel), mode='nearest')
+            sino_360 = shift(sino_360, (0, -0.5 * sub_pixel),
+                             mode='nearest')
         wei_list = np.linspace(0.0, 1.0, overlap_int)
         wei_mat = np.tile(wei_list, (nrow, 1))
         sino_360[:, :overlap_int] = sino_360[:, :overlap_int] * wei_mat
-- 
2.43.0


From 1605af4194c26803c6e5f3c8c140e36f72f70478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 02/48] fix: stitch_image_multiple ignored its norm argument

It was passed in the position of a weight matrix, so images were always
normalised.
---
 algotom/prep/conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 63d1841..417ac85 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -264,7 +264,8 @@ def stitch_image_multiple(list_mat, list_overlap, norm=True, total_width=None):
     if num_mat > 1:
         for i in range(1, num_mat):
             (overlap, side) = list_overlap[i - 1][0:2]
-            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side, norm)
+            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side,
+                                    norm=norm)
         width = mat_comb.shape[1]
         if total_width is None:
             total_width = width
-- 
2.43.0


From b7192b56705316f001a23db4d7c74503ad5f78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 03/48] fix: find_overlap was off by one when the window is
 wider than the search allows

---
 algotom/prep/calculation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index af9e15b..8760cb2 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -584,7 +584,7 @@ def find_overlap(mat1, mat2, win_width, side=None, denoise=True, norm=False,
     """
     (_, ncol1) = mat1.shape
     (_, ncol2) = mat2.shape
-    win_width = int(np.clip(win_width, 6, min(ncol1, ncol2) // 2))
+    win_width = int(np.clip(win_width, 6, min(ncol1, ncol2) // 2 - 1))
     if side == 1:
         (list_metric, offset) = search_overlap(mat1, mat2, win_width, side,
                                                denoise, norm, use_overlap,
-- 
2.43.0


From 96757dba0c9745af4c3fbe3b2a096248889daeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 04/48] fix: half-pixel offset of the center found from
 0/180-degree projections

---
 algotom/prep/calculation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 8760cb2..02e83da 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -895,9 +895,9 @@ def find_center_projection(mat1, mat2, flip=True, win_width=None,
                                       denoise=denoise, norm=norm,
                                       use_overlap=use_overlap, ncore=ncore)
     if side == 0:
-        cor = overlap / 2.0 - 1.0
+        cor = overlap / 2.0 - 0.5
     else:
-        cor = ncol - overlap / 2.0 - 1.0
+        cor = ncol - overlap / 2.0 - 0.5
     return cor
 
 
-- 
2.43.0


From 7e7ff7432ac79abb74a72bc70a8a0f36f010fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 05/48] fix: unwarp_sinogram_chunk clipped the last row of the
 chunk it reads

---
 algotom/prep/correction.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/algotom/prep/correction.py b/algotom/prep/correction.py
index babf819..6a5d93f 100644
--- a/algotom/prep/correction.py
+++ b/algotom/prep/correction.py
@@ -266,26 +266,16 @@ def unwarp_sinogram_chunk(data, start_index, stop_index, xcenter, ycenter,
     if stop_index == -1:
         stop_index = height
     xu_list = np.arange(0, width) - xcenter
-    yu1 = start_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu1 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list1 = np.clip(ycenter + flist * yu1, 0, height - 1)
-    yu2 = stop_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu2 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2)))
     yu_list = np.arange(start_index, stop_index) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
     fact_mat = np.sum(np.asarray(
         [factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
-    yd_mat = np.float32(
-        np.clip(ycenter + fact_mat * yu_mat, 0, height - 1)) - yd_min
+    yd_mat = np.clip(ycenter + fact_mat * yu_mat, 0, height - 1)
+    yd_min = np.int16(np.floor(np.amin(yd_mat)))
+    yd_max = np.int16(np.ceil(np.amax(yd_mat))) + 1
+    yd_mat = np.float32(yd_mat) - yd_min
     sino_chunk = np.asarray(
         [util.mapping(data[i, yd_min:yd_max, :], xd_mat, yd_mat) for i in
          list_idx])
-- 
2.43.0


From d70d1d58364cf2414b1b3fb4dbf054de41dd13a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 06/48] fix: blob removal failed on masks touching an edge and
 changed the caller's mask

---
 algotom/prep/removal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 2fe56ea..e8d90e6 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -971,11 +971,12 @@ def remove_blob_1d(sino_1d, mask_1d):
     [1] : https://doi.org/10.1364/OE.418448
     """
     sino_1d = np.copy(sino_1d)
+    mask_1d = np.copy(mask_1d)
+    mask_1d[:2] = 0.0
+    mask_1d[-2:] = 0.0
     xlist = np.where(mask_1d < 1.0)[0]
     ylist = sino_1d[xlist]
     finter = interpolate.interp1d(xlist, ylist)
-    mask_1d[:2] = 0.0
-    mask_1d[-2:] = 0.0
     xlist_miss = np.where(mask_1d > 0.0)[0]
     if len(xlist_miss) > 0:
         sino_1d[xlist_miss] = finter(xlist_miss)
@@ -1001,6 +1002,7 @@ def remove_blob(mat, mask):
     mat = np.copy(mat)
     if mat.shape != mask.shape:
         raise ValueError("The image and the mask are not the same shape !!!")
+    mask = np.copy(mask)
     for i in range(mat.shape[0]):
         array_1d = mat[i]
         mask_1d = mask[i]
-- 
2.43.0


From e11b9b50540c33c3185f8e0a5e035f0e33dbbd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 07/48] fix: back_projection_cpu had a data race between angles

---
 algotom/rec/reconstruction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 7a88823..42fd676 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -330,12 +330,12 @@ def back_projection_cpu(sinogram, angles, center,
     sino_width1 = sino_width - 1
     icenter = 0.5 * sino_width1
     recon = np.zeros((sino_width, sino_width), dtype=np.float32)
-    for i in prange(sino_height):
-        theta = - angles[i]
-        cos_theta = math.cos(theta)
-        sin_theta = math.sin(theta)
-        for y_index in range(sino_width):
-            y_cor = y_index - icenter
+    for y_index in prange(sino_width):
+        y_cor = y_index - icenter
+        for i in range(sino_height):
+            theta = - angles[i]
+            cos_theta = math.cos(theta)
+            sin_theta = math.sin(theta)
             for x_index in range(sino_width):
                 x_pos = (x_index - icenter) * cos_theta + y_cor * sin_theta
                 f_pos = x_pos + center
-- 
2.43.0


From 36dac61e6f83ae595867e828fa5441348b5dc777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 08/48] fix: reconstruction methods replaced non-positive
 values in the caller's data

---
 algotom/rec/reconstruction.py | 5 +++++
 algotom/rec/vertrec.py        | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 42fd676..2c2aa68 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -432,6 +432,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
+            sinogram = np.copy(sinogram)
             sinogram[sinogram <= 0.0] = np.float32(1.0)
         sinogram = -np.log(sinogram)
     if ratio is not None:
@@ -633,6 +634,7 @@ def bpf_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
+            sinogram = np.copy(sinogram)
             sinogram[sinogram <= 0.0] = np.float32(1.0)
         sinogram = -np.log(sinogram)
     if ratio is not None:
@@ -962,6 +964,7 @@ def gridrec_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
+            sinogram = np.copy(sinogram)
             sinogram[sinogram <= 0.0] = np.float32(1.0)
         sinogram = -np.log(sinogram)
     if ncore is None:
@@ -1137,6 +1140,7 @@ def astra_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
+            sinogram = np.copy(sinogram)
             sinogram[sinogram <= 0.0] = np.float32(1.0)
         sinogram = -np.log(sinogram)
     if filter_name is None:
@@ -1320,6 +1324,7 @@ def _find_center_based_slice_metric(sinogram, start, stop, step=1,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
+            sinogram = np.copy(sinogram)
             sinogram[sinogram <= 0.0] = np.float32(1.0)
         sinogram = -np.log(sinogram)
         apply_log = False
diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index a97ad11..c7b55d2 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -606,6 +606,7 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
+                    img_chunk = np.copy(img_chunk)
                     img_chunk[img_chunk <= 0.0] = np.float32(1.0)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
@@ -647,6 +648,7 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
+                    img_chunk = np.copy(img_chunk)
                     img_chunk[img_chunk <= 0.0] = np.float32(1.0)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
@@ -877,6 +879,7 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
+                    img_chunk = np.copy(img_chunk)
                     img_chunk[img_chunk <= 0.0] = np.float32(1.0)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
@@ -922,6 +925,7 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
+                    img_chunk = np.copy(img_chunk)
                     img_chunk[img_chunk <= 0.0] = np.float32(1.0)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
@@ -1152,6 +1156,7 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
+                    img_chunk = np.copy(img_chunk)
                     img_chunk[img_chunk <= 0.0] = np.float32(1.0)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
@@ -1197,6 +1202,7 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
+                    img_chunk = np.copy(img_chunk)
                     img_chunk[img_chunk <= 0.0] = np.float32(1.0)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
@@ -1350,6 +1356,7 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
+                projections = np.copy(projections)
                 projections[projections <= 0.0] = np.float32(1.0)
                 projections = -np.log(projections)
 
@@ -1498,6 +1505,7 @@ def find_center_visual_vertical_slices(projections, output_folder, slice_index,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
+                projections = np.copy(projections)
                 projections[projections <= 0.0] = np.float32(1.0)
                 projections = -np.log(projections)
     if ramp_filter is None:
-- 
2.43.0


From 01cb921bb2a3202b86e5a1de8ccf0ec9f9cf7062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 09/48] fix: bpf_reconstruction ignored the filter of a single
 slice when the given window does not fit

---
 algotom/rec/reconstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 2c2aa68..762f3ca 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -657,8 +657,8 @@ def bpf_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
             recon = back_projection_cpu(np.float32(sinogram),
                                         np.float32(angles), np.float32(center),
                                         edge_pad=True)
-        recon = apply_circular_ramp_filter(recon, ramp_win, pad=pad,
-                                           pad_mode=pad_mode)
+        recon = apply_circular_ramp_filter(recon, ramp_win, filter_name, pad,
+                                           pad_mode)
         if ratio is not None:
             recon = recon * mask
     else:
-- 
2.43.0


From d8b0c732a908471fe82cfa453f34150abc58b493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 10/48] fix: save_image_multiple reused file names from the
 100000th image on

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 417d268..b6dd762 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -1274,7 +1274,7 @@ def save_image_multiple(list_path, image_stack, axis=0, overwrite=True,
     elif isinstance(list_path, str):
         num_file = image_stack.shape[axis]
         start_idx = int(start_idx)
-        list_path = [(list_path + "/img_" + ("00000" + str(i))[-5:] + ".tif")
+        list_path = [(list_path + "/img_" + f"{i:05}" + ".tif")
                      for i in range(start_idx, start_idx + num_file)]
     else:
         raise ValueError("Input must be a list of file paths or a folder path")
-- 
2.43.0


From 79efa35cfd225762c7f9a9832fc122f4a4032511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 11/48] fix: open_hdf_stream refused metadata keys that merely
 contain the data key as text

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index b6dd762..5d0532a 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -458,7 +458,7 @@ def open_hdf_stream(file_path, data_shape, key_path='entry/data',
         for opt_name in options:
             opts = options[opt_name]
             for key in opts:
-                if key_path in key:
+                if f"/{key_path.strip('/')}/" in f"/{key.strip('/')}/":
                     msg = "!!!Selected key-path, '{0}', can not be a child " \
                           "key-path of '{1}'!!!\n!!!Change to make sure " \
                           "they are at the same level!!!".format(key, key_path)
-- 
2.43.0


From 33c01c75bd2c3a7a5bb3bad800662af3203f26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 12/48] fix: HdfEmulatorFromTif failed on .TIF files and on
 numpy integers as index

---
 algotom/io/converter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index 61b632b..6042904 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -167,11 +167,10 @@ class HdfEmulatorFromTif:
     >>> image_stack = hdf_emulator[:, 0:4, :]
     """
     def __init__(self, folder_path, ncore=1):
-        self.files = losa.find_file(folder_path + "/*tif*")
-        if len(self.files) == 0:
-            files = losa.find_file(folder_path + "/*TIF*")
-        if len(self.files) == 0:
-            raise ValueError(f"!!! No tif files found in: {folder_path}")
+        try:
+            self.files = losa.find_file(folder_path + "/*tif*")
+        except FileNotFoundError:
+            self.files = losa.find_file(folder_path + "/*TIF*")
         self.n_jobs = ncore
         self._shape, self._dtype = self._get_shape_and_dtype()
 
@@ -182,7 +181,7 @@ class HdfEmulatorFromTif:
         return shape, dtype
 
     def __getitem__(self, index):
-        if isinstance(index, int):
+        if isinstance(index, (int, np.integer)):
             return losa.load_image(self.files[index])
         elif isinstance(index, slice):
             indices = range(*index.indices(len(self.files)))
-- 
2.43.0


From b161b124a43bbe2a5d8cc453f9e14decaba4c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 13/48] fix: get_reference_sample_stacks_dls averaged
 projections into flat and dark fields taken at both ends of a scan, and
 failed on single ones

---
 algotom/io/loadersaver.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 5d0532a..2aa41ae 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -692,10 +692,9 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
     for i in range(num_img):
         if dark_field is None:
             if len(list_dark_idx) != 0:
-                idx1 = list_dark_idx[i][0]
-                idx2 = list_dark_idx[i][-1] + 1
                 dark_ave = np.mean(
-                    list_data_obj[i][idx1:idx2, top:bot, left:right], axis=0)
+                    list_data_obj[i][list_dark_idx[i], top:bot, left:right],
+                    axis=0)
             else:
                 dark_ave = np.zeros((height1, width1), dtype=np.float32)
         if flat_field is not None:
@@ -703,10 +702,9 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
             nmean = np.mean(flat_dark)
             flat_dark[flat_dark == 0.0] = nmean
         if len(list_ref_idx) != 0:
-            idx1 = list_ref_idx[i][0]
-            idx2 = list_ref_idx[i][-1] + 1
-            ref_ave = np.mean(list_data_obj[i][idx1:idx2, top:bot, left:right],
-                              axis=0)
+            ref_ave = np.mean(
+                list_data_obj[i][list_ref_idx[i], top:bot, left:right],
+                axis=0)
             if flat_field is not None:
                 ref_ave = (ref_ave - dark_ave) / flat_dark
             else:
@@ -834,7 +832,7 @@ def get_reference_sample_stacks_dls(proj_idx, list_path, data_key=None,
                                          "".format(num_img))
             list_tmp = np.where(int_keys == 0.0)[0]
             if len(list_tmp) != 0:
-                list_idx = np.sort(np.int32(np.squeeze(np.asarray(list_tmp))))
+                list_idx = np.sort(np.int32(list_tmp))
                 list_sam_idx.append(list_idx)
                 list_start_idx.append(list_idx[0])
                 list_stop_idx.append(list_idx[-1])
@@ -842,11 +840,11 @@ def get_reference_sample_stacks_dls(proj_idx, list_path, data_key=None,
             list_tmp = np.where(int_keys == 1.0)[0]
             if len(list_tmp) != 0:
                 list_ref_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
+                    np.sort(np.int32(list_tmp)))
             list_tmp = np.where(int_keys == 2.0)[0]
             if len(list_tmp) != 0:
                 list_dark_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
+                    np.sort(np.int32(list_tmp)))
         else:
             num_proj = num_img
             list_sam_idx.append(np.arange(num_proj))
-- 
2.43.0


From 209777649edfc9a664d763b31d505a178e392649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 14/48] fix: three-row flat and dark fields were averaged as if
 they were stacks

---
 algotom/io/loadersaver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 2aa41ae..ce32c2f 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -878,7 +878,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     Supplementary method for checking dark-field image, flat-field image.
     """
     if flat_field is not None:
-        if len(flat_field) == 3:
+        if np.ndim(flat_field) == 3:
             flat_field = np.mean(flat_field, axis=0)
         (height2, width2) = flat_field.shape
         if height2 != height or width2 != width:
@@ -887,7 +887,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     else:
         flat_field = np.ones((height, width))
     if dark_field is not None:
-        if len(dark_field) == 3:
+        if np.ndim(dark_field) == 3:
             dark_field = np.mean(dark_field, axis=0)
         (height2, width2) = dark_field.shape
         if height2 != height or width2 != width:
-- 
2.43.0


From f0d68f53239eeb09ab2eefbedf329ab45b408186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 15/48] fix: reslice_dataset deleted an existing folder with
 the base name of the hdf output

---
 algotom/post/postprocessing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index fadca44..fe44da4 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -948,8 +948,9 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                                          axis=1, ncore=ncore, prefer="threads")
     if os.path.isdir(folder_tmp):
         shutil.rmtree(folder_tmp)
-        if out_type == "hdf":
-            shutil.rmtree(os.path.splitext(output)[0])
+        folder_base = os.path.splitext(output)[0]
+        if out_type == "hdf" and not os.listdir(folder_base):
+            os.rmdir(folder_base)
     if show_progress:
         t1 = timeit.default_timer()
         f_size = __get_dataset_size(output)
-- 
2.43.0


From c084552a735ef3b2f2e97354101be85501a742a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 16/48] fix: reslice_dataset ignored the crop of the first
 images of a hdf file

---
 algotom/post/postprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index fe44da4..2ffe630 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -713,7 +713,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -725,7 +725,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
@@ -749,7 +749,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -761,7 +761,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
-- 
2.43.0


From 1424f19f0635c62a99ab41479717a09d2da39136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 17/48] fix: statistics of a dataset exchanged mean and median
 and denoised twice

---
 algotom/post/postprocessing.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 2ffe630..d108a8c 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -267,28 +267,22 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
         list_stat = []
         for i in range(d1, d2, skip):
             mat = losa.load_image(list_file[i])[h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     elif in_type == "hdf":
         data = losa.load_hdf(input_, key_path)
         list_stat = []
         for i in range(d1, d2, skip):
             mat = data[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     else:
         list_stat = []
         for i in range(d1, d2, skip):
             mat = input_[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     list_stat = np.asarray(list_stat)
     gmin, gmax = np.min(list_stat[:, 0]), np.max(list_stat[:, 1])
     min_percent, max_percent = np.min(list_stat[:, 2]), np.max(list_stat[:, 3])
-    median, mean = np.median(list_stat[:, 4]), np.mean(list_stat[:, 5])
+    mean, median = np.mean(list_stat[:, 4]), np.median(list_stat[:, 5])
     variance = np.mean(list_stat[:, 6])
     return gmin, gmax, min_percent, max_percent, mean, median, variance
 
-- 
2.43.0


From 659673ae678adc70ef9c9552f22e1dcef5be0ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 18/48] fix: datasets or crops of a single image could not be
 analysed or resliced

---
 algotom/post/postprocessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index d108a8c..8ded00b 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -259,7 +259,7 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     depth1 = results[1][0]
-    skip = int(np.clip(skip, 1, depth1 - 1))
+    skip = int(np.clip(skip, 1, max(1, depth1 - 1)))
     in_type = __get_input_type(input_)
     f_alias = get_statistical_information
     if in_type == "tif":
@@ -597,7 +597,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     (depth1, height1, width1) = results[1]
-    chunk = np.clip(chunk, 1, depth1 - 1)
+    chunk = np.clip(chunk, 1, max(1, depth1 - 1))
     last_chunk = depth1 - chunk * (depth1 // chunk)
     folder_tmp = os.path.splitext(output)[0] + "/tmp_/"
     file_tmp = folder_tmp + "/file_tmp.hdf"
@@ -840,7 +840,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     with h5py.File(file_tmp, 'r') as hdf_object:
         data = hdf_object[key_tmp]
         (depth1, height1, width1) = data.shape
-        chunk = np.clip(chunk, 1, height1 - 1)
+        chunk = np.clip(chunk, 1, max(1, height1 - 1))
         last_chunk = height1 - chunk * (height1 // chunk)
         data_type = data.dtype
         res_type = str(data_type)
-- 
2.43.0


From bcfe31f4263d6785f2de78713819aadf6c3fda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 19/48] fix: rescale_dataset wrote to another hdf file when
 asked to overwrite

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 8ded00b..594de26 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -552,7 +552,7 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         data_res = losa.open_hdf_stream(output, (depth1, height1, width1),
                                         key_path="entry/data",
                                         data_type=data_type,
-                                        overwrite=False)
+                                        overwrite=True)
     elif out_type is None:
         data_res = []
     else:
-- 
2.43.0


From 6df816e03bbb2c963a2ee768753b4c46e35e5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 20/48] fix: downsample_dataset and reslice_dataset ignored the
 given minmax for 8/16-bit data

---
 algotom/post/postprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 594de26..606d53d 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -437,9 +437,9 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
             raise ValueError("Only two options for nbit: 8 or 16 !!!")
         if str(data_type) != res_type:
             if data_type == np.uint8:
-                minmax = (0, 255)
+                minmax = (0, 255) if minmax is None else minmax
             elif data_type == np.uint16:
-                minmax = (0, 65535)
+                minmax = (0, 65535) if minmax is None else minmax
             else:
                 if skip is None:
                     skip = int(np.clip(np.ceil(0.15 * depth1), 1, depth1 - 1))
@@ -853,9 +853,9 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                 raise ValueError("Only two options for nbit: 8 or 16 !!!")
             if str(data_type) != res_type:
                 if data_type == np.uint8:
-                    minmax = (0, 255)
+                    minmax = (0, 255) if minmax is None else minmax
                 elif data_type == np.uint16:
-                    minmax = (0, 65535)
+                    minmax = (0, 65535) if minmax is None else minmax
                 else:
                     if skip is None:
                         skip = min(20, int(0.02 * depth1))
-- 
2.43.0


From b9fb86315301752c4dd5f00cbd917ee6ad645ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 21/48] fix: polar_from_rectangular stretched radii by
 width/(width-1)

A slice brought to polar coordinates and back was displaced by up to half a
pixel at its border: radii were scaled by width_pol while
rectangular_from_polar puts width_pol points, index 0 to width_pol - 1, on
the radius.
---
 algotom/util/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 3d94037..2902718 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -720,8 +720,8 @@ def polar_from_rectangular(width_pol, height_pol, width_reg, height_reg):
     xcenter = (width_reg - 1.0) * 0.5
     ycenter = (height_reg - 1.0) * 0.5
     r_max = np.floor(max(xcenter, ycenter))
-    xlist = (np.flipud(np.arange(width_reg)) - xcenter) * width_pol / r_max
-    ylist = (np.flipud(np.arange(height_reg)) - ycenter) * width_pol / r_max
+    xlist = (np.flipud(np.arange(width_reg)) - xcenter) * (width_pol - 1) / r_max
+    ylist = (np.flipud(np.arange(height_reg)) - ycenter) * (width_pol - 1) / r_max
     x_mat, y_mat = np.meshgrid(xlist, ylist)
     r_mat = np.float32(
         np.clip(np.sqrt(x_mat ** 2 + y_mat ** 2), 0, width_pol - 1))
-- 
2.43.0


From 4def9eeb9cd9892c6f46f70814ac2a19c916358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 22/48] fix: locate_slice_chunk mixed up the overlaps above and
 below a middle row

Weights of a middle grid-row were calculated from the wrong one of its two
overlaps when they differ: the last assignment won on both edges. Each edge
now uses the overlap it lies in, as locate_slice does.
---
 algotom/util/utility.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 2902718..6c8ac83 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -1284,12 +1284,7 @@ def locate_slice_chunk(slice_start, slice_stop, height, overlap_metadata):
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap1:
                             fact = dis1 / (ver_overlap1 - 1)
-                        if pos < ver_overlap1:
-                            fact = pos / (ver_overlap1 - 1)
                         ver_overlap2 = overlap_list[i - 1]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap2:
-                            fact = dis1 / (ver_overlap2 - 1)
                         if pos < ver_overlap2:
                             fact = pos / (ver_overlap2 - 1)
                     result1.append([i, pos, fact])
@@ -1309,17 +1304,12 @@ def locate_slice_chunk(slice_start, slice_stop, height, overlap_metadata):
                             fact = 1.0 * dis1 / (ver_overlap - 1)
                     else:
                         ver_overlap1 = overlap_list[i]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap1:
-                            fact = 1.0 * dis1 / (ver_overlap1 - 1)
                         if pos < ver_overlap1:
                             fact = 1.0 * pos / (ver_overlap1 - 1)
                         ver_overlap2 = overlap_list[i - 1]
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap2:
                             fact = 1.0 * dis1 / (ver_overlap2 - 1)
-                        if pos < ver_overlap2:
-                            fact = 1.0 * pos / (ver_overlap2 - 1)
                     result1.append([i, pos, fact])
         if len(result1) > 0:
             results.append(result1)
-- 
2.43.0


From 127141ada78b938ab46b656bc9e74e83f2fea69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:04 +0000
Subject: [PATCH 23/48] fix: local shift searches failed when there were more
 chunks than rows

---
 algotom/util/correlation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index f1f5233..e608cf6 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -1064,6 +1064,7 @@ def _get_1d_shift_full_image_3d_input_cpu(ref_mat, mat, direction="x",
                                   True, ncore, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
+        num_chunk = np.clip(num_chunk, 1, max(1, height - 2 * edge))
         list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
@@ -1345,6 +1346,7 @@ def _get_2d_shift_full_image_3d_input_cpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = np.clip(num_chunk, 1, max(1, height - 2 * edge))
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -1631,6 +1633,7 @@ def _get_1d_shift_full_image_3d_input_gpu(ref_mat, mat, direction="x",
                                   block, True, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
+        num_chunk = np.clip(num_chunk, 1, max(1, height - 2 * edge))
         list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
@@ -2026,6 +2029,7 @@ def _get_2d_shift_full_image_2d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = np.clip(num_chunk, 1, max(1, height - 2 * edge))
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -2221,6 +2225,7 @@ def _get_2d_shift_full_image_3d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = np.clip(num_chunk, 1, max(1, height - 2 * edge))
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -2451,6 +2456,7 @@ def _get_2d_shift_full_image_3d_input_cpu_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = np.clip(num_chunk, 1, max(1, height - 2 * edge))
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -3351,6 +3357,7 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
     y_shifts = np.zeros_like(x_shifts)
     trans = np.ones_like(x_shifts)
     dark = np.ones_like(x_shifts)
+    num_chunk = np.clip(num_chunk, 1, max(1, height - 2 * edge))
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     f_alias1 = __get_2d_shift_multi_rows_3d_input_umpa_gpu
     f_alias2 = __get_2d_shift_multi_rows_3d_input_umpa_cpu
-- 
2.43.0


From d6619c5b9f8d63051e732cb64352ef61cda7c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:54 +0000
Subject: [PATCH 24/48] fix: no sub-pixel shift on the GPU for a peak on the
 border of the map

---
 algotom/util/correlation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index e608cf6..fa82364 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -1836,9 +1836,13 @@ def __locate_2d_peak_kernel(mat, x0, y0):  # pragma: no cover
     if (x0 == 0 or x0 == width1) and (height1 > y0 > 0):
         d1fy = (mat[y0 + 1, x0] - mat[y0 - 1, x0]) / 2.0
         d2fy = (mat[y0 + 1, x0] + mat[y0 - 1, x0] - 2 * mat[y0, x0])
+        if d2fy != 0:
+            y_pos = y0 - d1fy / d2fy
     if (y0 == 0 or y0 == height1) and (width1 > x0 > 0):
         d1fx = (mat[y0, x0 + 1] - mat[y0, x0 - 1]) / 2.0
         d2fx = (mat[y0, x0 + 1] + mat[y0, x0 - 1] - 2 * mat[y0, x0])
+        if d2fx != 0:
+            x_pos = x0 - d1fx / d2fx
     if (height1 > y0 > 0) and (width1 > x0 > 0):
         d1fx = 0.5 * (mat[y0, x0 + 1] - mat[y0, x0 - 1])
         d1fy = 0.5 * (mat[y0 + 1, x0] - mat[y0 - 1, x0])
-- 
2.43.0


From cdf8a06d615fd6614667e07f5f4dc75966867eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 25/48] fix: norm_global was not used for the search in 2d
 images on the GPU

---
 algotom/util/correlation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index fa82364..94d621d 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -2041,6 +2041,7 @@ def _get_2d_shift_full_image_2d_input_gpu(ref_mat, mat, chunk_size=None,
     if norm_global:
         ref_mat = normalize_image(ref_mat)
         mat = normalize_image(mat)
+        norm = False
     for pos in list_index:
         bindex, eindex = pos[0], pos[-1] + 1
         ref_mat1 = ref_mat[bindex - edge:eindex + edge, :]
@@ -2549,7 +2550,8 @@ def find_local_shifts(ref_mat, mat, dim=1, win_size=7, margin=10,
             f_alias = _get_2d_shift_full_image_2d_input_gpu
             (x_shifts, y_shifts) = f_alias(ref_mat, mat, chunk_size=chunk_size,
                                            win_size=win_size, margin=margin,
-                                           block=block, norm=norm)
+                                           block=block, norm=norm,
+                                           norm_global=norm_global)
     else:
         if gpu is False:
             if dim == 1:
-- 
2.43.0


From 926b0af619830cdd77e63c1bb1e0eb030729e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:26 +0000
Subject: [PATCH 26/48] fix: scale of vertical frequencies in the
 Frankot-Chellappa method

They were divided by the width, so surfaces of images that are not square
were wrong.
---
 algotom/prep/phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index c4c80b2..21762f6 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -317,7 +317,7 @@ def _make_window_FC_method(height, width):
     xcenter = width // 2
     ycenter = height // 2
     ulist = (1.0 * np.arange(0, width) - xcenter) / width
-    vlist = (1.0 * np.arange(0, height) - ycenter) / width
+    vlist = (1.0 * np.arange(0, height) - ycenter) / height
     u, v = np.meshgrid(ulist, vlist)
     window = u ** 2 + v ** 2
     window[ycenter, xcenter] = 1.0
-- 
2.43.0


From fe2af6de5af03dd7e62ad450af37add233d27cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:26 +0000
Subject: [PATCH 27/48] fix: windows compared for transmission and dark signals

A shift tells where in the reference the window around a sample pixel came
from; it was applied to the sample, i.e. the wrong way round.
---
 algotom/prep/phase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index 21762f6..7e46699 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -728,8 +728,8 @@ def _get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
             for j in range(start, stop_col):
                 i1 = i + int(np.round(y_shifts[i, j]))
                 j1 = j + int(np.round(x_shifts[i, j]))
-                mat1 = ref_stack[i - radi:i + radi1, j - radi:j + radi1]
-                mat2 = sam_stack[i1 - radi:i1 + radi1, j1 - radi:j1 + radi1]
+                mat1 = ref_stack[i1 - radi:i1 + radi1, j1 - radi:j1 + radi1]
+                mat2 = sam_stack[i - radi:i + radi1, j - radi:j + radi1]
                 (val1, val2) = f_alias(mat1, mat2)
                 i2, j2 = i - start, j - start
                 trans[i2, j2], dark[i2, j2] = val1, val2
@@ -742,9 +742,9 @@ def _get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
                 list1 = []
                 list2 = []
                 for k in range(num_image):
-                    mat1 = ref_stack[k, i - radi:i + radi1, j - radi:j + radi1]
-                    mat2 = sam_stack[k, i1 - radi:i1 + radi1,
+                    mat1 = ref_stack[k, i1 - radi:i1 + radi1,
                                      j1 - radi:j1 + radi1]
+                    mat2 = sam_stack[k, i - radi:i + radi1, j - radi:j + radi1]
                     (val1, val2) = f_alias(mat1, mat2)
                     list1.append(val1)
                     list2.append(val2)
-- 
2.43.0


From a1cb6b51a4b6a0a5c0280fc6935f12b8881af62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:26 +0000
Subject: [PATCH 28/48] fix: automatic margin of transmission and dark signals

Shifts are rounded, the margin was cut off: windows could leave the image.
---
 algotom/prep/phase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index 7e46699..d6af568 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -793,7 +793,8 @@ def get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
     win_size = 2 * (win_size // 2) + 1
     radi = win_size // 2
     if margin is None:
-        margin = int(max(np.max(np.abs(x_shifts)), np.max(np.abs(y_shifts))))
+        margin = int(np.round(max(np.max(np.abs(x_shifts)),
+                                  np.max(np.abs(y_shifts)))))
     pad = radi + margin
     als_size = 2 * pad
     if width <= als_size or height <= als_size:
-- 
2.43.0


From c4d0dd812bc43121cc0d5283a5100d710373d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:26 +0000
Subject: [PATCH 29/48] fix: shifts between sample images of different speckle
 drifts

Every sample image was moved by its own drift, which was then reported as
a movement of the sample; the reference is moved instead, as is done by
align_image_stacks.
---
 algotom/prep/phase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index d6af568..015e9bd 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -616,13 +616,13 @@ def find_shift_between_sample_images(ref_stack, sam_stack, sr_shifts, win_size,
     xy_shifts = [[0.0, 0.0]]
     num_image = len(ref_stack)
     crop = 1 + int(np.max(np.abs(sr_shifts)))
-    sam_mat0 = ndi.shift(sam_stack[0], np.flipud(sr_shifts[0])) / (
-            ref_stack[0] + eps)
+    sam_mat0 = sam_stack[0] / (
+            ndi.shift(ref_stack[0], -np.flipud(sr_shifts[0])) + eps)
     sam_mat0 = sam_mat0[crop:-crop, crop:-crop]
     f_alias = corl.find_global_shift_based_local_shifts
     for i in range(1, num_image):
-        sam_mat1 = ndi.shift(sam_stack[i], np.flipud(sr_shifts[i])) / (
-                ref_stack[i] + eps)
+        sam_mat1 = sam_stack[i] / (
+                ndi.shift(ref_stack[i], -np.flipud(sr_shifts[i])) + eps)
         sam_mat1 = sam_mat1[crop:-crop, crop:-crop]
         (x_shift, y_shift) = f_alias(sam_mat0, sam_mat1, win_size, margin,
                                      list_ij=list_ij,
-- 
2.43.0


From d7b6a1acd562cea3d10d519cf55057614cb02d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:09 +0000
Subject: [PATCH 30/48] fix: select whole dots, not the boxes around them

select_dot_based_size counted and copied the pixels of neighbouring dots
that reach into the bounding box of a dot.
---
 algotom/util/calibration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/util/calibration.py b/algotom/util/calibration.py
index 8708c7a..bf05a07 100644
--- a/algotom/util/calibration.py
+++ b/algotom/util/calibration.py
@@ -285,11 +285,11 @@ def select_dot_based_size(mat, dot_size, ratio=0.01):
     max_size = np.clip(np.int32(dot_size + ratio * dot_size), 1, None)
     mat_label, _ = ndi.label(mat)
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if check_dot_size(mat[dot], min_size, max_size)]
     mat1 = np.zeros_like(mat)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, dot in enumerate(list_dots):
+        mat_dot = np.where(mat_label[dot] == i + 1, mat[dot], 0)
+        if check_dot_size(mat_dot, min_size, max_size):
+            mat1[dot] += mat_dot
     return mat1
 
 
-- 
2.43.0


From 03e72ea92f6ada986b2a7bc84cf0279de582cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:44 +0000
Subject: [PATCH 31/48] fix: stripe artifacts at the last columns of a sinogram

---
 algotom/util/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/simulation.py b/algotom/util/simulation.py
index 8fe2543..e3c37df 100644
--- a/algotom/util/simulation.py
+++ b/algotom/util/simulation.py
@@ -430,7 +430,7 @@ def add_stripe_artifact(sinogram, size, position, strength_ratio=0.2,
     """
     sinogram = np.copy(sinogram)
     (nrow, ncol) = sinogram.shape
-    position = np.clip(position, 0, ncol - size - 1)
+    position = np.clip(position, 0, ncol - size)
     strength_ratio = np.clip(strength_ratio, 0.0, 1.0)
     stripe = sinogram[:, position: position + size]
     if stripe_type == "partial":
-- 
2.43.0


From 8f5d20a46b0b142f4ac4bc690b593c34fbee2bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:01 +0000
Subject: [PATCH 32/48] fix: Fourier windows of stripe removal are centred on
 the zero frequency for even sizes

---
 algotom/util/utility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 6c8ac83..5fbffd0 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -436,8 +436,8 @@ def make_2d_butterworth_window(width, height, u, v, n):
     array_like
         2D array.
     """
-    xcenter = np.ceil(width / 2.0) - 1.0
-    ycenter = np.int16(np.ceil(height / 2.0) - 1)
+    xcenter = width // 2
+    ycenter = height // 2
     xlist = np.arange(width) - xcenter
     window = 1.0 / (1.0 + np.power(xlist / u, 2 * n))
     row1 = ycenter - np.int16(v)
@@ -468,7 +468,7 @@ def make_2d_damping_window(width, height, size, window_name="gaussian"):
     array_like
         2D array of the window.
     """
-    xcenter = np.ceil(width / 2.0) - 1.0
+    xcenter = width // 2
     xlist = np.arange(width) - xcenter
     if window_name == "butter":
         window = 1.0 - 1.0 / (1.0 + np.power(xlist / size, 2))
-- 
2.43.0


From f5a9ade8c9c96dda4a0cee78e29b57d07181fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:09 +0000
Subject: [PATCH 33/48] fix: dead columns give no infinite values and are
 detected as stripes

---
 algotom/prep/removal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index e8d90e6..e78e123 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -306,6 +306,7 @@ def remove_large_stripe(sinogram, snr=3.0, size=51, drop_ratio=0.1, norm=True,
     list_fact = np.divide(list1, list2,
                           out=np.ones_like(list1), where=list2 != 0)
     list_mask = util.detect_stripe(list_fact, snr)
+    list_fact[list_fact == 0.0] = np.float32(1.0)
     list_mask = np.float32(ndi.binary_dilation(list_mask, iterations=1))
     if norm is True:
         sinogram = sinogram / np.tile(list_fact, (nrow, 1))
@@ -785,10 +786,10 @@ def remove_stripe_based_interpolation(sinogram, snr=3.0, size=51,
                                      " namespace".format(method))
     list1 = np.mean(sino_sort[ndrop:nrow - ndrop], axis=0)
     list2 = np.mean(sino_smooth[ndrop:nrow - ndrop], axis=0)
-    list1[list1 == 0.0] = np.float32(1.0)
     list_fact = np.divide(list1, list2,
                           out=np.ones_like(list1), where=list2 != 0)
     list_mask = util.detect_stripe(list_fact, snr)
+    list_fact[list_fact == 0.0] = np.float32(1.0)
     list_mask = np.float32(ndi.binary_dilation(list_mask, iterations=1))
     mat_fact = np.tile(list_fact, (nrow, 1))
     if norm is True:
-- 
2.43.0


From 0502afb93a9c6e0a37bf156808cd50645db00364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:37 +0000
Subject: [PATCH 34/48] fix: full helical sinogram is found when the y-step is
 smaller than a pixel

---
 algotom/prep/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 417ac85..33f9100 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -654,7 +654,7 @@ def generate_full_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
     else:
         y_e = y_stop - pitch
         y_s = y_start + pitch
-    num_proj_used = int(np.floor(fov / y_step)) - 1
+    num_proj_used = int(np.ceil((fov - pixel_size) / y_step)) - 1
     y_pos = (index - 1) * pixel_size + y_s
     i0 = int(np.ceil((y_e - y_pos) / y_step))
     if (i0 < 0) or (i0 >= depth0):
-- 
2.43.0


From 792e1783b0cc8c9c8a147db774fd82a07e565c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:37 +0000
Subject: [PATCH 35/48] fix: DFI with descending angles starting anywhere gives
 the right slice

---
 algotom/rec/reconstruction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 762f3ca..4a632f0 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -741,6 +741,8 @@ def __dfi_handle_angles(sinogram, angles):
         sinogram = (sinogram[:nrow] + np.fliplr(sinogram[-nrow:])) / 2
     step = np.mean(np.abs(np.diff(angles)))
     b_ang = angles[0] - (angles[0] // (2 * np.pi)) * (2 * np.pi)
+    if angles[-1] < angles[0]:
+        b_ang = -b_ang
     sino_360 = np.vstack((sinogram[: nrow - 1], np.fliplr(sinogram)))
     sinogram = ndi.shift(sino_360, (b_ang / step, 0), mode='wrap')[:nrow]
     if angles[-1] < angles[0]:
-- 
2.43.0


From 42252434a03c16f87348c68ec9f5fcea47b43ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:37 +0000
Subject: [PATCH 36/48] fix: no row of zero shifts is left at the border for
 large windows

---
 algotom/prep/phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index 015e9bd..ee92c46 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -968,7 +968,7 @@ def retrieve_phase_based_speckle_tracking(ref_stack, sam_stack,
             f_alias = get_transmission_dark_field_signal
             trans, dark = f_alias(ref_stack, sam_stack, x_shifts, y_shifts,
                                   win_size, margin, ncore=ncore)
-    edge = margin + 2
+    edge = margin + max(2, win_size // 2)
     x_shifts = np.pad(x_shifts[edge:-edge, edge:-edge], edge,
                       mode="reflect")
     y_shifts = np.pad(y_shifts[edge:-edge, edge:-edge], edge,
-- 
2.43.0


From 70d32070b88d6211c7e9b8b7231e226b8dd71209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:37 +0000
Subject: [PATCH 37/48] fix: size of a zinger does not count pixels of a
 neighbouring one

---
 algotom/prep/removal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index e78e123..a15f2db 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -857,12 +857,13 @@ def select_zinger(mat, max_size):
     array_like
         2D binary array.
     """
-    list_zin = ndi.find_objects(ndi.label(mat)[0])
-    zin_sel = [zin for zin in list_zin
-               if check_zinger_size(mat[zin], max_size)]
+    mat_label = ndi.label(mat)[0]
+    list_zin = ndi.find_objects(mat_label)
     mat_out = np.zeros_like(mat)
-    for _, j in enumerate(zin_sel):
-        mat_out[j] = mat[j]
+    for i, j in enumerate(list_zin):
+        zinger = mat_label[j] == i + 1
+        if check_zinger_size(mat[j] * zinger, max_size):
+            mat_out[j][zinger] = mat[j][zinger]
     return mat_out
 
 
-- 
2.43.0


From 708931c5f674ad5b4743d8a3b6f732027b9d70b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:37 +0000
Subject: [PATCH 38/48] fix: fitting an ellipse to five points

---
 algotom/util/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/calibration.py b/algotom/util/calibration.py
index bf05a07..5a56a0d 100644
--- a/algotom/util/calibration.py
+++ b/algotom/util/calibration.py
@@ -366,7 +366,7 @@ def fit_points_to_ellipse(x, y):
     if len(x) != len(y):
         raise ValueError("x and y must have the same length!!!")
     A = np.array([x**2, x*y, y**2, x, y, np.ones_like(x)]).T
-    vh = np.linalg.svd(A, full_matrices=False)[-1]
+    vh = np.linalg.svd(A, full_matrices=len(x) < 6)[-1]
     a0, b0, c0, d0, e0, f0 = vh.T[:, -1]
     denom = b0 ** 2 - 4 * a0 * c0
     msg = "Can't fit to an ellipse!!!"
-- 
2.43.0


From e33a3d60dab70616fae8c550b9e1cf2d77a7ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:29 +0000
Subject: [PATCH 39/48] fix: subtracting dark-field images of unsigned integers
 from projections wrapped around in stack readers

---
 algotom/io/loadersaver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index ce32c2f..91af61b 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -679,7 +679,7 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
                              "the same as projection image "
                              "({0}, {1})".format(height, width))
         else:
-            flat_ave = flat_field[top: bot, left:right]
+            flat_ave = np.float32(flat_field[top: bot, left:right])
     else:
         flat_ave = np.ones((height1, width1), dtype=np.float32)
     if dark_field is not None:
@@ -688,7 +688,7 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
                              "the same as projection image "
                              "({0}, {1})".format(height, width))
         else:
-            dark_ave = dark_field[top: bot, left:right]
+            dark_ave = np.float32(dark_field[top: bot, left:right])
     for i in range(num_img):
         if dark_field is None:
             if len(list_dark_idx) != 0:
@@ -895,7 +895,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
                              "the same as projection image")
     else:
         dark_field = np.zeros((height, width))
-    return flat_field, dark_field
+    return np.float32(flat_field), np.float32(dark_field)
 
 
 def get_reference_sample_stacks(proj_idx, ref_path, sam_path, ref_key, sam_key,
-- 
2.43.0


From 57c3a0f6327c3be464ccac6f2f41d42d26c207f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:30 +0000
Subject: [PATCH 40/48] fix: vertical reconstruction of unsigned integer images
 wrapped around below the dark-field

---
 algotom/rec/vertrec.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index c7b55d2..7a6e599 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -567,8 +567,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
@@ -595,7 +595,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
     for i in range(num_iter):
         start = i * chunk_size + proj_start
         stop = start + chunk_size
-        img_chunk = projections[start:stop, top:bot, left:right]
+        img_chunk = np.float32(
+            projections[start:stop, top:bot, left:right])
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
@@ -637,7 +638,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
     if num_rest != 0:
         start = num_iter * chunk_size + proj_start
         stop = start + num_rest
-        img_chunk = projections[start:stop, top:bot, left:right]
+        img_chunk = np.float32(
+            projections[start:stop, top:bot, left:right])
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
@@ -839,8 +841,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
@@ -868,7 +870,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
     for i in range(num_iter):
         start = i * chunk_size + proj_start
         stop = start + chunk_size
-        img_chunk = projections[start:stop, top:bot, left:right]
+        img_chunk = np.float32(
+            projections[start:stop, top:bot, left:right])
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
@@ -914,7 +917,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
     if num_rest != 0:
         start = num_iter * chunk_size + proj_start
         stop = start + num_rest
-        img_chunk = projections[start:stop, top:bot, left:right]
+        img_chunk = np.float32(
+            projections[start:stop, top:bot, left:right])
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
@@ -1116,8 +1120,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
@@ -1145,7 +1149,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
     for i in range(num_iter):
         start = i * chunk_size + proj_start
         stop = start + chunk_size
-        img_chunk = projections[start:stop, top:bot, left:right]
+        img_chunk = np.float32(
+            projections[start:stop, top:bot, left:right])
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
@@ -1191,7 +1196,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
     if num_rest != 0:
         start = num_iter * chunk_size + proj_start
         stop = start + num_rest
-        img_chunk = projections[start:stop, top:bot, left:right]
+        img_chunk = np.float32(
+            projections[start:stop, top:bot, left:right])
         if flat_correction:
             img_chunk = (img_chunk - dark) / flat_dark
         if apply_log:
-- 
2.43.0


From afe12cc216dc4436af8723bc070a51c4bde55b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:30 +0000
Subject: [PATCH 41/48] fix: gradient of unsigned integer images wrapped around
 in phase correlation

---
 algotom/prep/calculation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 02e83da..a433b28 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -728,6 +728,7 @@ def complex_gradient(mat):
     """
     Return complex gradient of a 2D array.
     """
+    mat = 1.0 * mat
     mat1a = np.roll(mat, -2, axis=1)
     mat2a = mat1a - mat
     mat2a[:, :2] = 0.0
-- 
2.43.0


From 52b2cb6c090199550788dddb9c9defc71517ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:30 +0000
Subject: [PATCH 42/48] fix: UMPA tracking of unsigned integer images wrapped
 around

---
 algotom/util/correlation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index 94d621d..6876aa8 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -3346,6 +3346,7 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
         raise ValueError("Shapes of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin) = "
                          "{1} x {1}".format((height, width), als_size))
+    ref_mat, mat = 1.0 * ref_mat, 1.0 * mat
     win_1d = make_smoothing_window(filter_name, win_size)
     window = np.multiply.outer(win_1d, win_1d)
     window = window / np.sum(window)
-- 
2.43.0


From 42741dd93d0f602bd13656f7b4a7b6a0e98ac4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:30 +0000
Subject: [PATCH 43/48] fix: frequency separation and regularization of
 unsigned integer images wrapped around

---
 algotom/util/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 5fbffd0..90ba781 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -291,7 +291,7 @@ def separate_frequency_component(mat, axis=0, window=None):
 
     list_sign = np.power(-1.0, np.arange(ncol + 2 * pad))
     mat_pad = np.pad(mat, ((0, 0), (pad, pad)), mode='reflect')
-    mat_smooth = np.copy(mat)
+    mat_smooth = 1.0 * mat
     for i, line in enumerate(mat_pad):
         mat_smooth[i] = np.real(
             fft.ifft(fft.fft(line * list_sign) * window) *
@@ -875,6 +875,7 @@ def apply_1d_regularizer(list_data, sijmat):
     Supplementary method for the method of "apply_regularization_filter".
     To apply a regularizer to an 1D-array.
     """
+    list_data = 1.0 * list_data
     ncol = len(list_data)
     list_grad = np.zeros(ncol, dtype=np.float32)
     list_grad[1:-1] = (-1) * np.diff(list_data, 2)
-- 
2.43.0


From d720b5a35fef85dbb9c1456310d6f78386a08743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:30 +0000
Subject: [PATCH 44/48] fix: weights and flat-field correction in conversion of
 unsigned integer images

---
 algotom/prep/conversion.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 33f9100..45bf180 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -58,8 +58,8 @@ def make_weight_matrix(mat1, mat2, overlap, side):
         to the right side.
     """
     overlap = int(np.floor(overlap))
-    wei_mat1 = np.ones_like(mat1)
-    wei_mat2 = np.ones_like(mat2)
+    wei_mat1 = np.ones_like(mat1, dtype=np.float32)
+    wei_mat2 = np.ones_like(mat2, dtype=np.float32)
     if side == 1:
         list_down = np.linspace(1.0, 0.0, overlap)
         list_up = 1.0 - list_down
@@ -423,7 +423,7 @@ def extend_sinogram(sino_360, cor, apply_log=True):
     if apply_log is True:
         sino_360 = -np.log(sino_360)
     else:
-        sino_360 = np.copy(sino_360)
+        sino_360 = 1.0 * sino_360
     (nrow, ncol) = sino_360.shape
     xcenter = (ncol - 1.0) * 0.5
     if isinstance(cor, tuple):
@@ -533,7 +533,8 @@ def generate_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
     if angles is None:
         step_angle = 180.0 / (num_proj - 1)
         angles = np.arange(0, depth0) * step_angle
-    flat_dark = flat - dark
+    dark = np.float32(dark)
+    flat_dark = np.float32(flat) - dark
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
     if scan_type == "180":
@@ -645,7 +646,8 @@ def generate_full_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
     if angles is None:
         step_angle = 180.0 / (num_proj - 1)
         angles = np.arange(0, depth0) * step_angle
-    flat_dark = flat - dark
+    dark = np.float32(dark)
+    flat_dark = np.float32(flat) - dark
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
     if scan_type == "180":
-- 
2.43.0


From 827a8f2240abbb88d9cb84a41692f80f844b4dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:36 +0000
Subject: [PATCH 45/48] fix: stripe removal of unsigned integer sinograms
 wrapped around

---
 algotom/prep/removal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index a15f2db..5f6cc27 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -344,7 +344,7 @@ def remove_dead_stripe(sinogram, snr=3.0, size=51, residual=True,
     ----------
     [1] : https://doi.org/10.1364/OE.26.028396
     """
-    sinogram = np.copy(sinogram)
+    sinogram = 1.0 * sinogram
     (nrow, ncol) = sinogram.shape
     sino_smooth = np.apply_along_axis(ndi.uniform_filter1d, 0, sinogram,
                                       smooth_strength)
@@ -483,7 +483,7 @@ def remove_stripe_based_normalization(sinogram, sigma=15, num_chunk=1,
           " 'filter_name', 'para1': parameter_1, 'para2': parameter_2}" \
           "\n Note that the filter must be a 1D-filter."
     (nrow, _) = sinogram.shape
-    sinogram = np.copy(sinogram)
+    sinogram = 1.0 * sinogram
     sino_index = None
     if sort is True:
         sinogram, sino_index = util.sort_forward(sinogram, axis=0)
@@ -555,7 +555,7 @@ def remove_stripe_based_regularization(sinogram, alpha=0.0005, num_chunk=1,
     [2] : https://doi.org/10.1364/OE.26.028396
     """
     (nrow, ncol) = sinogram.shape
-    sinogram = np.copy(sinogram)
+    sinogram = 1.0 * sinogram
     sino_index = None
     if sort is True:
         sinogram, sino_index = util.sort_forward(sinogram, axis=0)
@@ -756,7 +756,7 @@ def remove_stripe_based_interpolation(sinogram, snr=3.0, size=51,
     msg = "\n Please use the dictionary format: options={'method':" \
           " 'filter_name', 'para1': parameter_1, 'para2': parameter_2}"
     drop_ratio = np.clip(drop_ratio, 0.0, 0.8)
-    sinogram = np.copy(sinogram)
+    sinogram = 1.0 * sinogram
     (nrow, ncol) = sinogram.shape
     ndrop = int(0.5 * drop_ratio * nrow)
     sino_sort = np.sort(sinogram, axis=0)
-- 
2.43.0


From 3c674535ee60121facaaefcab5c1ffca09a96881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:07 +0000
Subject: [PATCH 46/48] fix: sub-pixel shifts of unsigned integer images were
 rounded and clipped in conversion

---
 algotom/prep/conversion.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 45bf180..4de6c78 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -111,11 +111,11 @@ def stitch_image(mat1, mat2, overlap, side, wei_mat1=None, wei_mat2=None,
     if sub_pixel != 0.0:
         half = 0.5 * sub_pixel
         if side == 1:
-            mat1 = shift(mat1, (0, half), mode='nearest')
-            mat2 = shift(mat2, (0, -half), mode='nearest')
+            mat1 = shift(1.0 * mat1, (0, half), mode='nearest')
+            mat2 = shift(1.0 * mat2, (0, -half), mode='nearest')
         else:
-            mat1 = shift(mat1, (0, -half), mode='nearest')
-            mat2 = shift(mat2, (0, half), mode='nearest')
+            mat1 = shift(1.0 * mat1, (0, -half), mode='nearest')
+            mat2 = shift(1.0 * mat2, (0, half), mode='nearest')
     if nrow1 != nrow2:
         raise ValueError("Two images are not at the same height!!!")
     if (wei_mat1 is None) or (wei_mat2 is None):
@@ -180,11 +180,11 @@ def join_image(mat1, mat2, joint_width, side, norm=True, total_width=None):
     if sub_pixel != 0.0:
         half = 0.5 * sub_pixel
         if side == 1:
-            mat1 = shift(mat1, (0, -half), mode='nearest')
-            mat2 = shift(mat2, (0, half), mode='nearest')
+            mat1 = shift(1.0 * mat1, (0, -half), mode='nearest')
+            mat2 = shift(1.0 * mat2, (0, half), mode='nearest')
         else:
-            mat1 = shift(mat1, (0, half), mode='nearest')
-            mat2 = shift(mat2, (0, -half), mode='nearest')
+            mat1 = shift(1.0 * mat1, (0, half), mode='nearest')
+            mat2 = shift(1.0 * mat2, (0, -half), mode='nearest')
     if nrow1 != nrow2:
         raise ValueError("Two images are not at the same height!!!")
     total_width0 = ncol1 + ncol2 + joint_int
@@ -390,8 +390,8 @@ def convert_sinogram_180_to_360(sino_180, center):
     (nrow, ncol) = sino_180.shape
     xcenter = (ncol - 1.0) / 2.0
     shift_x = xcenter - center
-    sino_flip = shift(np.fliplr(shift(sino_180, (0, shift_x), mode='nearest')),
-                      (0, -shift_x), mode='nearest')
+    sino_flip = shift(1.0 * sino_180, (0, shift_x), mode='nearest')
+    sino_flip = shift(np.fliplr(sino_flip), (0, -shift_x), mode='nearest')
     return np.vstack((sino_180, sino_flip[1:]))
 
 
-- 
2.43.0


From eeaa99b2ea61f9517a813b2664712fcf3ad65d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:51 +0000
Subject: [PATCH 47/48] fix: metrics of integer centers were truncated in
 find_center_vertical_slice

---
 algotom/rec/vertrec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index 7a6e599..40d6f55 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -1347,7 +1347,7 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
     if ramp_filter is None:
         ramp_filter = "after"
     list_center = np.arange(start, stop + step, step)
-    list_metric = np.zeros_like(list_center)
+    list_metric = np.zeros(len(list_center))
     num_metric = len(list_metric)
     (num_proj, height, width) = projections.shape
     if angles is None:
-- 
2.43.0


From 698265d530d7539e122c0a6e7dea818179350b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:38 +0000
Subject: [PATCH 48/48] fix: reconstruction of integer sinograms without
 logarithm wrapped around

---
 algotom/rec/reconstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 4a632f0..2efdbe8 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -460,7 +460,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
             recon = recon * mask
     else:
         if ncore == 1:
-            sino_filtered = np.zeros_like(sinogram)
+            sino_filtered = np.zeros(sinogram.shape, dtype=np.float32)
             for i in range(num_sino):
                 sino_filtered[:, i, :] = apply_ramp_filter(sinogram[:, i, :],
                                                            ramp_win,
@@ -755,7 +755,7 @@ def __dfi_handle_sinogram(sinogram0, angles, center, pad_rate, pad_mode):
     Supplementary method for the DFI reconstruction method.
     Shift and pad sinogram.
     """
-    sinogram = np.squeeze(sinogram0)
+    sinogram = 1.0 * np.squeeze(sinogram0)
     if len(sinogram.shape) == 3:
         (nrow, num_sino, ncol) = sinogram.shape
         if ncol % 2 == 0:
-- 
2.43.0

