From 2e9e36eb149305ffc26e8405676395c044b136a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:16 +0000
Subject: [PATCH 01/28] fix: trim repeats until no uniform border is left

Trimming rows can turn the remaining outer columns into uniform borders.
One pass over the four sides left those in place although the documentation
promises that borders are removed repeatedly until none is left.
---
 src/trim.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/trim.c b/src/trim.c
index 63680ee..04c32b1 100644
--- a/src/trim.c
+++ b/src/trim.c
@@ -82,6 +82,11 @@ uint8_t *fcv_trim(
   uint32_t top = 0;
   uint32_t right = w;
   uint32_t bottom = h;
+  uint32_t last_width, last_height;
+
+trim_again:
+  last_width = right - left;
+  last_height = bottom - top;
 
   // Trim from the left
   while (left < right) {
@@ -172,6 +177,12 @@ uint8_t *fcv_trim(
     }
   }
 
+  // Removing rows can make the outer columns uniform (and vice versa),
+  // so repeat until nothing more can be removed
+  if (right - left != last_width || bottom - top != last_height) {
+    goto trim_again;
+  }
+
   // Calculate new dimensions
   uint32_t new_width = right - left;
   uint32_t new_height = bottom - top;
@@ -251,6 +262,11 @@ uint8_t *fcv_trim_threshold(
   uint32_t top = 0;
   uint32_t right = w;
   uint32_t bottom = h;
+  uint32_t last_width, last_height;
+
+trim_again:
+  last_width = right - left;
+  last_height = bottom - top;
 
   // Trim from the left
   while (left < right) {
@@ -340,6 +356,12 @@ uint8_t *fcv_trim_threshold(
     }
   }
 
+  // Removing rows can make the outer columns uniform (and vice versa),
+  // so repeat until nothing more can be removed
+  if (right - left != last_width || bottom - top != last_height) {
+    goto trim_again;
+  }
+
   // Calculate new dimensions
   uint32_t new_width = right - left;
   uint32_t new_height = bottom - top;
-- 
2.43.0


From b9369049f07286c97ab69c1eb2a62b2aa295c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:16 +0000
Subject: [PATCH 02/28] fix: treat invalid EXIF orientation values as upright

The function is documented to return 1-8 or 1 if unavailable, but passed
any 16-bit value found in the file on to the caller.
---
 src/exif.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exif.c b/src/exif.c
index 50415a2..d69e0ac 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -96,7 +96,8 @@ int32_t fcv_get_exif_orientation(char const *filename) {
         if (tag == 0x0112) { // Orientation
           uint16_t orientation = read_u16(file, is_little_endian);
           fclose(file);
-          return (int32_t)orientation;
+          // Values outside of 1-8 are not valid EXIF orientations
+          return orientation >= 1 && orientation <= 8 ? (int32_t)orientation : 1;
         }
         else {
           fseek(file, 4, SEEK_CUR); // Skip value/offset
-- 
2.43.0


From 5ebbe82048e03ed57b1094d218625586bb8bc0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:16 +0000
Subject: [PATCH 03/28] fix: avoid shifting into the sign bit when reading EXIF
 offsets

---
 src/exif.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exif.c b/src/exif.c
index d69e0ac..d5baa0f 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -23,9 +23,11 @@ static uint32_t read_u32(FILE *file, int is_little_endian) {
     return 0;
   }
   if (is_little_endian) {
-    return (uint32_t)(buf[0] | (buf[1] << 8) | (buf[2] << 16) | (buf[3] << 24));
+    return (uint32_t)(buf[0] | (buf[1] << 8) | (buf[2] << 16)) |
+           ((uint32_t)buf[3] << 24);
   }
-  return (uint32_t)((buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3]);
+  return ((uint32_t)buf[0] << 24) |
+         (uint32_t)((buf[1] << 16) | (buf[2] << 8) | buf[3]);
 }
 
 int32_t fcv_get_exif_orientation(char const *filename) {
-- 
2.43.0


From cc5f7f2d7825c6aab38320715c2d79bfbec3f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:16 +0000
Subject: [PATCH 04/28] fix: clamp the thresholds of double thresholding to
 0-255

An Otsu threshold below 16 or above 239 wrapped around when converted to
uint8_t, which inverted or flattened the result.
---
 src/conversion.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index fb47d7c..b7b4b84 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -315,11 +315,14 @@ uint8_t *fcv_otsu_threshold_rgba(
   const int32_t threshold_range_offset = 16;
 
   if (use_double_threshold) {
+    // Keep both thresholds in the range of uint8_t
+    int32_t lower_threshold = optimal_threshold - threshold_range_offset;
+    int32_t upper_threshold = optimal_threshold + threshold_range_offset;
     apply_double_threshold(
       img_length_px,
       grayscale_img,
-      optimal_threshold - threshold_range_offset,
-      optimal_threshold + threshold_range_offset
+      lower_threshold < 0 ? 0 : lower_threshold,
+      upper_threshold > 255 ? 255 : upper_threshold
     );
   }
   else {
-- 
2.43.0


From e05fd96f715da9d29bc8313d356b780a86af6af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:40 +0000
Subject: [PATCH 05/28] fix: check allocation of the perspective transform
 matrix

---
 src/perspectivetransform.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 5c4f496..94d5c28 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -232,6 +232,9 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   }
 
   Matrix3x3 *result = malloc(sizeof(Matrix3x3));
+  if (!result) { // Memory allocation failed
+    return &identity;
+  }
   *result = (Matrix3x3){x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], 1.0};
 
 #ifdef DEBUG_LOGGING
-- 
2.43.0


From f5375145fabece7be82ac4616049612aae515e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:40 +0000
Subject: [PATCH 06/28] fix: skip out-of-image coordinates before converting
 them to integers

Source coordinates beyond the int32_t range made the conversion and the
following x0 + 1 / y0 + 1 undefined.
---
 src/perspectivetransform.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 94d5c28..9415a4e 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -314,6 +314,12 @@ uint8_t *fcv_apply_matrix_3x3(
       double srcX = (tmat->m00 * out_x + tmat->m01 * out_y + tmat->m02) / w;
       double srcY = (tmat->m10 * out_x + tmat->m11 * out_y + tmat->m12) / w;
 
+      // Skip coordinates outside of the source image (and NaN), as they might
+      // not be representable as integers
+      if (!(srcX >= 0 && srcX < in_width && srcY >= 0 && srcY < in_height)) {
+        continue;
+      }
+
       // Convert source coordinates to integers
       int32_t x0 = (int32_t)floor(srcX);
       int32_t y0 = (int32_t)floor(srcY);
-- 
2.43.0


From bd0b654bcc5429396c056fa100fc4d8dbbc14f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:14 +0000
Subject: [PATCH 07/28] fix: read RGB input of the Sobel edge detection with 3
 bytes per pixel

3-channel images are documented as supported, but were read as RGBA,
which mixed up the channels and read past the end of the image.
---
 src/sobel_edge_detection.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sobel_edge_detection.c b/src/sobel_edge_detection.c
index 755e692..a1becd0 100644
--- a/src/sobel_edge_detection.c
+++ b/src/sobel_edge_detection.c
@@ -57,8 +57,21 @@ uint8_t *fcv_sobel_edge_detection(
     grayscale_data = (uint8_t *)data;
     allocated_grayscale = false;
   }
+  else if (channels == 3) {
+    // RGB input, convert to grayscale
+    grayscale_data = malloc(img_length_px);
+    if (!grayscale_data) {
+      return NULL;
+    }
+    for (size_t i = 0; i < img_length_px; i++) {
+      grayscale_data[i] = (data[i * 3] * R_WEIGHT + data[i * 3 + 1] * G_WEIGHT +
+                           data[i * 3 + 2] * B_WEIGHT) >>
+                          8;
+    }
+    allocated_grayscale = true;
+  }
   else {
-    // Multi-channel input, convert to grayscale
+    // RGBA input, convert to grayscale
     grayscale_data = fcv_rgba_to_grayscale(width, height, data);
     if (!grayscale_data) {
       return NULL;
-- 
2.43.0


From 8df2b13cdc4f0f073075c3bf4efd14170dd120d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:14 +0000
Subject: [PATCH 08/28] fix: reject images too large for the indices of the
 Foerstner measure

width * height wrapped around in 32 bits (e.g. for 65536x65536), so that the
buffers were far too small.
---
 src/foerstner_corner.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index 9743a2f..5cd57f2 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -27,6 +27,11 @@ uint8_t *fcv_foerstner_corner(
     return NULL;
   }
 
+  // Check for overflow: width * height must fit into the 32-bit pixel indices
+  if (width > INT32_MAX / height) {
+    return NULL;
+  }
+
   // Allocate memory for gradient images
   double *grad_x = calloc(width * height, sizeof(double));
   double *grad_y = calloc(width * height, sizeof(double));
-- 
2.43.0


From 69d3c0852f27b756abe7096898fda079ce3c443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:14 +0000
Subject: [PATCH 09/28] fix: do not smooth past images smaller than the
 Foerstner kernel

height - half_kernel and width - half_kernel wrapped around for images
smaller than half the kernel, which read and wrote out of bounds.
---
 src/foerstner_corner.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index 5cd57f2..e1bd4fb 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -115,8 +115,8 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Simple box filter smoothing
-  for (uint32_t y = half_kernel; y < height - half_kernel; y++) {
-    for (uint32_t x = half_kernel; x < width - half_kernel; x++) {
+  for (uint32_t y = half_kernel; y + half_kernel < height; y++) {
+    for (uint32_t x = half_kernel; x + half_kernel < width; x++) {
       uint32_t idx = y * width + x;
       double sum_xx = 0.0, sum_xy = 0.0, sum_yy = 0.0;
       int32_t count = 0;
-- 
2.43.0


From 81305dc927ff6e3e796821aca5c92fd63266944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:14 +0000
Subject: [PATCH 10/28] fix: reject invalid sigma values for the Foerstner
 measure

Converting NaN, infinite or huge values to a kernel size is undefined.
---
 src/foerstner_corner.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index e1bd4fb..8f0e534 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -27,6 +27,11 @@ uint8_t *fcv_foerstner_corner(
     return NULL;
   }
 
+  // Validate sigma
+  if (!isfinite(sigma) || sigma > INT32_MAX / 3) {
+    return NULL;
+  }
+
   // Check for overflow: width * height must fit into the 32-bit pixel indices
   if (width > INT32_MAX / height) {
     return NULL;
-- 
2.43.0


From 0a00122f02b3bb8529e99c1abf27286fe0662ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 11/28] fix: handle fewer than 4 detected corner peaks

With 3 peaks, sort_corners() wrote the interpolated fourth corner past the end
of the buffer, with 1 or 2 peaks uninitialized memory was returned, and
without any peaks the modulo by zero crashed.
---
 src/corner_detection.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index ff61e14..24db801 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -384,8 +384,21 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     exit(EXIT_FAILURE);
   }
 
+  // At least 3 corners are necessary to determine a quadrilateral
+  if (peaks->count < 3) {
+    free(peaks->points);
+    free(peaks);
+    return default_corners;
+  }
+
   // First, sort all corners to get them in clockwise order
-  Point2D *sorted_result = malloc(peaks->count * sizeof(Point2D));
+  // (Completes 3 corners with an interpolated fourth one)
+  uint32_t num_corners = peaks->count < 4 ? 4 : peaks->count;
+  Point2D *sorted_result = malloc(num_corners * sizeof(Point2D));
+  if (!sorted_result) {
+    fprintf(stderr, "Error: Failed to allocate memory for corners\n");
+    exit(EXIT_FAILURE);
+  }
   sort_corners(
     width,
     height,
@@ -494,17 +507,16 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     free(angle_indices);
   }
   else {
-    // Use all available corners if we have 4 or fewer, already in clockwise
-    // order
+    // Use all four corners, already in clockwise order
     sorted_corners =
       (Corners){.tl_x = sorted_result[0].x * scale_x,
                 .tl_y = sorted_result[0].y * scale_y,
-                .tr_x = sorted_result[1 % peaks->count].x * scale_x,
-                .tr_y = sorted_result[1 % peaks->count].y * scale_y,
-                .br_x = sorted_result[2 % peaks->count].x * scale_x,
-                .br_y = sorted_result[2 % peaks->count].y * scale_y,
-                .bl_x = sorted_result[3 % peaks->count].x * scale_x,
-                .bl_y = sorted_result[3 % peaks->count].y * scale_y};
+                .tr_x = sorted_result[1].x * scale_x,
+                .tr_y = sorted_result[1].y * scale_y,
+                .br_x = sorted_result[2].x * scale_x,
+                .br_y = sorted_result[2].y * scale_y,
+                .bl_x = sorted_result[3].x * scale_x,
+                .bl_y = sorted_result[3].y * scale_y};
   }
 
   free(sorted_result);
-- 
2.43.0


From 207cadd5a2907065a1a2b0ee8963717ec985974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 12/28] fix: free the segmented image and the peaks after
 corner detection

---
 src/corner_detection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index 24db801..f84589a 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -258,6 +258,8 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     );
   }
 
+  free((void *)segmented_image_wide);
+
 #ifdef DEBUG_LOGGING
   out_img.width = out_width;
   out_img.height = out_height;
@@ -614,6 +616,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)resized_image);
 #endif
 
+  free(peaks->points);
   free(peaks);
   return sorted_corners;
 }
-- 
2.43.0


From 7efac42b68402fd382e4ca651e1e44201184e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 13/28] fix: resize to the requested size despite rounding
 errors

width * (target / width) can be slightly smaller than target. Truncating it
made the image one pixel too small, e.g. for resizing from 11 to 15 pixels.
---
 src/conversion.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index b7b4b84..e45466b 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -638,8 +638,9 @@ uint8_t *fcv_resize(
     return NULL;
   }
 
-  *out_width = (uint32_t)new_width_d;
-  *out_height = (uint32_t)new_height_d;
+  // A factor like 15.0 / 11 must not end up one pixel short due to rounding
+  *out_width = (uint32_t)(new_width_d + 1e-6);
+  *out_height = (uint32_t)(new_height_d + 1e-6);
 
   if (*out_width == 0 || *out_height == 0) {
     return NULL;
-- 
2.43.0


From 51d5344fa377fe643e3f53865de3dfe1637ee0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 14/28] fix: reject circle parameters which overflow the
 Bresenham algorithm

Center coordinates were converted to int32_t without a range check and
4 * (x - y) overflows for radii above INT32_MAX / 4.
---
 src/draw.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index 7c0375c..914e044 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -142,8 +142,9 @@ void fcv_draw_circle(
     return;
   }
 
-  // Reject excessive radius to prevent integer overflow in Bresenham algorithm
-  if (radius > INT32_MAX / 2) {
+  // Reject excessive values to prevent integer overflow in Bresenham algorithm
+  if (radius > INT32_MAX / 4 || fabs(center_x) > INT32_MAX / 2 ||
+      fabs(center_y) > INT32_MAX / 2) {
     return;
   }
 
@@ -222,8 +223,9 @@ void fcv_draw_disk(
     return;
   }
 
-  // Reject excessive radius to prevent integer overflow in Bresenham algorithm
-  if (radius > INT32_MAX / 2) {
+  // Reject excessive values to prevent integer overflow in Bresenham algorithm
+  if (radius > INT32_MAX / 4 || fabs(center_x) > INT32_MAX / 2 ||
+      fabs(center_y) > INT32_MAX / 2) {
     return;
   }
 
-- 
2.43.0


From 41e8fc06eaf28aa92ba00015245802e673c0a377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:46 +0000
Subject: [PATCH 15/28] fix: align the box filter of resize with the source
 pixels

The window was shifted by half a source pixel. Shrinking one axis while
enlarging the other left it outside of the image, producing black lines.
---
 src/conversion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index e45466b..299b026 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -665,8 +665,8 @@ uint8_t *fcv_resize(
   for (uint32_t out_y = 0; out_y < *out_height; out_y++) {
     for (uint32_t out_x = 0; out_x < *out_width; out_x++) {
       if (resize_x < 1.0 || resize_y < 1.0) {
-        double src_x = (out_x + 0.5) / resize_x - 0.5;
-        double src_y = (out_y + 0.5) / resize_y - 0.5;
+        double src_x = (out_x + 0.5) / resize_x;
+        double src_y = (out_y + 0.5) / resize_y;
 
         double filter_size_x = 1.0 / resize_x;
         double filter_size_y = 1.0 / resize_y;
-- 
2.43.0


From 29b015b3e239fd8aa64f33a6d55a782ceeaf78ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:59 +0000
Subject: [PATCH 16/28] fix: reject watershed markers too large to convert to
 integers

---
 src/watershed_segmentation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/watershed_segmentation.c b/src/watershed_segmentation.c
index 5457a4f..91194ed 100644
--- a/src/watershed_segmentation.c
+++ b/src/watershed_segmentation.c
@@ -125,6 +125,11 @@ uint8_t *fcv_watershed_segmentation(
       return NULL;
     }
 
+    // Skip conversions to int32_t which would overflow
+    if (fabs(markers[m].x) > INT32_MAX || fabs(markers[m].y) > INT32_MAX) {
+      return NULL;
+    }
+
     int32_t marker_x = (int32_t)markers[m].x;
     int32_t marker_y = (int32_t)markers[m].y;
 
-- 
2.43.0


From 5c2275f3c3e324f671aac72dec00348339a7c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 17/28] fix: do not loop forever on JPEG files truncated after
 a marker

---
 src/exif.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exif.c b/src/exif.c
index d5baa0f..58ef322 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -54,6 +54,9 @@ int32_t fcv_get_exif_orientation(char const *filename) {
     }
 
     uint16_t size = read_u16(file, 0); // Markers are always big-endian
+    if (size < 2) { // Truncated or malformed, as the size includes itself
+      break;
+    }
 
     if (marker[1] == 0xE1) { // APP1 - EXIF
       uint8_t exif_header[6];
-- 
2.43.0


From 20fe60a23f641679fc59a77d42f370a230514e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 18/28] fix: compute the size of image copies in the CLI
 without 32-bit overflow

---
 src/cli.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 41a3164..f219766 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -930,9 +930,10 @@ uint8_t *apply_operation(
     printf("  }\n");
 
     // Return a copy of the input data without modification
-    uint8_t *result = malloc(*width * *height * 4);
+    size_t img_length_byte = (size_t)(*width) * (*height) * 4;
+    uint8_t *result = malloc(img_length_byte);
     if (result) {
-      memcpy(result, input_data, *width * *height * 4);
+      memcpy(result, input_data, img_length_byte);
     }
     return result;
   }
@@ -945,7 +946,7 @@ uint8_t *apply_operation(
     printf("    Bottom-left:  (%.0f, %.0f)\n", cs.bl_x, cs.bl_y);
 
     // Create a copy of the input data and draw disks at detected corners
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)(*width) * (*height) * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       return NULL;
@@ -990,7 +991,7 @@ uint8_t *apply_operation(
     double center_y = param3;
     double radius = param;
 
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)(*width) * (*height) * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       free(param_copy);
@@ -1024,7 +1025,7 @@ uint8_t *apply_operation(
     double center_y = param3;
     double radius = param;
 
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)(*width) * (*height) * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       free(param_copy);
-- 
2.43.0


From 02e4aa295a90da8e8c7c3786169f77cbf5a7675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 19/28] fix: do not cut off string parameters of CLI operations
 after 63 characters

---
 src/cli.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index f219766..7fb9b8c 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -38,7 +38,7 @@ typedef struct {
   double param2;
   double param3;
   double param4;
-  char param_str[64]; // For string parameters like "50%" or "200x300"
+  char *param_str; // For string parameters like "50%" or "200x300"
   int32_t has_param;
   int32_t has_param2;
   int32_t has_param3;
@@ -156,6 +156,9 @@ Pipeline *create_pipeline(void) {
 
 void free_pipeline(Pipeline *p) {
   if (p) {
+    for (int32_t i = 0; i < p->count; i++) {
+      free(p->ops[i].param_str);
+    }
     free(p->ops);
     free(p);
   }
@@ -206,17 +209,9 @@ void add_operation(
   p->ops[p->count].param4 = param4;
   p->ops[p->count].has_param4 = has_param4;
 
-  if (has_string_param && param_str) {
-    strncpy(
-      p->ops[p->count].param_str,
-      param_str,
-      sizeof(p->ops[p->count].param_str) - 1
-    );
-    p->ops[p->count].param_str[sizeof(p->ops[p->count].param_str) - 1] = '\0';
-  }
-  else {
-    p->ops[p->count].param_str[0] = '\0';
-  }
+  // Keep the whole string, as lists of markers can have any length
+  p->ops[p->count].param_str =
+    strdup(has_string_param && param_str ? param_str : "");
   p->ops[p->count].has_string_param = has_string_param;
 
   p->count++;
-- 
2.43.0


From d153be39efb3cca0472e3fe2c5d74cff06700329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:53 +0000
Subject: [PATCH 20/28] fix: reject CLI parameters which are not representable
 as integers

---
 src/cli.c | 53 ++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 7fb9b8c..576d7d6 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -804,6 +804,19 @@ int32_t parse_pipeline(
   return 1;
 }
 
+/**
+ * Convert an operation parameter to an integer (fraction is dropped)
+ * Returns 1 on success, 0 if the value is not representable
+ */
+static int32_t param_to_int32(double value, int32_t *result) {
+  if (!(value > INT_MIN - 1.0 && value < INT_MAX + 1.0)) {
+    fprintf(stderr, "Error: parameter %g is out of range\n", value);
+    return 0;
+  }
+  *result = (int32_t)value;
+  return 1;
+}
+
 uint8_t *apply_operation(
   int32_t *width,
   int32_t *height,
@@ -1215,7 +1228,10 @@ uint8_t *apply_operation(
       fprintf(stderr, "Error: rotate requires an angle parameter\n");
       return NULL;
     }
-    int angle = (int)param;
+    int32_t angle;
+    if (!param_to_int32(param, &angle)) {
+      return NULL;
+    }
     // Normalize angle to 0-359 range
     angle = ((angle % 360) + 360) % 360;
     if (angle != 0 && angle != 90 && angle != 180 && angle != 270) {
@@ -1295,7 +1311,10 @@ uint8_t *apply_operation(
       return NULL;
     }
 
-    uint32_t border_width = (uint32_t)param;
+    int32_t border_width;
+    if (!param_to_int32(param, &border_width) || border_width < 0) {
+      return NULL;
+    }
     uint32_t output_width, output_height;
 
     uint8_t *result = fcv_add_border(
@@ -1303,7 +1322,7 @@ uint8_t *apply_operation(
       *height,
       4,
       param_str,
-      border_width,
+      (uint32_t)border_width,
       input_data,
       &output_width,
       &output_height
@@ -1322,6 +1341,11 @@ uint8_t *apply_operation(
       return NULL;
     }
 
+    int32_t radius;
+    if (!param_to_int32(param, &radius)) {
+      return NULL;
+    }
+
     // Convert RGBA to grayscale for binary morphology
     uint8_t *grayscale_data =
       fcv_rgba_to_grayscale(*width, *height, input_data);
@@ -1330,7 +1354,7 @@ uint8_t *apply_operation(
     }
 
     uint8_t *eroded =
-      fcv_binary_erosion_disk(grayscale_data, *width, *height, (int32_t)param);
+      fcv_binary_erosion_disk(grayscale_data, *width, *height, radius);
     free(grayscale_data);
 
     if (!eroded) {
@@ -1348,6 +1372,11 @@ uint8_t *apply_operation(
       return NULL;
     }
 
+    int32_t radius;
+    if (!param_to_int32(param, &radius)) {
+      return NULL;
+    }
+
     // Convert RGBA to grayscale for binary morphology
     uint8_t *grayscale_data =
       fcv_rgba_to_grayscale(*width, *height, input_data);
@@ -1356,7 +1385,7 @@ uint8_t *apply_operation(
     }
 
     uint8_t *dilated =
-      fcv_binary_dilation_disk(grayscale_data, *width, *height, (int32_t)param);
+      fcv_binary_dilation_disk(grayscale_data, *width, *height, radius);
     free(grayscale_data);
 
     if (!dilated) {
@@ -1374,6 +1403,11 @@ uint8_t *apply_operation(
       return NULL;
     }
 
+    int32_t radius;
+    if (!param_to_int32(param, &radius)) {
+      return NULL;
+    }
+
     // Convert RGBA to grayscale for binary morphology
     uint8_t *grayscale_data =
       fcv_rgba_to_grayscale(*width, *height, input_data);
@@ -1382,7 +1416,7 @@ uint8_t *apply_operation(
     }
 
     uint8_t *closed =
-      fcv_binary_closing_disk(grayscale_data, *width, *height, (int32_t)param);
+      fcv_binary_closing_disk(grayscale_data, *width, *height, radius);
     free(grayscale_data);
 
     if (!closed) {
@@ -1400,6 +1434,11 @@ uint8_t *apply_operation(
       return NULL;
     }
 
+    int32_t radius;
+    if (!param_to_int32(param, &radius)) {
+      return NULL;
+    }
+
     // Convert RGBA to grayscale for binary morphology
     uint8_t *grayscale_data =
       fcv_rgba_to_grayscale(*width, *height, input_data);
@@ -1408,7 +1447,7 @@ uint8_t *apply_operation(
     }
 
     uint8_t *opened =
-      fcv_binary_opening_disk(grayscale_data, *width, *height, (int32_t)param);
+      fcv_binary_opening_disk(grayscale_data, *width, *height, radius);
     free(grayscale_data);
 
     if (!opened) {
-- 
2.43.0


From e85eec5904eb4978580b632270e1b7b813d54187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:53 +0000
Subject: [PATCH 21/28] fix: reject negative output sizes of
 extract_document_to

---
 src/cli.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 576d7d6..667e315 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -632,8 +632,8 @@ int32_t parse_pipeline(
         char *x_pos = strchr(params_copy, 'x');
         if (x_pos) {
           *x_pos = '\0';
-          uint32_t out_width = (uint32_t)atoi(trim_whitespace(params_copy));
-          uint32_t out_height = (uint32_t)atoi(trim_whitespace(x_pos + 1));
+          int32_t out_width = atoi(trim_whitespace(params_copy));
+          int32_t out_height = atoi(trim_whitespace(x_pos + 1));
 
           if (out_width > 0 && out_height > 0) {
             add_operation(
-- 
2.43.0


From 94f407ae9758a29ae7356b64ccfe28c207ccca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:36 +0000
Subject: [PATCH 22/28] fix: check for failed segmentation and allocations in
 corner detection

---
 src/corner_detection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index f84589a..3e080b4 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -425,6 +425,10 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
       double angle_abs;
     } AngleIndex;
     AngleIndex *angle_indices = malloc(peaks->count * sizeof(AngleIndex));
+    if (!angles || !angle_indices) {
+      fprintf(stderr, "Error: Failed to allocate memory for angles\n");
+      exit(EXIT_FAILURE);
+    }
 
     for (uint32_t i = 0; i < peaks->count; i++) {
       // Get the three consecutive points for angle calculation
-- 
2.43.0


From 37e424ae06b56c3e1ccabcedca953da7c4ef6e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:36 +0000
Subject: [PATCH 23/28] fix: reject empty images in fcv_extract_document
 instead of aborting

---
 src/extract_document.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/extract_document.c b/src/extract_document.c
index 5d4f982..9d47b89 100644
--- a/src/extract_document.c
+++ b/src/extract_document.c
@@ -21,6 +21,11 @@ uint8_t *fcv_extract_document(
     return NULL;
   }
 
+  if (width == 0 || height == 0 || width > INT32_MAX || height > INT32_MAX) {
+    fprintf(stderr, "Error: Invalid image dimensions\n");
+    return NULL;
+  }
+
   // Step 1: Detect corners of the document
   Corners detected_corners = fcv_detect_corners(data, width, height);
 
@@ -81,6 +86,11 @@ uint8_t *fcv_extract_document_auto(
     return NULL;
   }
 
+  if (width == 0 || height == 0 || width > INT32_MAX || height > INT32_MAX) {
+    fprintf(stderr, "Error: Invalid image dimensions\n");
+    return NULL;
+  }
+
   // Step 1: Detect corners of the document
   Corners detected_corners = fcv_detect_corners(data, width, height);
 
-- 
2.43.0


From e563ea14cbbb850d1bbbe74f7e7938ab5e62f2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:36 +0000
Subject: [PATCH 24/28] fix: free transformation matrices which happen to be
 the identity

---
 src/extract_document.c | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/extract_document.c b/src/extract_document.c
index 9d47b89..f5c5fcf 100644
--- a/src/extract_document.c
+++ b/src/extract_document.c
@@ -9,6 +9,14 @@
 #include "flatcv.h"
 #endif
 
+// Free a transformation matrix, unless it is the statically allocated identity
+// matrix which is returned if there is no transformation
+static void free_transform(Matrix3x3 *transform_matrix) {
+  if (transform_matrix != fcv_calculate_perspective_transform(NULL, NULL)) {
+    free(transform_matrix);
+  }
+}
+
 uint8_t *fcv_extract_document(
   uint32_t width,
   uint32_t height,
@@ -61,15 +69,7 @@ uint8_t *fcv_extract_document(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free_transform(transform_matrix);
 
   return result;
 }
@@ -161,15 +161,7 @@ uint8_t *fcv_extract_document_auto(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free_transform(transform_matrix);
 
   return result;
 }
-- 
2.43.0


From 815bb3492d03d371cf2d7c8899788bec76db01b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:27 +0000
Subject: [PATCH 25/28] fix: report a failing EXIF rotation instead of
 exchanging the sides only

---
 src/cli.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 667e315..fb05ee0 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1629,10 +1629,14 @@ int32_t main(int32_t argc, char *argv[]) {
         break;
       }
 
-      if (rotated_data) {
+      if (!rotated_data) {
+        fprintf(stderr, "Error: Could not apply EXIF orientation\n");
         stbi_image_free(image_data);
-        image_data = rotated_data;
+        free_pipeline(pipeline);
+        return 1;
       }
+      stbi_image_free(image_data);
+      image_data = rotated_data;
     }
   }
 
-- 
2.43.0


From 8428b4671336049afbedc11aae82d13a68d47f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:09 +0000
Subject: [PATCH 26/28] fix: scale histogram bars without 32-bit overflow

---
 src/histogram.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/histogram.c b/src/histogram.c
index 398f17c..1b5d531 100644
--- a/src/histogram.c
+++ b/src/histogram.c
@@ -149,7 +149,7 @@ uint8_t *fcv_generate_histogram(
   for (int x = 0; x < 256; x++) {
     if (is_grayscale) {
       // Draw white histogram for grayscale
-      uint32_t bar_height = (hist_gray[x] * hist_height) / max_count;
+      uint32_t bar_height = (uint64_t)hist_gray[x] * hist_height / max_count;
       for (uint32_t y = 0; y < bar_height; y++) {
         uint32_t output_x = x;
         uint32_t output_y = hist_height - 1 - y;
@@ -163,11 +163,11 @@ uint8_t *fcv_generate_histogram(
     }
     else {
       // Draw overlapping colored histograms for RGB
-      uint32_t bar_height_r = (hist_r[x] * hist_height) / max_count;
+      uint32_t bar_height_r = (uint64_t)hist_r[x] * hist_height / max_count;
       uint32_t bar_height_g =
-        (channels >= 3) ? (hist_g[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? (uint64_t)hist_g[x] * hist_height / max_count : 0;
       uint32_t bar_height_b =
-        (channels >= 3) ? (hist_b[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? (uint64_t)hist_b[x] * hist_height / max_count : 0;
 
       uint32_t max_bar_height = bar_height_r;
       if (bar_height_g > max_bar_height) {
-- 
2.43.0


From 4683b797a1c91e9687180948b270cc3d08889157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:53 +0000
Subject: [PATCH 27/28] fix: treat blur radii too small for a kernel like no
 radius

---
 src/conversion.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index 299b026..5cad166 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -370,7 +370,11 @@ uint8_t *fcv_apply_gaussian_blur(
   }
   size_t img_length_byte = img_length_px * 4;
 
-  if (radius == 0) {
+  float sigma = radius / 3.0;
+  float sigma_sq = sigma * sigma;
+
+  // Without radius, or with one too small for a kernel, there is nothing to blur
+  if (radius == 0 || sigma_sq == 0) {
     uint8_t *copy = malloc(img_length_byte);
     if (!copy) {
       return NULL;
@@ -397,8 +401,6 @@ uint8_t *fcv_apply_gaussian_blur(
     return NULL;
   }
 
-  float sigma = radius / 3.0;
-  float sigma_sq = sigma * sigma;
   float two_sigma_sq = 2 * sigma_sq;
   float sqrt_two_pi_sigma = sqrt(2 * M_PI) * sigma;
 
-- 
2.43.0


From 04699434acba0048c4e06b43abffd917515f909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 28/28] fix: round blurred samples instead of truncating them

---
 src/conversion.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index 5cad166..b05a62e 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -440,9 +440,9 @@ uint8_t *fcv_apply_gaussian_blur(
       }
 
       uint32_t rgba_index = (y * width + x) * 4;
-      blurred_data[rgba_index] = r_sum / weight_sum;
-      blurred_data[rgba_index + 1] = g_sum / weight_sum;
-      blurred_data[rgba_index + 2] = b_sum / weight_sum;
+      blurred_data[rgba_index] = r_sum / weight_sum + 0.5f;
+      blurred_data[rgba_index + 1] = g_sum / weight_sum + 0.5f;
+      blurred_data[rgba_index + 2] = b_sum / weight_sum + 0.5f;
       blurred_data[rgba_index + 3] = 255;
     }
   }
@@ -485,9 +485,9 @@ uint8_t *fcv_apply_gaussian_blur(
       }
 
       uint32_t rgba_index = (y * width + x) * 4;
-      blurred_data[rgba_index] = r_sum / weight_sum;
-      blurred_data[rgba_index + 1] = g_sum / weight_sum;
-      blurred_data[rgba_index + 2] = b_sum / weight_sum;
+      blurred_data[rgba_index] = r_sum / weight_sum + 0.5f;
+      blurred_data[rgba_index + 1] = g_sum / weight_sum + 0.5f;
+      blurred_data[rgba_index + 2] = b_sum / weight_sum + 0.5f;
       blurred_data[rgba_index + 3] = 255;
     }
   }
-- 
2.43.0

