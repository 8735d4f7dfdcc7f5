/* Every subset of failing allocations.  The n-th allocation request of the
 * library fails exactly if bit n of the symbolic in_mask is set.  CASE selects
 * the operation, NRES is the number of blocks a successful result consists of. */
#include "verif.h"
#include "faultalloc.h"
#include "concretefp.h"
#include "binary_closing_disk.h"
#include "conversion.h"
#include "convert_to_binary.h"
#include "crop.h"
#include "draw.h"
#include "exif.h"
#include "extract_document.h"
#include "flip.h"
#include "foerstner_corner.h"
#include "corner_peaks.h"
#include "histogram.h"
#include "perspectivetransform.h"
#include "rgba_to_grayscale.h"
#include "rotate.h"
#include "single_to_multichannel.h"
#include "sobel_edge_detection.h"
#include "sort_corners.h"
#include "trim.h"
#include "watershed_segmentation.h"

#ifndef W
#define W 2
#endif
#ifndef H
#define H 2
#endif
#ifndef CH
#define CH 4
#endif
#ifndef NRES
#define NRES 1
#endif
#ifndef RAD
#define RAD 1
#endif
#ifndef NFAIL
#define NFAIL 31
#endif
#ifndef FRAME
#define FRAME 0
#endif

int main(void) {
  IN_U32(in_mask);
  fa_mask = in_mask;
#ifdef ALLFAIL
  fa_mask = UINT32_MAX;
#else
  ASSUME(in_mask < (1u << NFAIL));
#endif
  /* a fixed picture: the error paths do not depend on the pixels */
  uint8_t px[W * H * 4], keep[W * H * 4];
  for (int i = 0; i < W * H * 4; i++) {
    int p = i / CH, x = p % W, y = p / W;
    px[i] = (uint8_t)(37 * i + 11);
    if (FRAME && (x == 0 || y == 0 || x == W - 1 || y == H - 1))
      px[i] = 7;
    keep[i] = px[i];
  }
  int32_t sw = W, sh = H;
  uint32_t ow = 1, oh = 1;
  void *r = NULL;
#if CASE == 1
  r = fcv_flip_x(W, H, px);
#elif CASE == 2
  r = fcv_flip_y(W, H, px);
#elif CASE == 3
  r = fcv_transpose(W, H, px);
#elif CASE == 4
  r = fcv_transverse(W, H, px);
#elif CASE == 5
  r = fcv_rotate_90_cw(W, H, px);
#elif CASE == 6
  r = fcv_rotate_180(W, H, px);
#elif CASE == 7
  r = fcv_rotate_270_cw(W, H, px);
#elif CASE == 8
  r = fcv_crop(W, H, CH, px, 1, 0, 1, 2);
#elif CASE == 9
  r = fcv_trim(&sw, &sh, CH, px);
#elif CASE == 10
  r = fcv_trim_threshold(&sw, &sh, CH, px, 10.0);
#elif CASE == 11
  r = fcv_add_border(W, H, CH, "ff0000", 1, px, &ow, &oh);
#elif CASE == 12
  r = fcv_grayscale(W, H, px);
#elif CASE == 13
  r = fcv_grayscale_stretch(W, H, px);
#elif CASE == 14
  r = fcv_apply_gaussian_blur(W, H, RAD, px);
#elif CASE == 15
  r = fcv_otsu_threshold_rgba(W, H, DBL, px);
#elif CASE == 16
  r = fcv_bw_smart(W, H, DBL, px);
#elif CASE == 17
  r = fcv_resize(W, H, FX, FY, &ow, &oh, px);
#elif CASE == 18
  r = fcv_rgba_to_grayscale(W, H, px);
#elif CASE == 19
  r = fcv_single_to_multichannel(W, H, px);
#elif CASE == 20
  r = fcv_convert_to_binary(px, W, H, "ff0000", "00ff00");
#elif CASE == 21
  r = fcv_binary_dilation_disk(px, W, H, RAD);
#elif CASE == 22
  r = fcv_binary_erosion_disk(px, W, H, RAD);
#elif CASE == 23
  r = fcv_binary_closing_disk(px, W, H, RAD);
#elif CASE == 24
  r = fcv_binary_opening_disk(px, W, H, RAD);
#elif CASE == 25
  r = fcv_sobel_edge_detection(W, H, CH, px);
#elif CASE == 26
  r = fcv_foerstner_corner(W, H, px, 1.0);
#elif CASE == 27
  CornerPeaks *cp = fcv_corner_peaks(W, H, px, 1, 0.1, 0.1);
  r = cp;
  const int nres = cp && cp->points ? 2 : 1;
#undef NRES
#define NRES nres
  if (cp)
    CHECK(cp->points != NULL || cp->count == 0, "no peaks are announced without points");
#elif CASE == 28
  Point2D m[2] = {{0, 0}, {W - 1, H - 1}};
  r = fcv_watershed_segmentation(W, H, px, m, 2, DBL);
#elif CASE == 29
  Matrix3x3 t = {1, 0, 1, 0, 1, 0, 0, 0, 1};
  r = fcv_apply_matrix_3x3(W, H, px, W, H, &t);
#elif CASE == 30
  r = fcv_generate_histogram(W, H, CH, px, &ow, &oh);
#elif CASE == 31
  r = fcv_detect_corners_ptr(px, W, H);
#elif CASE == 32
  r = fcv_extract_document(W, H, px, 3, 2);
#elif CASE == 33
  r = fcv_extract_document_auto(W, H, px, &ow, &oh);
#elif CASE == 34
  Corners s = {0, 0, 4, 0, 4, 3, 0, 3}, d = {1, 1, 9, 1, 9, 7, 1, 7};
  Matrix3x3 *m = fcv_calculate_perspective_transform(&s, &d);
  CHECK(m != NULL, "a transform is always returned");
  if (fa_failed) {
    CHECK(m->m00 == 1 && m->m01 == 0 && m->m02 == 0 && m->m10 == 0 && m->m11 == 1 && m->m12 == 0 && m->m20 == 0 &&
              m->m21 == 0 && m->m22 == 1, "a transform that cannot be stored is the identity");
    CHECK(fa_live == 0, "memory is released when an allocation fails");
  }
#define OWN
#elif CASE == 35
  Point2D c[5] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0.5, 0.5}}, res[5];
  Corners q = sort_corners(2, 2, 20, 20, c, 5, res);
  CHECK(fa_live == 0, "all memory is released");
  if (fa_failed)
    CHECK(q.tl_x == 0 && q.tl_y == 0 && q.tr_x == 0 && q.tr_y == 0 && q.br_x == 0 && q.br_y == 0 && q.bl_x == 0 && q.bl_y == 0,
          "no corners are reported when an allocation fails");
#define OWN
#endif
#ifndef OWN
  if (fa_failed) {
    CHECK(r == NULL, "the operation reports that an allocation failed");
    CHECK(fa_live == 0, "memory is released when an allocation fails");
#ifdef MUSTFAIL
  } else
    CHECK(0, "the operation allocates");
#else
  } else {
    CHECK(r != NULL, "the operation succeeds when every allocation does");
    CHECK(fa_live == NRES, "the result is the only memory left");
  }
#endif
#endif
  for (int i = 0; i < W * H * 4; i++)
    CHECK(px[i] == keep[i], "the input is left alone");
  WITNESS();
  return 0;
}
