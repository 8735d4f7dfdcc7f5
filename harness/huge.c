/* Allocation requests for images of any 32-bit size.  malloc/calloc of the
 * library are redirected to a stand-in which records the request and reports
 * failure, so no pixel loop runs and width and height stay fully symbolic.
 * CASE selects the operation, BPP the bytes per output pixel. */
#include "verif.h"
#undef malloc
#undef calloc
#include "binary_closing_disk.h"
#include "conversion.h"
#include "convert_to_binary.h"
#include "crop.h"
#include "draw.h"
#include "flip.h"
#include "foerstner_corner.h"
#include "perspectivetransform.h"
#include "rgba_to_grayscale.h"
#include "rotate.h"
#include "single_to_multichannel.h"
#include "sobel_edge_detection.h"
#include "watershed_segmentation.h"
#include "corner_peaks.h"
#include "extract_document.h"

#define SMALL 256
static uint32_t calls;
static uint64_t largest;

void *verif_malloc(size_t n) {
  /* requests this small are scratch objects such as filter kernels */
  if (n > SMALL) {
    calls++;
    if (n > largest)
      largest = n;
  }
  return NULL;
}
void *verif_calloc(size_t n, size_t m) {
  if (m && n > SIZE_MAX / m) { /* calloc rejects this itself */
    calls++;
    largest = SIZE_MAX;
    return NULL;
  }
  return verif_malloc(n * m);
}
void verif_free(void *p) { (void)p; }

int main(void) {
  static uint8_t px[64];
  IN_U32(in_w);
#ifdef HC
  const uint32_t in_h = HC;
#else
  IN_U32(in_h);
#endif
  uint64_t pix = (uint64_t)in_w * in_h;
  uint32_t ow = 0, oh = 0;
  uint32_t chan = BPP;
  void *r;
#if CASE == 1
  r = fcv_grayscale(in_w, in_h, px);
#elif CASE == 2
  r = fcv_grayscale_stretch(in_w, in_h, px);
#elif CASE == 3
  r = fcv_apply_gaussian_blur(in_w, in_h, 0, px);
#elif CASE == 4
  r = fcv_apply_gaussian_blur(in_w, in_h, 2, px);
#elif CASE == 5
  r = fcv_bw_smart(in_w, in_h, false, px);
#elif CASE == 6
  r = fcv_flip_x(in_w, in_h, px);
#elif CASE == 7
  r = fcv_flip_y(in_w, in_h, px);
#elif CASE == 8
  r = fcv_transpose(in_w, in_h, px);
#elif CASE == 9
  r = fcv_transverse(in_w, in_h, px);
#elif CASE == 10
  r = fcv_rotate_90_cw(in_w, in_h, px);
#elif CASE == 11
  r = fcv_rotate_180(in_w, in_h, px);
#elif CASE == 12
  r = fcv_rotate_270_cw(in_w, in_h, px);
#elif CASE == 13
  r = fcv_single_to_multichannel(in_w, in_h, px);
#elif CASE == 14
  r = fcv_rgba_to_grayscale(in_w, in_h, px);
#elif CASE == 15
  r = fcv_convert_to_binary(px, (int32_t)in_w, (int32_t)in_h, "000000", "ffffff");
#elif CASE == 16
  r = fcv_binary_dilation_disk(px, (int32_t)in_w, (int32_t)in_h, 1);
#elif CASE == 17
  r = fcv_binary_erosion_disk(px, (int32_t)in_w, (int32_t)in_h, 1);
#elif CASE == 18
  r = fcv_sobel_edge_detection(in_w, in_h, 1, px);
#elif CASE == 19
  r = fcv_sobel_edge_detection(in_w, in_h, 4, px);
#elif CASE == 20
  Point2D mk[1] = {{0, 0}};
  r = fcv_watershed_segmentation(in_w, in_h, px, mk, 1, false);
#elif CASE == 21
  const uint32_t in_bw = BWC;
  r = fcv_add_border(in_w, in_h, chan, "000000", in_bw, px, &ow, &oh);
  uint64_t bw_ = (uint64_t)in_w + 2 * (uint64_t)in_bw, bh_ = (uint64_t)in_h + 2 * (uint64_t)in_bw;
  if (bw_ > UINT32_MAX || bh_ > UINT32_MAX)
    CHECK(calls == 0 && r == NULL, "an image whose size does not fit 32 bits is rejected");
  if (calls)
    CHECK(ow == bw_ && oh == bh_, "each side grows by twice the border width");
  pix = (uint64_t)ow * oh;
#elif CASE == 22
  IN_U32(in_x);
  IN_U32(in_y);
  IN_U32(in_nw);
  IN_U32(in_nh);
  r = fcv_crop(in_w, in_h, chan, px, in_x, in_y, in_nw, in_nh);
  pix = (uint64_t)in_nw * in_nh;
  /* the real rectangle has to lie inside the image */
  if ((uint64_t)in_x + in_nw > in_w || (uint64_t)in_y + in_nh > in_h)
    CHECK(calls == 0 && r == NULL, "a rectangle outside the image is rejected");
#elif CASE == 23
  r = fcv_resize(in_w, in_h, FX, FY, &ow, &oh, px);
  pix = (uint64_t)ow * oh;
#elif CASE == 24
  Matrix3x3 m = {1, 0, 0, 0, 1, 0, 0, 0, 1};
  r = fcv_apply_matrix_3x3(2, 2, px, (int32_t)in_w, (int32_t)in_h, &m);
#elif CASE == 25
  r = fcv_foerstner_corner(in_w, in_h, px, 1.0);
#elif CASE == 26
  r = fcv_corner_peaks(in_w, in_h, px, 1, 0.5, 0.5);
#elif CASE == 27
  r = fcv_extract_document(in_w, in_h, px, 2, 2);
#endif
  /* a request that only became small because its size wrapped */
  uint64_t need64 = pix * chan;
  bool told = need64 > SMALL && (uint32_t)need64 > SMALL;
  bool over = pix > SIZE_MAX / chan;
  if (over)
    CHECK(calls == 0, "an image whose byte size does not fit size_t is rejected");
  else if (told && calls > 0)
    CHECK(largest >= need64, "the memory requested covers the whole image");
  CHECK(r == NULL || calls == 0, "a failed allocation is reported");
  WITNESS();
}
