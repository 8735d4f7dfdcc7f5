/* fcv_crop. CASE 1: every crop rectangle of a WxHxC image (all four 32-bit
 * parameters symbolic); CASE 2: fixed output size NW x NH, symbolic origin. */
#include "verif.h"
#include "crop.h"
#define LEN ((size_t)W * H * C)
int main(void) {
  IN_ARR_U8(in_px, LEN);
  SNAPSHOT(in_px, LEN);
  IN_U32(in_x);
  IN_U32(in_y);
#if CASE == 1
  IN_U32(in_nw);
  IN_U32(in_nh);
#else
  const uint32_t in_nw = NW, in_nh = NH;
#endif
  uint8_t *o = fcv_crop(W, H, C, in_px, in_x, in_y, in_nw, in_nh);
  bool fits = in_nw > 0 && in_nh > 0 && (uint64_t)in_x + in_nw <= W && (uint64_t)in_y + in_nh <= H;
  CHECK((o != NULL) == fits, "accepted exactly when the non-empty rectangle lies inside the image");
  UNCHANGED(in_px, LEN, "input image unchanged");
  if (o) {
    IN_U32(in_i);
    IN_U32(in_j);
    IN_U32(in_c);
    ASSUME(in_i < in_nw && in_j < in_nh && in_c < C);
    CHECK(BLOCK_AT_LEAST(o, (size_t)in_nw * in_nh * C), "result holds the whole rectangle");
    CHECK(o[((size_t)in_j * in_nw + in_i) * C + in_c] ==
            snap_in_px[((size_t)(in_y + in_j) * W + in_x + in_i) * C + in_c],
          "pixel (i,j) of the crop is pixel (x+i,y+j) of the image");
    WITNESS();
    free(o);
  }
}
