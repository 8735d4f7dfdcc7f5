/* fcv_add_border on a WxHxC image with border BW, all pixels and the colour symbolic */
#include "verif.h"
#include "draw.h"
#define LEN ((size_t)W * H * C)
#define OW (W + 2 * BW)
#define OH (H + 2 * BW)
int main(void) {
  IN_ARR_U8(in_px, LEN);
  SNAPSHOT(in_px, LEN);
  IN_ARR_U8(in_col, 3);
  static const char dig[] = "0123456789abcdef";
  char hex[7];
  for (int k = 0; k < 3; k++) {
#if C == 1
    /* the luma of the colour is a floating-point expression: grey levels only */
    ASSUME(in_col[k] == in_col[0]);
#endif
    hex[2 * k] = dig[in_col[k] >> 4];
    hex[2 * k + 1] = dig[in_col[k] & 15];
  }
  hex[6] = 0;
  uint32_t ow = 77, oh = 77;
  uint8_t *o = fcv_add_border(W, H, C, hex, BW, in_px, &ow, &oh);
  CHECK(o != NULL, "a valid image is accepted");
  CHECK(ow == OW && oh == OH, "each side grows by the border width");
  CHECK(BLOCK_AT_LEAST(o, (size_t)OW * OH * C), "result holds all pixels");
  IN_U32(in_x);
  IN_U32(in_y);
  IN_U32(in_c);
  ASSUME(in_x < OW && in_y < OH && in_c < C);
  uint8_t got = o[((size_t)in_y * OW + in_x) * C + in_c];
  bool inside = in_x >= BW && in_x < BW + W && in_y >= BW && in_y < BW + H;
  if (inside)
    CHECK(got == snap_in_px[((size_t)(in_y - BW) * W + (in_x - BW)) * C + in_c], "the image is kept unaltered inside the border");
  else if (C == 1)
    CHECK(got + 1 >= in_col[0] && got <= in_col[0], "grey border has the luma of the colour");
  else if (in_c < 3)
    CHECK(got == in_col[in_c], "border has exactly the given colour");
  else
    CHECK(got == 255, "border is opaque");
  UNCHANGED(in_px, LEN, "input image unchanged");
  free(o);
  CHECK(!fcv_add_border(0, H, C, hex, BW, in_px, &ow, &oh) && !fcv_add_border(W, 0, C, hex, BW, in_px, &ow, &oh) &&
          !fcv_add_border(W, H, 0, hex, BW, in_px, &ow, &oh) && !fcv_add_border(W, H, C, NULL, BW, in_px, &ow, &oh) &&
          !fcv_add_border(W, H, C, hex, 0, in_px, &ow, &oh) && !fcv_add_border(W, H, C, hex, BW, NULL, &ow, &oh),
        "invalid arguments rejected");
  WITNESS();
}
