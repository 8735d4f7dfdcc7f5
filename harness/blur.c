/* fcv_apply_gaussian_blur.
 * CASE 1: W x H picture, any values in channel CH, radius R (a constant): every sample lies within
 *         the range of the samples around it
 * CASE 2: radii which are not usable, CASE 3: radius 0 or next to it */
#include "verif.h"
#include "conversion.h"
#include "concretefp.h"
#include <string.h>

int main(void) {
  IN_ARR_U8(in_px, W * H * 4);
#if CASE == 1
  for (int i = 0; i < W * H * 4; i++)
    if (i % 4 != CH)
      in_px[i] = 40 + 50 * (i % 4) + i / 4; /* other channels are constant */
#ifdef BAND
  for (int i = CH; i < W * H * 4; i += 4)
    ASSUME(in_px[i] / 32 == BAND);
#endif
  uint8_t *o = fcv_apply_gaussian_blur(W, H, R, in_px);
  CHECK(o, "accepted");
  const int r = (int)(R);
  for (int y = 0; y < H; y++)
    for (int x = 0; x < W; x++)
      for (int c = 0; c < 4; c++) {
        const int v = o[(y * W + x) * 4 + c];
        if (c == 3) {
          CHECK(v == 255, "opaque");
          continue;
        }
        int lo = 255, hi = 0;
        for (int dy = -r; dy <= r; dy++)
          for (int dx = -r; dx <= r; dx++)
            if (y + dy >= 0 && y + dy < H && x + dx >= 0 && x + dx < W) {
              const int s = in_px[((y + dy) * W + x + dx) * 4 + c];
              lo = s < lo ? s : lo;
              hi = s > hi ? s : hi;
            }
        CHECK(v <= hi, "not brighter than the brightest around it");
        CHECK(v >= lo, "not darker than the darkest around it");
      }
  WITNESS();
#elif CASE == 2
  IN_DBL(in_r);
  ASSUME(in_r < 0 || in_r > 1e6 || in_r != in_r);
  CHECK(!fcv_apply_gaussian_blur(W, H, in_r, in_px), "rejected");
  WITNESS();
#else
  uint8_t *o = fcv_apply_gaussian_blur(W, H, R, in_px);
  CHECK(o && o != in_px, "a copy");
  for (int i = 0; i < W * H * 4; i++)
    CHECK(o[i] == in_px[i] || (R != 0 && i % 4 == 3 && o[i] == 255), "of the picture");
  WITNESS();
#endif
}
