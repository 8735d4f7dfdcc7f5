/* Flips, transposes and quarter turns move every pixel exactly.
 * CASE: 1 flip_x 2 flip_y 3 transpose 4 transverse 5 rot90 6 rot180 7 rot270 */
#include "verif.h"
#include "flip.h"
#include "rotate.h"

#if CASE == 1
#define FN fcv_flip_x
#define DX (w - 1 - x)
#define DY (y)
#define OW w
#elif CASE == 2
#define FN fcv_flip_y
#define DX (x)
#define DY (h - 1 - y)
#define OW w
#elif CASE == 3
#define FN fcv_transpose
#define DX (y)
#define DY (x)
#define OW h
#elif CASE == 4
#define FN fcv_transverse
#define DX (h - 1 - y)
#define DY (w - 1 - x)
#define OW h
#elif CASE == 5
#define FN fcv_rotate_90_cw
#define DX (h - 1 - y)
#define DY (x)
#define OW h
#elif CASE == 6
#define FN fcv_rotate_180
#define DX (w - 1 - x)
#define DY (h - 1 - y)
#define OW w
#elif CASE == 7
#define FN fcv_rotate_270_cw
#define DX (y)
#define DY (w - 1 - x)
#define OW h
#endif

int main(void) {
  const uint32_t w = W, h = H;
  IN_ARR_U8(in_px, W * H * 4);
  IN_U32(in_x);
  IN_U32(in_y);
  IN_U32(in_c);
  ASSUME(in_x < w && in_y < h && in_c < 4);
  uint32_t x = in_x, y = in_y, c = in_c;
  SNAPSHOT(in_px, W * H * 4);
  uint8_t *o = FN(w, h, in_px);
  CHECK(o != NULL, "a valid image is accepted");
  CHECK(BLOCK_AT_LEAST(o, W * H * 4), "result holds all pixels");
  CHECK(o != in_px, "result is a fresh buffer");
  CHECK(o[((size_t)DY * OW + DX) * 4 + c] == snap_in_px[((size_t)y * w + x) * 4 + c],
        "pixel lands at its mapped position with all four bytes intact");
  CHECK(in_px[((size_t)y * w + x) * 4 + c] == snap_in_px[((size_t)y * w + x) * 4 + c], "input image unchanged");
  free(o);
  CHECK(FN(0, h, in_px) == NULL && FN(w, 0, in_px) == NULL && FN(w, h, NULL) == NULL,
        "empty or missing image rejected");
  WITNESS();
}
