/* Binary morphology with a disk of radius R (all offsets no longer than R+0.5)
 * on a WxH image, all bytes symbolic.  Only bytes equal to 255 are white.
 * CASE 1 dilation exact, 2 erosion exact, 3 closing, 4 opening, 5 rejects. */
#include "verif.h"
#include "binary_closing_disk.h"
#if CASE == 5
#include "failalloc.h"
#endif
#define N ((size_t)W * H)
static const uint8_t *img;
static bool wh(const uint8_t *p, int x, int y) { return x >= 0 && x < W && y >= 0 && y < H && p[y * W + x] == 255; }
/* any / all white in the disk around (x,y); beyond the image is black */
static bool any(const uint8_t *p, int x, int y) {
  bool r = false;
  for (int b = -R; b <= R; b++)
    for (int a = -R; a <= R; a++)
      if (4 * (a * a + b * b) <= (2 * R + 1) * (2 * R + 1) && wh(p, x + a, y + b))
        r = true;
  return r;
}
static bool all(const uint8_t *p, int x, int y) {
  bool r = true;
  for (int b = -R; b <= R; b++)
    for (int a = -R; a <= R; a++)
      if (4 * (a * a + b * b) <= (2 * R + 1) * (2 * R + 1) && !wh(p, x + a, y + b))
        r = false;
  return r;
}
int main(void) {
#if CASE < 5
  IN_ARR_U8(in_px, N);
  SNAPSHOT(in_px, N);
  /* every position is checked, at constant coordinates */
#if CASE == 1
  uint8_t *o = fcv_binary_dilation_disk(in_px, W, H, R);
  CHECK(o && BLOCK_AT_LEAST(o, N), "a valid image is accepted");
  for (int y = 0; y < H; y++)
    for (int x = 0; x < W; x++)
      CHECK(o[y * W + x] == (any(snap_in_px, x, y) ? 255 : 0), "white exactly where the disk meets white");
#elif CASE == 2
  uint8_t *o = fcv_binary_erosion_disk(in_px, W, H, R);
  CHECK(o && BLOCK_AT_LEAST(o, N), "a valid image is accepted");
  for (int y = 0; y < H; y++)
    for (int x = 0; x < W; x++)
      CHECK(o[y * W + x] == (all(snap_in_px, x, y) ? 255 : 0), "white exactly where the disk lies inside white");
#elif CASE == 3
  uint8_t *o = fcv_binary_closing_disk(in_px, W, H, R);
  CHECK(o && BLOCK_AT_LEAST(o, N), "a valid image is accepted");
  uint8_t d[N];
  for (int y = 0; y < H; y++)
    for (int x = 0; x < W; x++)
      d[y * W + x] = any(snap_in_px, x, y) ? 255 : 0;
  for (int y = 0; y < H; y++)
    for (int x = 0; x < W; x++) {
      /* erosion of the dilation with replicated borders */
      bool e = true;
      for (int b = -R; b <= R; b++)
        for (int a = -R; a <= R; a++) {
          int nx = x + a < 0 ? 0 : x + a >= W ? W - 1 : x + a, ny = y + b < 0 ? 0 : y + b >= H ? H - 1 : y + b;
          if (4 * (a * a + b * b) <= (2 * R + 1) * (2 * R + 1) && d[ny * W + nx] != 255)
            e = false;
        }
      CHECK(o[y * W + x] == (e ? 255 : 0), "closing is the dilation eroded with replicated borders");
      CHECK(snap_in_px[y * W + x] != 255 || o[y * W + x] == 255, "closing keeps every white pixel");
    }
#elif CASE == 4
  uint8_t *o = fcv_binary_opening_disk(in_px, W, H, R);
  CHECK(o && BLOCK_AT_LEAST(o, N), "a valid image is accepted");
  uint8_t e[N];
  for (int y = 0; y < H; y++)
    for (int x = 0; x < W; x++)
      e[y * W + x] = all(snap_in_px, x, y) ? 255 : 0;
  for (int y = 0; y < H; y++)
    for (int x = 0; x < W; x++) {
      CHECK(o[y * W + x] == (any(e, x, y) ? 255 : 0), "opening is the erosion dilated again");
      CHECK(snap_in_px[y * W + x] == 255 || o[y * W + x] == 0, "opening adds no white pixel");
    }
#endif
  UNCHANGED(in_px, N, "input image unchanged");
#else
  static uint8_t in_px[N];
  IN_I32(in_bad);
  uint8_t *(*f[4])(uint8_t const *, int32_t, int32_t, int32_t) = {fcv_binary_dilation_disk, fcv_binary_erosion_disk,
                                                                  fcv_binary_closing_disk, fcv_binary_opening_disk};
  ASSUME(in_bad < 0);
  for (int k = 0; k < 4; k++) {
    CHECK(!f[k](in_px, W, H, in_bad), "a negative radius is rejected");
    CHECK(!f[k](in_px, in_bad, H, 1) && !f[k](in_px, W, in_bad, 1) && !f[k](in_px, 0, H, 1) && !f[k](in_px, W, 0, 1), "an empty image is rejected");
    CHECK(!f[k](NULL, W, H, 1), "a missing image is rejected");
  }
  NOALLOC("rejected before anything is allocated");
#endif
  WITNESS();
}
