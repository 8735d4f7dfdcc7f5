/* fcv_trim / fcv_trim_threshold on a WxHxC image against a reference that
 * removes uniform borders (left, right, top, bottom, repeated) to the fixpoint.
 * CASE 1: fcv_trim; CASE 2: fcv_trim_threshold with symbolic percentage;
 * CASE 3: negative, tiny and invalid percentages. */
#include "verif.h"
#include "trim.h"
#define LEN ((size_t)W * H * C)

static const uint8_t *img;
static int tol;
static bool same(uint32_t x0, uint32_t y0, uint32_t x1, uint32_t y1) {
  for (uint32_t c = 0; c < C; c++) {
    int a = img[((size_t)y0 * W + x0) * C + c], b = img[((size_t)y1 * W + x1) * C + c];
    if (a - b > tol || b - a > tol)
      return false;
  }
  return true;
}
static bool ucol(uint32_t x, uint32_t t, uint32_t b) {
  bool u = true;
  for (uint32_t y = 0; y < H; y++)
    if (y >= t && y < b && !same(x, y, x, t))
      u = false;
  return u;
}
static bool urow(uint32_t y, uint32_t l, uint32_t r) {
  bool u = true;
  for (uint32_t x = 0; x < W; x++)
    if (x >= l && x < r && !same(x, y, l, y))
      u = false;
  return u;
}

int main(void) {
  IN_ARR_U8(in_px, LEN);
#ifdef MAXV /* stated bound: sample values 0..MAXV */
  for (size_t i = 0; i < LEN; i++)
    ASSUME(in_px[i] <= MAXV);
#endif
  SNAPSHOT(in_px, LEN);
  img = snap_in_px;
  int32_t w = W, h = H;
#if CASE == 1
  tol = 0;
  uint8_t *o = fcv_trim(&w, &h, C, in_px);
#elif CASE == 2
  /* percentages in steps of 1/4, from -1 to 101.75 */
#ifdef PCT4
  int in_p = PCT4;
#else
  IN_I32(in_p);
  ASSUME(in_p >= -4 && in_p <= 407);
#endif
  double pct = in_p / 4.0;
  uint8_t *o = fcv_trim_threshold(&w, &h, C, in_px, pct);
  int clamped = in_p < 0 ? 0 : in_p > 400 ? 400 : in_p;
  tol = clamped * 255 / 400;
#else
  IN_U8(in_k);
  double z = 0.0, bad = in_k == 0 ? 0.0 / z : in_k == 1 ? 1.0 / z : -1.0 / z;
  CHECK(!fcv_trim_threshold(&w, &h, C, in_px, bad), "non-finite percentage rejected");
  CHECK(!fcv_trim(NULL, &h, C, in_px) && !fcv_trim(&w, NULL, C, in_px) && !fcv_trim(&w, &h, 0, in_px) && !fcv_trim(&w, &h, C, NULL), "invalid arguments rejected");
  IN_I32(in_bw);
  ASSUME(in_bw <= 0);
  int32_t bw = in_bw;
  CHECK(!fcv_trim(&bw, &h, C, in_px) && !fcv_trim(&w, &bw, C, in_px), "non-positive dimensions rejected");
  CHECK(!fcv_trim_threshold(&bw, &h, C, in_px, 5) && !fcv_trim_threshold(&w, &bw, C, in_px, 5), "non-positive dimensions rejected");
  CHECK(w == W && h == H && bw == in_bw, "dimensions untouched on rejection");
  WITNESS();
  return 0;
#endif
#if CASE < 3
  /* reference: at most W + H lines can be removed, one per step */
  uint32_t l = 0, r = W, t = 0, b = H;
  for (int round = 0; round < ROUNDS; round++) {
    for (int k = 0; k < W; k++)
      if (r - l > 1 && ucol(l, t, b))
        l++;
      else
        break;
    for (int k = 0; k < W; k++)
      if (r - l > 1 && ucol(r - 1, t, b))
        r--;
      else
        break;
    for (int k = 0; k < H; k++)
      if (b - t > 1 && urow(t, l, r))
        t++;
      else
        break;
    for (int k = 0; k < H; k++)
      if (b - t > 1 && urow(b - 1, l, r))
        b--;
      else
        break;
  }
  CHECK(o != NULL, "a valid image is accepted");
  CHECK(w >= 1 && h >= 1 && w <= W && h <= H, "trimmed size lies within the image");
  CHECK((uint32_t)w == r - l && (uint32_t)h == b - t, "exactly the uniform borders are removed, until none is left");
  CHECK(BLOCK_AT_LEAST(o, (size_t)w * h * C), "result holds the remaining rectangle");
  IN_U32(in_x);
  IN_U32(in_y);
  IN_U32(in_c);
  ASSUME(in_x < r - l && in_y < b - t && in_c < C);
  CHECK(o[((size_t)in_y * w + in_x) * C + in_c] == snap_in_px[((size_t)(t + in_y) * W + l + in_x) * C + in_c],
        "the remaining rectangle is copied unaltered");
  UNCHANGED(in_px, LEN, "input image unchanged");
  WITNESS();
#endif
}
