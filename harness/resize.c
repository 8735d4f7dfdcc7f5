/* fcv_resize of a WxH image by FX, FY (concrete), all pixels symbolic.
 * CASE 1: output size EW x EH, every sample lies within the range of the source
 * pixels around its footprint; alpha opaque; CASE 2: rejected factors */
#include "verif.h"
#ifdef FAILALLOC
#include "failalloc.h"
#endif
#include "conversion.h"
#define LEN ((size_t)W * H * 4)
#if CASE == 1
static double absd(double v) { return v < 0 ? -v : v; }
static double clampd(double v, int n) { return v < 0 ? 0 : v > n - 1 ? n - 1 : v; }
static double overlap(double a, double b, int i) {
  if (a < i)
    a = i;
  if (b > i + 1)
    b = i + 1;
  return b - a > 1e-6 ? b - a : 0;
}
#endif
int main(void) {
#if CASE == 1
  IN_ARR_U8(in_px, LEN);
#ifdef BILEVEL /* stated bound: each sample is one of two symbolic levels */
  IN_U8(in_lo);
  IN_U8(in_hi);
#ifdef LV0
  ASSUME(in_lo == LV0 && in_hi == LV1);
#endif
  for (size_t i = 0; i < LEN; i++)
    in_px[i] = (in_px[i] & 1) ? in_hi : in_lo;
#endif
#ifdef ONECH /* stated bound: samples of one channel vary, the others are 0 */
  for (size_t i = 0; i < LEN; i++)
    if (i % 4 != ONECH)
      in_px[i] = 0;
#endif
  SNAPSHOT(in_px, LEN);
  uint32_t ow = 7, oh = 7;
  uint8_t *o = fcv_resize(W, H, FX, FY, &ow, &oh, in_px);
  CHECK(o != NULL, "a valid image and factor are accepted");
  CHECK(ow == EW && oh == EH, "the output has the requested size");
  CHECK(BLOCK_AT_LEAST(o, (size_t)EW * EH * 4), "result holds all pixels");
#ifdef OBS
  const uint32_t x = OBS % EW, y = OBS / EW;
#else
  IN_U32(in_x);
  IN_U32(in_y);
  ASSUME(in_x < EW && in_y < EH);
  uint32_t x = in_x, y = in_y;
#endif
  size_t at = ((size_t)y * EW + x) * 4;
  CHECK(o[at + 3] == 255, "alpha opaque");
  for (int c = 0; c < 3; c++) {
#ifdef ONECH
    if (c != ONECH) {
      CHECK(o[at + c] == 0, "channels do not leak into each other");
      continue;
    }
#endif
    uint8_t lo = 255, hi = 0;
    for (uint32_t sy = 0; sy < H; sy++)
      for (uint32_t sx = 0; sx < W; sx++) {
#if SHRINK
        /* source pixel (sx,sy) covers [sx,sx+1), the output pixel
         * [x/FX, (x+1)/FX) */
        bool in = (sx + 1) * FX >= x - 0.001 && sx * FX <= (x + 1) + 0.001 && (sy + 1) * FY >= y - 0.001 && sy * FY <= (y + 1) + 0.001;
#else
        /* centres less than one source pixel away, clamped to the image */
        bool in = true;
        in = in && (sx + 0.5) * FX > (x + 0.5) - FX - 0.001 && (sx + 0.5) * FX < (x + 0.5) + FX + 0.001;
        in = in && (sy + 0.5) * FY > (y + 0.5) - FY - 0.001 && (sy + 0.5) * FY < (y + 0.5) + FY + 0.001;
#endif
        uint8_t v = snap_in_px[((size_t)sy * W + sx) * 4 + c];
        if (in && v < lo)
          lo = v;
        if (in && v > hi)
          hi = v;
      }
    CHECK(o[at + c] >= lo && o[at + c] <= hi, "every sample lies between the source samples around it");
#ifdef IDENT
    CHECK(o[at + c] == snap_in_px[at + c], "factor 1 leaves the image unchanged");
#endif
  }
#ifdef EXACT
  /* overlap-weighted average or bilinear interpolation, to within one level;
   * the weights are constants scaled by 2^12 */
  for (uint32_t k = 0; k < EW * EH; k++) {
    const double cx = (k % EW + 0.5) / FX - 0.5, cy = (k / EW + 0.5) / FY - 0.5;
    for (int c = 0; c < 3; c++) {
      int64_t sum = 0, tot = 0;
      for (int i = 0; i < W * H; i++) {
        const double px = clampd(cx, W), py = clampd(cy, H);
#if SHRINK
        double wx = overlap(k % EW / FX, (k % EW + 1) / FX, i % W), wy = overlap(k / EW / FY, (k / EW + 1) / FY, i / W);
#else
        double wx = 1 - absd(px - i % W), wy = 1 - absd(py - i / W);
#endif
        if (wx > 0 && wy > 0) {
          const int64_t iw = (int64_t)(wx * wy * 4096 + 0.5);
          sum += iw * snap_in_px[i * 4 + c];
          tot += iw;
        }
      }
      const int64_t d = sum - tot * o[k * 4 + c];
      CHECK(d < tot + 256 && d > -tot - 256, "every sample is the weighted average of the source samples around it");
    }
  }
#endif
  UNCHANGED(in_px, LEN, "input image unchanged");
  WITNESS();
#else
  static uint8_t px[4 * 4];
  uint32_t ow = 7, oh = 7;
  IN_DBL(in_f);
  IN_DBL(in_g);
  ASSUME(!(in_f > 0) || in_f - in_f != 0);
  ASSUME(in_g > 0.4 && in_g < 2);
  CHECK(!fcv_resize(2, 2, in_f, in_g, &ow, &oh, px) && !fcv_resize(2, 2, in_g, in_f, &ow, &oh, px), "factors which are not positive and finite are rejected");
  NOALLOC("rejected before anything is allocated");
  CHECK(!fcv_resize(2, 2, 0.25, 1, &ow, &oh, px) && !fcv_resize(2, 2, 1, 0.25, &ow, &oh, px), "an empty result is rejected");
  CHECK(!fcv_resize(2, 2, 4e9, 1, &ow, &oh, px) && !fcv_resize(2, 2, 1, 1e300, &ow, &oh, px), "a result beyond 32 bits is rejected");
  CHECK(!fcv_resize(0, 2, 1, 1, &ow, &oh, px) && !fcv_resize(2, 0, 1, 1, &ow, &oh, px) && !fcv_resize(2, 2, 1, 1, NULL, &oh, px) &&
          !fcv_resize(2, 2, 1, 1, &ow, NULL, px) && !fcv_resize(2, 2, 1, 1, &ow, &oh, NULL), "missing image or result pointers rejected");
  NOALLOC("rejected before anything is allocated");
  WITNESS();
#endif
}
