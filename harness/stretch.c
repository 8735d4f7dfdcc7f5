/* fcv_grayscale_stretch
 * CASE 1: any picture of N pixels (fewer than 64: no outliers are ignored)
 * CASE 2: 64 or more pixels, the last SYM of which are anything, the others
 *         the grey levels BASE
 * CASE 3: missing or empty arguments */
#include "verif.h"
#include "conversion.c"
#include "rgba_to_grayscale.c"
#include "single_to_multichannel.c"
#ifndef SYM
#define SYM N
#endif
static int luma(const uint8_t *p) { return (76 * p[0] + 150 * p[1] + 30 * p[2]) >> 8; }

int main(void) {
#if CASE == 3
  uint8_t px[4] = {1, 2, 3, 4};
  IN_U32(in_w);
  IN_U32(in_h);
  CHECK(!fcv_grayscale_stretch(0, in_h, px) && !fcv_grayscale_stretch(in_w, 0, px), "empty pictures are rejected");
  CHECK(!fcv_grayscale_stretch(in_w, in_h, 0), "missing picture is rejected");
#else
  IN_ARR_U8(in_px, SYM * 4);
  uint8_t px[N * 4];
  int l[N];
#if CASE == 2
  const uint8_t base[] = {BASE};
  for (int i = 0; i < N - SYM; i++) {
    for (int c = 0; c < 4; c++)
      px[i * 4 + c] = base[i % sizeof base];
    l[i] = base[i % sizeof base];
  }
#endif
  for (int i = 0; i < SYM; i++) {
#ifdef BAND /* the levels the pixel may have */
    const uint8_t band[] = {BAND};
    for (int c = 0; c < 3; c++)
      ASSUME(in_px[i * 4 + c] >> 4 == band[i % sizeof band] >> 4);
#endif
#ifdef GREY
    ASSUME(in_px[i * 4] == in_px[i * 4 + 1] && in_px[i * 4] == in_px[i * 4 + 2]);
#endif
    for (int c = 0; c < 4; c++)
      px[(N - SYM + i) * 4 + c] = in_px[i * 4 + c];
    l[N - SYM + i] = luma(&in_px[i * 4]);
  }
  uint8_t *o = fcv_grayscale_stretch(N / ROWS, ROWS, px);
  CHECK(o, "accepted");
  int lo = 255, hi = 0;
  for (int i = 0; i < N; i++) {
    lo = l[i] < lo ? l[i] : lo;
    hi = l[i] > hi ? l[i] : hi;
  }
  for (int i = 0; i < N; i++) {
    CHECK(o[i * 4] == o[i * 4 + 1] && o[i * 4] == o[i * 4 + 2] && o[i * 4 + 3] == 255, "opaque and grey");
#if CASE == 1
    if (lo < hi && l[i] == lo)
      CHECK(o[i * 4] == 0, "the darkest becomes black");
    if (lo < hi && l[i] == hi)
      CHECK(o[i * 4] == 255, "the brightest becomes white");
#endif
  }
  /* order: pairs with a symbolic pixel */
  for (int i = N - SYM; i < N; i++)
    for (int j = 0; j < i; j++) {
      if (l[i] > l[j])
        CHECK(o[i * 4] >= o[j * 4], "brighter stays brighter");
      else if (l[i] < l[j])
        CHECK(o[i * 4] <= o[j * 4], "darker stays darker");
      else
        CHECK(o[i * 4] == o[j * 4], "equal stays equal");
    }
  for (int i = 0; i < SYM * 4; i++)
    CHECK(px[(N - SYM) * 4 + i] == in_px[i], "picture unchanged");
  free(o);
#endif
  WITNESS();
  return 0;
}
