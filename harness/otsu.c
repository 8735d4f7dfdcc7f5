/* fcv_otsu_threshold_rgba, apply_double_threshold
 * CASE 1: N grey pixels, pixel i in the 16 levels around BAND[i]
 * CASE 2: apply_double_threshold for all bytes and limits
 * CASE 3: missing or empty arguments */
#include "verif.h"
#include "conversion.c"
#include "rgba_to_grayscale.c"
#include "single_to_multichannel.c"
static void check_shape(const uint8_t *o, int n, bool twofold) {
  for (int i = 0; i < n; i++) {
    CHECK(o[i * 4] == o[i * 4 + 1] && o[i * 4] == o[i * 4 + 2] && o[i * 4 + 3] == 255, "opaque and grey");
    if (!twofold)
      CHECK(o[i * 4] == 0 || o[i * 4] == 255, "black or white");
  }
}

int main(void) {
#if CASE == 1
  IN_ARR_U8(in_px, N);
  static const uint8_t band[] = {BAND};
  uint8_t px[N * 4];
  for (int i = 0; i < N; i++) {
    ASSUME(in_px[i] / WIDTH == band[i] / WIDTH);
    px[i * 4] = px[i * 4 + 1] = px[i * 4 + 2] = in_px[i];
    px[i * 4 + 3] = 77;
  }
  uint8_t *o = fcv_otsu_threshold_rgba(N / ROWS, ROWS, TWOFOLD, px);
  CHECK(o, "accepted");
  check_shape(o, N, TWOFOLD);
  int sum = 0;
  bool flat = true;
  for (int i = 0; i < N; i++) {
    sum += in_px[i];
    flat = flat && in_px[i] == in_px[0];
    for (int j = 0; j < i; j++)
      CHECK(in_px[i] == in_px[j] ? o[i * 4] == o[j * 4] : in_px[i] > in_px[j] ? o[i * 4] >= o[j * 4] : o[i * 4] <= o[j * 4], "monotone");
  }
  if (!flat) {
    /* the separation into the pixels up to a pixel's level and the brighter
     * ones: its variance is d * d / (n0 * n1) up to a constant */
    int v0[N], v1[N]; /* numerator and denominator */
    for (int k = 0; k < N; k++) {
      int n0 = 0, s0 = 0;
      for (int i = 0; i < N; i++)
        if (in_px[i] <= in_px[k]) {
          n0++;
          s0 += in_px[i];
        }
      int d = s0 * (N - n0) - (sum - s0) * n0;
      v0[k] = n0 == N ? 0 : d * d;
      v1[k] = n0 == N ? 1 : n0 * (N - n0);
    }
    bool ok = false;
    for (int k = 0; k < N; k++) {
      bool best = true, same = true;
      for (int i = 0; i < N; i++) {
        best = best && v0[k] * v1[i] >= v0[i] * v1[k];
        if (!TWOFOLD)
          same = same && o[i * 4] == (in_px[i] <= in_px[k] ? 0 : 255);
        else if (in_px[i] + 16 < in_px[k])
          same = same && o[i * 4] == 0;
      }
      ok = ok || (best && same);
    }
    CHECK(ok, "the threshold has the largest variance between the classes");
#if TWOFOLD
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++)
        if (N == 2 && in_px[i] > in_px[j] + 16)
          CHECK(o[i * 4] == 255, "levels which are clearly apart are separated");
#endif
  }
  free(o);
#elif CASE == 2
  IN_ARR_U8(in_b, 2);
  IN_U8(in_lo);
  ASSUME(in_lo + GAP <= 255);
  uint8_t b[2] = {in_b[0], in_b[1]};
  apply_double_threshold(1, b, in_lo, in_lo + GAP);
  CHECK(b[1] == in_b[1], "nothing beyond the length");
  if (in_b[0] <= in_lo)
    CHECK(b[0] == 0, "black up to the lower one");
  else if (in_b[0] >= in_lo + GAP)
    CHECK(b[0] == 255, "white from the upper one");
  else {
    int e = b[0] * GAP - (in_b[0] - in_lo) * 255;
    CHECK(e <= GAP && -e <= GAP, "linear in between");
  }
#elif CASE == 3
  uint8_t px[4] = {1, 2, 3, 4};
  IN_U32(in_w);
  IN_U32(in_h);
  IN_U8(in_two);
  CHECK(!fcv_otsu_threshold_rgba(0, in_h, in_two & 1, px) && !fcv_otsu_threshold_rgba(in_w, 0, in_two & 1, px), "empty pictures are rejected");
  CHECK(!fcv_otsu_threshold_rgba(in_w, in_h, in_two & 1, 0), "missing picture is rejected");
#endif
  WITNESS();
  return 0;
}
