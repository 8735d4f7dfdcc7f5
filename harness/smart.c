/* fcv_bw_smart with its stages (grey, blur, threshold) replaced by recorders
 * with arbitrary results.
 * CASE 1: N pixels  CASE 2: missing or empty arguments */
#include "verif.h"
#define BUF (N * 4)
static int live;
static void *get_(size_t n) {
  CHECK(n == BUF, "room for the picture");
  void *p = malloc(BUF);
  if (p)
    live++;
  return p;
}
static void put_(void *p) {
  if (p)
    live--;
  free(p);
}
#define malloc get_
#define free put_
#include "conversion.c"
#undef malloc
#undef free
#include "rgba_to_grayscale.c"
#include "single_to_multichannel.c"
static const uint8_t *picture;
static uint8_t *grey, *blurred, *made;
static uint8_t want[N];
static bool two;
#if CASE == 1
static uint8_t *in_g_, *in_b_;
static int fails;
uint8_t *fcv_grayscale(uint32_t w, uint32_t h, uint8_t const *const d) {
  CHECK(!grey && d == picture && w == N / ROWS && h == ROWS, "starts with the picture");
  if (fails == 1)
    return 0;
  grey = get_(BUF);
  for (int i = 0; i < BUF; i++)
    grey[i] = i % 4 == 3 ? 255 : in_g_[i / 4];
  return grey;
}
uint8_t *fcv_apply_gaussian_blur(uint32_t w, uint32_t h, double r, uint8_t const *const d) {
  CHECK(grey && !blurred && d == grey && w == N / ROWS && h == ROWS, "blurs the grey picture");
  CHECK(r >= 0 && r < 4294967296., "acceptable radius");
  if (fails == 2)
    return 0;
  blurred = get_(BUF);
  for (int i = 0; i < BUF; i++)
    blurred[i] = i % 4 == 3 ? 255 : in_b_[i / 4];
  return blurred;
}
uint8_t *fcv_otsu_threshold_rgba(uint32_t w, uint32_t h, bool t, uint8_t const *const d) {
  CHECK(blurred && !made && w == N / ROWS && h == ROWS && t == two, "threshold of the details");
  for (int i = 0; i < N; i++) {
    CHECK(d[i * 4] == want[i] && d[i * 4 + 1] == want[i] && d[i * 4 + 2] == want[i] && d[i * 4 + 3] == 255, "details: 127 + grey - blurred, clamped");
  }
  if (fails == 3)
    return 0;
  return made = get_(BUF);
}
#else
uint8_t *fcv_grayscale(uint32_t w, uint32_t h, uint8_t const *const d) { return 0; }
uint8_t *fcv_apply_gaussian_blur(uint32_t w, uint32_t h, double r, uint8_t const *const d) { return 0; }
uint8_t *fcv_otsu_threshold_rgba(uint32_t w, uint32_t h, bool t, uint8_t const *const d) { return 0; }
#endif

int main(void) {
#if CASE == 1
  IN_ARR_U8(in_g, N);
  IN_ARR_U8(in_b, N);
  IN_U8(in_two);
  IN_U8(in_fails);
  ASSUME(in_fails < 4);
  fails = in_fails;
  two = in_two & 1;
  in_g_ = in_g;
  in_b_ = in_b;
  for (int i = 0; i < N; i++) {
    int v = 127 + in_g[i] - in_b[i];
    want[i] = v < 0 ? 0 : v > 255 ? 255 : v;
  }
  uint8_t px[BUF];
  for (int i = 0; i < BUF; i++)
    px[i] = 3;
  picture = px;
  uint8_t *o = fcv_bw_smart(N / ROWS, ROWS, two, px);
  if (in_fails)
    CHECK(!o && live == 0, "failing stage reported, nothing left behind");
  else
    CHECK(o && o == made && live == 1, "returns the result of the threshold, nothing else left behind");
#else
  uint8_t px[4] = {1, 2, 3, 4};
  IN_U32(in_w);
  IN_U32(in_h);
  IN_U8(in_two);
  CHECK(!fcv_bw_smart(0, in_h, in_two & 1, px) && !fcv_bw_smart(in_w, 0, in_two & 1, px), "empty pictures are rejected");
  CHECK(!fcv_bw_smart(in_w, in_h, in_two & 1, 0), "missing picture is rejected");
#endif
  WITNESS();
  return 0;
}
