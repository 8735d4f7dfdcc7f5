/* fcv_sobel_edge_detection on a WxHxC image whose luma is k * S, 0 <= k <= K
 * (so that every gradient magnitude is S * sqrt(n), n <= 32 K K).
 * CASE 1: ordered like the magnitude; extremes 0 and 255; CASE 2: constant and
 * reject; CASE 3: colour images against their luma */
#include "verif.h"
#if CASE == 2
#include "failalloc.h"
#endif
#include "sobel_edge_detection.h"
#define N (W * H)
#if CASE != 2 && !defined(VERIF_REPLAY)
double __CPROVER_uninterpreted_sqrt(double);
static const double sqtab[] = SQTAB; /* sqrt(n * S * S), correctly rounded */
double sqrt(double x) {
  if (x >= 0 && x <= 32.0 * K * K * S * S) {
    uint32_t i = (uint32_t)x, n = i / (S * S);
    if (n * (S * S) == i && (double)i == x)
      return sqtab[n];
  }
  return __CPROVER_uninterpreted_sqrt(x);
}
#endif
int main(void) {
#if CASE == 1
  IN_ARR_U8(in_px, N * C);
  static int l[N];
#ifdef FREE /* the other pixels follow the pattern PAT */
  for (int i = 0; i < N; i++)
    if (!(FREE >> i & 1))
      in_px[i * C] = PAT >> i & 1;
#endif
  for (int i = 0; i < N; i++) {
#if C == 1
    ASSUME(in_px[i] <= K);
    in_px[i] *= S;
    l[i] = in_px[i];
#elif defined(GREY)
    /* grey colour pixels: luma of (v,v,v) is v */
    ASSUME(in_px[i * C] <= K);
    in_px[i * C] *= S;
    in_px[i * C + 1] = in_px[i * C + 2] = in_px[i * C];
    l[i] = in_px[i * C];
#else
    /* S == 1: dark colours */
    ASSUME(in_px[i * C] <= 4 * K && in_px[i * C + 1] <= 2 * K && in_px[i * C + 2] <= 4 * K);
    l[i] = (76 * in_px[i * C] + 150 * in_px[i * C + 1] + 30 * in_px[i * C + 2]) / 256;
    ASSUME(l[i] <= K);
#endif
  }
  SNAPSHOT(in_px, N * C);
  uint8_t *o = fcv_sobel_edge_detection(W, H, C, in_px);
  CHECK(o && BLOCK_AT_LEAST(o, N), "one byte per pixel");
  int m[N], lo = 1 << 30, hi = 0;
  for (int i = 0; i < N; i++) {
    int gx = 0, gy = 0;
    for (int d = -1; d <= 1; d++) {
      const int x = i % W, y = i / W;
      const int xm = x > 0 ? x - 1 : 0, xp = x < W - 1 ? x + 1 : x, ym = y > 0 ? y - 1 : 0, yp = y < H - 1 ? y + 1 : y;
      const int yy = d < 0 ? ym : d > 0 ? yp : y, xx = d < 0 ? xm : d > 0 ? xp : x, k = d == 0 ? 2 : 1;
      gx += k * (l[yy * W + xp] - l[yy * W + xm]);
      gy += k * (l[yp * W + xx] - l[ym * W + xx]);
    }
    m[i] = gx * gx + gy * gy;
    if (m[i] < lo)
      lo = m[i];
    if (m[i] > hi)
      hi = m[i];
  }
  for (int i = 0; i < N; i++) {
    if (m[i] == lo)
      CHECK(o[i] == 0, "the weakest gradient becomes 0");
    else if (m[i] == hi)
      CHECK(o[i] == 255, "the strongest gradient becomes 255");
#ifdef ORDER
    for (int j = 0; j < i; j++) {
      CHECK(m[i] > m[j] || o[i] <= o[j], "ordered by gradient magnitude");
      CHECK(m[j] > m[i] || o[j] <= o[i], "ordered by gradient magnitude");
    }
#endif
  }
  UNCHANGED(in_px, N * C, "input image unchanged");
  free(o);
#else
  static uint8_t px[16];
  CHECK(!fcv_sobel_edge_detection(0, 1, 1, px) && !fcv_sobel_edge_detection(1, 0, 1, px) && !fcv_sobel_edge_detection(1, 1, 0, px) &&
          !fcv_sobel_edge_detection(1, 1, 1, NULL), "missing image or empty size rejected");
  NOALLOC("rejected before anything is allocated");
#endif
  WITNESS();
}
