/* fcv_corner_peaks on a WxH response image (two bytes per pixel).
 * CASE 1: soundness, separation and completeness; 2: rejects */
#include "verif.h"
#if CASE == 2
#include "failalloc.h"
#endif
#include "1_types.h"
#include "corner_peaks.h"
#define N ((size_t)W * H)
int main(void) {
#if CASE == 1
  IN_ARR_U8(in_px, N * 2);
#ifdef MAXV
  for (size_t i = 0; i < N * 2; i++)
    ASSUME(in_px[i] <= MAXV);
#endif
  SNAPSHOT(in_px, N * 2);
  CornerPeaks *p = fcv_corner_peaks(W, H, in_px, DIST, ACC / 255.0, ROU / 255.0);
  CHECK(p != NULL, "a valid response is accepted");
  CHECK(p->count <= (W > 2 && H > 2 ? (W - 2) * (H - 2) : 0), "at most one peak per inner pixel");
  int sel[N];
  bool cand[N];
  for (int i = 0; i < N; i++) {
    sel[i] = 0;
    const int x = i % W, y = i / W;
    cand[i] = x > 0 && y > 0 && x < W - 1 && y < H - 1 && in_px[2 * i] > ACC && in_px[2 * i + 1] > ROU && in_px[2 * i] > 0;
    for (int d = 0; d < 9; d++) {
      const int nx = x + d % 3 - 1, ny = y + d / 3 - 1;
      if (nx >= 0 && ny >= 0 && nx < W && ny < H && in_px[2 * (ny * W + nx)] > in_px[2 * i])
        cand[i] = false;
    }
  }
  for (uint32_t k = 0; k < (W > 2 && H > 2 ? (W - 2) * (H - 2) : 0); k++)
    if (k < p->count) {
      double fx = p->points[k].x, fy = p->points[k].y;
      CHECK(fx >= 0 && fx < W && fy >= 0 && fy < H, "peaks lie inside the image");
      int x = (int)fx, y = (int)fy;
      CHECK(x == fx && y == fy, "peaks are pixels");
      if (x >= 0 && x < W && y >= 0 && y < H)
        sel[y * W + x]++;
    }
  for (int i = 0; i < N; i++) {
    CHECK(sel[i] <= 1, "no peak is reported twice");
    CHECK(!sel[i] || cand[i], "only local maxima above both thresholds are peaks");
    bool near = false;
    for (int j = 0; j < N; j++) {
      const int dx = i % W - j % W, dy = i / W - j / W;
      if (i != j && dx * dx + dy * dy < DIST * DIST) {
        CHECK(!(sel[i] && sel[j]), "peaks keep the minimum distance");
        if (cand[j] && in_px[2 * j] >= in_px[2 * i])
          near = true;
      }
    }
    CHECK(!cand[i] || sel[i] || near, "a maximum is dropped only for a neighbour at least as strong");
  }
  UNCHANGED(in_px, N * 2, "response unchanged");
  POOL_CHECK();
  free(p->points);
  free(p);
#else
  static uint8_t px[64];
  IN_DBL(in_a);
  ASSUME(in_a - in_a != 0);
  CHECK(!fcv_corner_peaks(4, 4, px, 1, in_a, 0.1) && !fcv_corner_peaks(4, 4, px, 1, 0.1, in_a), "non-finite thresholds rejected");
  CHECK(!fcv_corner_peaks(0, 4, px, 1, 0.1, 0.1) && !fcv_corner_peaks(4, 0, px, 1, 0.1, 0.1) && !fcv_corner_peaks(4, 4, NULL, 1, 0.1, 0.1), "empty or missing images rejected");
  NOALLOC("rejected before anything is allocated");
#endif
  WITNESS();
}
