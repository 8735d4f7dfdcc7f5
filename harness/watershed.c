/* fcv_watershed_segmentation on a WxH map with NM markers.
 * CASE 1: elevations 0..LEVELS-1 symbolic, markers MK concrete or symbolic
 * CASE 2: markers that must be rejected / accepted, no flooding */
#include "verif.h"
#if CASE == 2
#include "failalloc.h"
#endif
#include "1_types.h"
#include "watershed_segmentation.h"
#define N ((size_t)W * H)
#if CASE == 1
static int label(const uint8_t *p) {
  static const uint8_t col[5][3] = {{255, 0, 0}, {0, 255, 0}, {0, 0, 255}, {255, 255, 0}, {255, 0, 255}};
  if (p[0] == 0 && p[1] == 0 && p[2] == 0)
    return -1;
  for (int k = 0; k < NM; k++)
    if (p[0] == col[k][0] && p[1] == col[k][1] && p[2] == col[k][2])
      return k;
  return -2;
}
int main(void) {
#ifdef MAP
  uint8_t in_px[N] = MAP;
#else
  IN_ARR_U8(in_px, N);
  for (size_t i = 0; i < N; i++)
    ASSUME(in_px[i] < LEVELS);
#endif
  SNAPSHOT(in_px, N);
  Point2D m[NM];
#ifdef MK
  static const int mk[NM] = MK;
#else
  IN_ARR_U8(in_mk, NM);
#define mk in_mk
#endif
  for (int k = 0; k < NM; k++) {
    ASSUME(mk[k] < N);
#ifdef FRAC
    m[k].x = mk[k] % W + 0.75;
    m[k].y = mk[k] / W + 0.25;
#else
    m[k].x = mk[k] % W;
    m[k].y = mk[k] / W;
#endif
    for (int j = 0; j < k; j++)
      ASSUME(mk[j] != mk[k]);
  }
  uint8_t *o = fcv_watershed_segmentation(W, H, in_px, m, NM, BND);
  CHECK(o && BLOCK_AT_LEAST(o, N * 4), "valid markers are accepted");
  int l[N];
  for (size_t i = 0; i < N; i++) {
    l[i] = label(&o[i * 4]);
    CHECK(l[i] != -2 && o[i * 4 + 3] == 255, "every pixel has the colour of a marker or is black, opaque");
  }
  for (int k = 0; k < NM; k++)
    CHECK(l[mk[k]] == k, "a marker keeps its own region");
  for (int i = 0; i < N; i++) {
    bool ismark = false, same = false, nb1 = false, nb2 = false;
    int first = -1;
    for (int k = 0; k < NM; k++)
      if (mk[k] == i)
        ismark = true;
    const int x = i % W, y = i / W;
    for (int d = 0; d < 4; d++) {
      const int nx = x + (d == 0) - (d == 1), ny = y + (d == 2) - (d == 3);
      if (nx < 0 || ny < 0 || nx >= W || ny >= H)
        continue;
      int q = l[ny * W + nx];
      if (q >= 0 && q == l[i])
        same = true;
      if (q >= 0 && first == -1)
        first = q;
      if (q >= 0 && first != q)
        nb2 = true;
      if (q >= 0)
        nb1 = true;
    }
    if (l[i] >= 0)
      CHECK(ismark || same, "a region grows from neighbour to neighbour");
#if BND
    else
      CHECK(!nb1 || nb2, "an unlabelled pixel separates regions");
#else
    else
      CHECK(false, "no pixel stays unlabelled");
#endif
#if NM == 1
    CHECK(l[i] == 0, "a single marker floods the whole image");
#endif
  }
#if NM == 2 && defined(LINE) && !BND
  /* one row: the highest pixel between the markers separates, so each side's
   * lower part belongs to its own marker */
  for (int i = 0; i < N; i++) {
    int a = mk[0], b = mk[1];
    int lo = a < b ? a : b, hi = a < b ? b : a, kl = a < b ? 0 : 1;
    if (i < lo)
      CHECK(l[i] == kl, "pixels beyond a marker belong to it");
    if (i > hi)
      CHECK(l[i] == 1 - kl, "pixels beyond a marker belong to it");
    if (i > lo && i < hi) {
      int ml = 0, mh = 0;
      for (int j = lo + 1; j <= i; j++)
        if (in_px[j] > ml)
          ml = in_px[j];
      for (int j = i; j < hi; j++)
        if (in_px[j] > mh)
          mh = in_px[j];
      if (ml < mh)
        CHECK(l[i] == kl, "the flood arrives over the lower ridge first");
      if (ml > mh)
        CHECK(l[i] == 1 - kl, "the flood arrives over the lower ridge first");
    }
  }
#endif
  UNCHANGED(in_px, N, "input image unchanged");
  free(o);
  WITNESS();
}
#else
int main(void) {
  static uint8_t px[N];
  Point2D m[2];
  IN_DBL(in_x);
  IN_DBL(in_y);
  IN_U8(in_first);
  m[in_first & 1].x = in_x;
  m[in_first & 1].y = in_y;
  m[1 - (in_first & 1)].x = 0;
  m[1 - (in_first & 1)].y = 0;
  bool fin = in_x - in_x == 0 && in_y - in_y == 0;
  bool out = !fin || in_x >= W || in_y >= H || in_x <= -1 || in_y <= -1;
  void *r = fcv_watershed_segmentation(W, H, px, m, 2, false);
  CHECK(r == NULL, "a failed allocation is reported");
  if (out)
    NOALLOC("markers outside of the image are rejected");
  if (fin && in_x >= 0 && in_x < W && in_y >= 0 && in_y < H)
    CHECK(alloc_calls > 0, "markers inside of the image are accepted");
  alloc_calls = 0;
  m[0].x = m[0].y = m[1].x = m[1].y = 0;
  CHECK(!fcv_watershed_segmentation(W, H, px, m, 0, false) && !fcv_watershed_segmentation(W, H, px, NULL, 1, false) &&
          !fcv_watershed_segmentation(W, H, NULL, m, 1, false) && !fcv_watershed_segmentation(0, H, px, m, 1, false) &&
          !fcv_watershed_segmentation(W, 0, px, m, 1, false), "missing arguments rejected");
  NOALLOC("rejected before anything is allocated");
  WITNESS();
}
#endif
