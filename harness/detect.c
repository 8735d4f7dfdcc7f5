/* fcv_detect_corners with all stages replaced by recorders: the plumbing
 * between them, the search for thresholds, and what is made of the peaks.
 * CASE 1: any sequence of numbers of peaks below five, any coordinates
 * CASE 2: NP > 4 peaks, one of which (MOVE) is anywhere in [X0, X1] x [Y0, Y1]:
 *         the four with the sharpest turn */
#include "verif.h"
#include <math.h>
#include <stdlib.h>
#include "perspectivetransform.h"
#ifndef OW
#define OW 2
#define OH 4
#endif
#ifndef NP
#define NP 4
#endif
#ifndef ROOTS
#define ROOTS default: break;
#endif
#define BYTES ((OW + 2) * (OH + 2) * 4)
static int live;
static void *get_(size_t n) {
  live++;
#ifndef VERIF_REPLAY
  /* objects of constant size, as the solver is slow on others */
  for (size_t k = 3; k <= 6; k++)
    if (n == k * sizeof(Point2D) && k * sizeof(Point2D) != BYTES) {
      Point2D *p = malloc(k * sizeof(Point2D));
      return p;
    }
  const size_t sizes[] = {1, OW * OH, OW * OH * 2, OW * OH * 4, BYTES, NP * sizeof(double)};
  for (int i = 0; i < 6; i++)
    if (n == sizes[i])
      return malloc(sizes[i]);
  CHECK(0, "sizes known to the harness");
  return malloc(1);
#endif
  return malloc(n);
}
static void *get0_(size_t a, size_t b) {
  live++;
#ifndef VERIF_REPLAY
  size_t n; /* a size which is not constant selects the array theory */
  ASSUME(n == a * b);
  int32_t *p = malloc(n);
  __CPROVER_array_set(p, 0);
  return p;
#else
  return calloc(a, b);
#endif
}
static void put_(void *p) {
  if (p)
    live--;
  free(p);
}
static void exit_(int c) {
  CHECK(0, "no failing stage, no exit");
  ASSUME(0);
}
#include "binary_closing_disk.h"
#include "conversion.h"
#include "convert_to_binary.h"
#include "corner_peaks.h"
#include "draw.h"
#include "foerstner_corner.h"
#include "perspectivetransform.h"
#include "sobel_edge_detection.h"
#include "sort_corners.h"
#include "watershed_segmentation.h"
#define malloc get_
#define calloc get0_
#define free put_
#define exit exit_
#ifndef VERIF_REPLAY
#define asin(x) (x) /* only the order of the angles matters */
#define sqrt root
/* the correctly rounded roots of all squared distances which occur */
static double root(double x) {
  const uint32_t v = (uint32_t)x;
  switch (v == x ? v : 0xFFFFFFFF) { ROOTS }
  CHECK(0, "root of a distance of the points");
  return x;
}
#endif
#include "corner_detection.c"
#undef malloc
#undef calloc
#undef free
#undef exit
#undef asin
#undef sqrt

#if CASE == 1
#define CALLS 12
#else
#define CALLS 1
#endif
static int32_t W, H;
static const uint8_t *in_image;
static uint8_t *gray, *small, *blurred, *elevation, *bordered, *labels, *binary, *closed, *response;
static int n_peaks;
static uint8_t counts[CALLS];
static double last_a, last_r;
static Point2D sorted[NP + 1], *given;
static CornerPeaks *last_peaks;
static int n_sort;

uint8_t *fcv_grayscale(uint32_t w, uint32_t h, uint8_t const *const d) {
  CHECK(!gray && d == in_image && w == (uint32_t)W && h == (uint32_t)H, "starts with the picture");
  return gray = get_(1);
}
uint8_t *fcv_resize(uint32_t w, uint32_t h, double x, double y, uint32_t *ow, uint32_t *oh, uint8_t const *const d) {
  CHECK(!small && d == gray && w == (uint32_t)W && h == (uint32_t)H, "resizes the grey picture");
  CHECK(x == 256.0 / W && y == 256.0 / H, "to the working size");
  *ow = OW;
  *oh = OH;
  return small = get_(1);
}
uint8_t *fcv_apply_gaussian_blur(uint32_t w, uint32_t h, double r, uint8_t const *const d) {
  CHECK(!blurred && d == small && w == OW && h == OH, "blurs the small picture");
  return blurred = get_(1);
}
uint8_t *fcv_sobel_edge_detection(uint32_t w, uint32_t h, uint32_t c, uint8_t const *const d) {
  CHECK(!elevation && d == blurred && w == OW && h == OH && c == 4, "edges of the blurred picture");
  return elevation = get_(1);
}
void fcv_draw_disk(uint32_t w, uint32_t h, uint32_t c, const char *s, double r, double x, double y, uint8_t *d) {
  CHECK(d == elevation && w == OW && h == OH && c == 1, "flattens the middle of the elevations");
}
uint8_t *fcv_add_border(uint32_t w, uint32_t h, uint32_t c, const char *s, uint32_t b, uint8_t *d, uint32_t *ow, uint32_t *oh) {
  CHECK(!bordered && d == elevation && w == OW && h == OH && c == 1 && b == 1, "border around the elevations");
  *ow = OW + 2;
  *oh = OH + 2;
  return bordered = get_(1);
}
/* label of a pixel of the working size, both occur */
static bool inside(int x, int y) { return (x + 2 * y) % 3 == 0; }
uint8_t *fcv_watershed_segmentation(uint32_t w, uint32_t h, uint8_t const *const d, Point2D *m, uint32_t n, bool b) {
  CHECK(!labels && d == bordered && w == OW + 2 && h == OH + 2 && n == 2 && !b, "floods the elevations");
  CHECK(m[0].x >= 1 && m[0].x < w - 1 && m[0].y >= 1 && m[0].y < h - 1, "from the middle");
  CHECK(m[1].x >= 0 && m[1].y >= 0 && m[1].x < w && m[1].y < h && (m[1].x < 1 || m[1].y < 1 || m[1].x >= w - 1 || m[1].y >= h - 1), "and from the border");
  labels = get_((OW + 2) * (OH + 2) * 4);
  for (int y = 0; y < OH + 2; y++)
    for (int x = 0; x < OW + 2; x++) {
      uint8_t *p = labels + 4 * (y * (OW + 2) + x);
      const bool in = x >= 1 && y >= 1 && x <= OW && y <= OH && inside(x - 1, y - 1);
      p[0] = in ? 255 : 0;
      p[1] = in ? 0 : 255;
      p[2] = 0;
      p[3] = 255;
    }
  return labels;
}
uint8_t *fcv_convert_to_binary(const uint8_t *d, int32_t w, int32_t h, const char *f, const char *b) {
  CHECK(!binary && w == OW && h == OH, "working size");
  for (int y = 0; y < OH; y++)
    for (int x = 0; x < OW; x++) {
      const uint8_t *p = d + 4 * (y * OW + x);
      CHECK(p[0] == (inside(x, y) ? 255 : 0) && p[1] == (inside(x, y) ? 0 : 255), "regions without the border");
    }
  return binary = get_(1);
}
uint8_t *fcv_binary_closing_disk(uint8_t const *d, int32_t w, int32_t h, int32_t r) {
  CHECK(!closed && d == binary && w == OW && h == OH, "closes the region");
  return closed = get_(1);
}
uint8_t *fcv_foerstner_corner(uint32_t w, uint32_t h, uint8_t const *const d, double s) {
  CHECK(!response && d == closed && w == OW && h == OH, "looks for corners of the closed region");
  return response = get_(OW * OH * 2);
}
CornerPeaks *fcv_corner_peaks(uint32_t w, uint32_t h, uint8_t const *d, uint32_t dist, double a, double r) {
  CHECK(d == response && w == OW && h == OH, "peaks of the response");
  CHECK(n_peaks < CALLS, "number of attempts");
  CHECK(a > 0 && r > 0 && a < 1 && r < 1, "thresholds stay positive");
  if (n_peaks)
    CHECK(counts[n_peaks - 1] < 4 && a <= last_a && r <= last_r && (a < last_a || r < last_r), "lowered while there are too few peaks");
  last_a = a;
  last_r = r;
  CornerPeaks *p = malloc(sizeof *p);
  live++;
  p->count = counts[n_peaks++];
  p->points = get_(sizeof(Point2D)); /* only sorted */
  last_peaks = p;
  given = p->points;
  return p;
}
Corners sort_corners(uint32_t w, uint32_t h, uint32_t ow, uint32_t oh, Point2D *c, uint32_t n, Point2D *res) {
  Corners z = {0};
  n_sort++;
  CHECK(c == given && n == last_peaks->count && n >= 3 && n <= NP, "sorts the peaks found");
  CHECK(w == (uint32_t)W && h == (uint32_t)H && ow == OW && oh == OH, "sizes");
  for (uint32_t i = 0; i < (n < 4 ? 4 : n); i++)
    res[i] = sorted[i];
  return z;
}

/* in place of count_colors, whose table has 2^24 entries */
int32_t rec_count(const uint8_t *p, int32_t w, int32_t h) {
  CHECK(w == OW && h == OH, "counts the regions of the working size");
  for (int i = 0; i < OW * OH; i++)
    CHECK(p[4 * i] == 255 * inside(i % OW, i / OW), "regions without the border");
  return 2;
}

int main(void) {
  uint8_t px[4] = {0};
  in_image = px;
#if CASE == 1
  IN_I32(in_w);
  IN_I32(in_h);
  IN_U8(in_ws);
  IN_U8(in_hs);
  ASSUME(in_w > 0 && in_h > 0 && in_w <= WMAX && in_h <= WMAX && in_ws <= 24 && in_hs <= 24);
  W = in_w << in_ws; /* with few significant bits */
  H = in_h << in_hs;
  IN_ARR_U8(in_counts, CALLS);
  for (int i = 0; i < CALLS; i++) {
    ASSUME(in_counts[i] <= 4);
    counts[i] = in_counts[i];
  }
  IN_ARR_U8(in_xy, 8);
  for (int i = 0; i < 4; i++)
    sorted[i] = (Point2D){.x = in_xy[2 * i], .y = in_xy[2 * i + 1]};
#else
  W = 5 * OW;
  H = 7 * OH;
  for (int i = 0; i < CALLS; i++)
    counts[i] = NP;
  IN_U8(in_x);
  IN_U8(in_y);
  ASSUME(in_x <= X1 - X0 && in_y <= Y1 - Y0);
  static const int pts[2 * NP] = {PTS};
  int px_[NP], py_[NP];
  for (int i = 0; i < NP; i++) {
    px_[i] = i == MOVE ? X0 + in_x : pts[2 * i];
    py_[i] = i == MOVE ? Y0 + in_y : pts[2 * i + 1];
    sorted[i] = (Point2D){.x = px_[i], .y = py_[i]};
  }
#endif
#if PTR
  Corners *cp = fcv_detect_corners_ptr(px, W, H);
  CHECK(cp, "given on the heap");
  const Corners c = *cp;
  put_(cp);
#else
  const Corners c = fcv_detect_corners(px, W, H);
#endif
  CHECK(live == 0, "all intermediate images are released");
  CHECK(n_peaks > 0, "peaks are looked for");
  const double g[8] = {c.tl_x, c.tl_y, c.tr_x, c.tr_y, c.br_x, c.br_y, c.bl_x, c.bl_y};
#if CASE == 1
  const int n = counts[n_peaks - 1];
  if (n < 4)
    CHECK(last_a <= 0.11 && last_r <= 0.11, "gives up at low thresholds only");
  if (n < 3) {
    CHECK(n_sort == 0, "too few peaks");
    CHECK(g[0] == 0 && g[1] == 0 && g[2] == W - 1 && g[3] == 0 && g[4] == W - 1 && g[5] == H - 1 && g[6] == 0 && g[7] == H - 1, "whole picture");
  }
  else {
    CHECK(n_sort == 1, "sorted once");
    for (int i = 0; i < 4; i++)
      CHECK(g[2 * i] == sorted[i].x * ((double)W / OW) && g[2 * i + 1] == sorted[i].y * ((double)H / OH), "scaled to the picture, in order");
  }
#else
  /* bit set of the four sharpest turns for each place of the moving peak, from
   * exact arithmetic; 0 if two are about the same */
  static const uint8_t four[Y1 - Y0 + 1][X1 - X0 + 1] = {FOUR};
  const uint8_t set = four[in_y][in_x];
  int k = 0;
  bool found = true;
  for (int i = 0; i < NP; i++)
    if (set >> i & 1) {
      found = found && k < 4 && g[2 * (k & 3)] == 5 * px_[i] && g[2 * (k & 3) + 1] == 7 * py_[i];
      k++;
    }
  CHECK(found, "the four sharpest turns, in order");
#endif
  WITNESS();
}
