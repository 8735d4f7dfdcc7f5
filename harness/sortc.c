/* sort_corners with NC corners on the integer grid 0..G.
 * CASE 1: 4 corners; 2: 3 corners; 3: fewer than 3 */
#include "verif.h"
#include "1_types.h"
#include "sort_corners.h"
#define GW 12
#define GH 9
#define OWW 3
#define OHH 3
static int64_t cross(int64_t *a, int64_t *b, int64_t *c) { return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]); }
int main(void) {
  IN_ARR_U8(in_xy, 2 * NC + 2);
  Point2D c[NC + 1], res[5];
  int64_t v[NC + 1][2];
#ifdef BASE
  /* a quadrilateral near BASE, its corners in the order ORD */
  static const uint8_t base[8] = BASE;
  static const uint8_t in_ord[4] = ORD;
  for (int i = 0; i < NC; i++) {
    ASSUME(in_ord[i] < 4);
    for (int j = 0; j < i; j++)
      ASSUME(in_ord[i] != in_ord[j]);
    ASSUME(in_xy[2 * i] <= (FREE >> 2 * i & 1) && in_xy[2 * i + 1] <= (FREE >> (2 * i + 1) & 1));
    in_xy[2 * i] += base[2 * in_ord[i]];
    in_xy[2 * i + 1] += base[2 * in_ord[i] + 1];
  }
#endif
  for (int i = 0; i < NC; i++) {
    ASSUME(in_xy[2 * i] <= G && in_xy[2 * i + 1] <= G);
    c[i].x = in_xy[2 * i];
    c[i].y = in_xy[2 * i + 1];
    v[i][0] = in_xy[2 * i];
    v[i][1] = in_xy[2 * i + 1];
  }
  Corners k = sort_corners(GW, GH, OWW, OHH, c, NC, res);
#if CASE < 3
  for (int i = 0; i < NC; i++)
    CHECK(c[i].x == v[i][0] && c[i].y == v[i][1], "corners passed in are unchanged");
  /* the four results in the scale of the input */
  int64_t o[4][2];
  const double ox[4] = {k.tl_x, k.tr_x, k.br_x, k.bl_x}, oy[4] = {k.tl_y, k.tr_y, k.br_y, k.bl_y};
  for (int i = 0; i < 4; i++) {
    CHECK(res[i].x * (GW / OWW) == ox[i] && res[i].y * (GH / OHH) == oy[i], "corners are scaled to the image size");
    CHECK(res[i].x >= -G && res[i].x <= 2 * G && res[i].y >= -G && res[i].y <= 2 * G, "corners stay near the given ones");
    o[i][0] = (int64_t)(res[i].x >= -G && res[i].x <= 2 * G ? res[i].x : 0);
    o[i][1] = (int64_t)(res[i].y >= -G && res[i].y <= 2 * G ? res[i].y : 0);
  }
  for (int i = 0; i < NC; i++) {
    int in = 0, out = 0;
    for (int j = 0; j < NC; j++)
      in += v[j][0] == v[i][0] && v[j][1] == v[i][1];
    for (int j = 0; j < 4; j++)
      out += o[j][0] == v[i][0] && o[j][1] == v[i][1];
    CHECK(NC == 4 ? in == out : out >= in, "every corner appears as often as it was given");
  }
#if CASE == 1
  /* strictly convex in the returned order or in some other order */
  bool convex = false;
  static const int perm[3][4] = {{0, 1, 2, 3}, {0, 1, 3, 2}, {0, 2, 1, 3}};
  for (int p = 0; p < 3; p++) {
    int64_t *q0 = v[perm[p][0]], *q1 = v[perm[p][1]], *q2 = v[perm[p][2]], *q3 = v[perm[p][3]];
    int64_t s0 = cross(q0, q1, q2), s1 = cross(q1, q2, q3), s2 = cross(q2, q3, q0), s3 = cross(q3, q0, q1);
    if ((s0 > 0 && s1 > 0 && s2 > 0 && s3 > 0) || (s0 < 0 && s1 < 0 && s2 < 0 && s3 < 0))
      convex = true;
  }
  if (convex) {
    CHECK(cross(o[0], o[1], o[2]) > 0 && cross(o[1], o[2], o[3]) > 0 && cross(o[2], o[3], o[0]) > 0 && cross(o[3], o[0], o[1]) > 0,
          "a convex quadrilateral is returned in clockwise order");
    for (int j = 1; j < 4; j++)
      CHECK(o[0][0] + o[0][1] <= o[j][0] + o[j][1], "the first corner is the one nearest to the top left");
  }
#else
  /* three corners of an upright rectangle are completed */
  for (int i = 0; i < 3; i++) {
    int64_t *q = v[i], *a = v[(i + 1) % 3], *b = v[(i + 2) % 3];
    if (a[0] == q[0] && b[1] == q[1] && a[1] != q[1] && b[0] != q[0]) {
      bool found = false;
      for (int j = 0; j < 4; j++)
        if (o[j][0] == b[0] && o[j][1] == a[1])
          found = true;
      CHECK(found, "the missing corner of an upright rectangle is added");
    }
  }
#endif
#else
  CHECK(k.tl_x == 0 && k.tl_y == 0 && k.tr_x == 0 && k.tr_y == 0 && k.br_x == 0 && k.br_y == 0 && k.bl_x == 0 && k.bl_y == 0,
        "too few corners give the empty result");
#endif
  WITNESS();
}
