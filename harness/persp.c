/* fcv_calculate_perspective_transform.
 * CASE 1: constant source corners, one coordinate (WHICH, 0..7) of the
 *         destination is any of BASE + 0..N-1: corners are mapped
 * CASE 3: the source corners do not determine a transform
 * CASE 2: the coordinate WHICH (0..15) is infinite or not a number */
#include "verif.h"
#include <math.h>
#include <stdlib.h>
#include "perspectivetransform.h"

static double dist(double a, double b) { return a > b ? a - b : b - a; }

int main(void) {
  double s[8] = {SRC}, d[8] = {DST};
#if CASE != 2
  IN_U8(in_v);
  ASSUME(in_v < N);
  d[WHICH] = BASE + in_v;
#else
  IN_DBL(in_v);
  ASSUME(!(in_v - in_v == 0));
  if (WHICH < 8)
    s[WHICH & 7] = in_v;
  else
    d[WHICH & 7] = in_v;
#endif
  Corners cs = {.tl_x = s[0], .tl_y = s[1], .tr_x = s[2], .tr_y = s[3], .br_x = s[4], .br_y = s[5], .bl_x = s[6], .bl_y = s[7]};
  Corners cd = {.tl_x = d[0], .tl_y = d[1], .tr_x = d[2], .tr_y = d[3], .br_x = d[4], .br_y = d[5], .bl_x = d[6], .bl_y = d[7]};
  const Matrix3x3 *m = fcv_calculate_perspective_transform(&cs, &cd);
  CHECK(m, "always a matrix");
#if CASE == 1
  for (int i = 0; i < 4; i++) {
    const double x = s[2 * i], y = s[2 * i + 1];
    const double w = m->m20 * x + m->m21 * y + m->m22, u = m->m00 * x + m->m01 * y + m->m02, v = m->m10 * x + m->m11 * y + m->m12;
    CHECK(dist(w, 0) > 1e-6, "corners stay finite");
    CHECK(dist(u, w * d[2 * i]) < 1e-5 && dist(v, w * d[2 * i + 1]) < 1e-5, "each corner is mapped to its counterpart");
  }
#else
  CHECK(m->m00 == 1 && m->m01 == 0 && m->m02 == 0 && m->m10 == 0 && m->m11 == 1 && m->m12 == 0 && m->m20 == 0 && m->m21 == 0 && m->m22 == 1, "identity");
#endif
  WITNESS();
}
