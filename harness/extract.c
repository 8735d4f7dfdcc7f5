/* fcv_extract_document (AUTO 0) and fcv_extract_document_auto (AUTO 1) with
 * recorders in place of the detector, the transform and the warp.  With AUTO,
 * corner MOVE is anywhere in [X0, X1] x [Y0, Y1]. */
#include "verif.h"
#include <math.h>
#include <stdlib.h>
#include "perspectivetransform.h"
static int live, bad_free;
static Matrix3x3 identity;
static void *heap_matrix;
static void put_(void *p) {
  if (p == &identity) {
    bad_free = 1;
    return;
  }
  if (p)
    live--;
  free(p);
}
static double root(double v);
static double square(double v, double e) {
  CHECK(e == 2, "squares");
  return v * v;
}
#define free put_
#ifndef VERIF_REPLAY
#define sqrt root
#define pow square
#endif
#include "extract_document.c"
#undef free
#undef sqrt
#undef pow

static uint32_t in_w, in_h;
static const uint8_t *in_data;
static Corners found;
static int n_detect, n_transform, n_warp, mode;
static uint32_t want_w, want_h;
static uint8_t *result;
static int32_t side[4]; /* squared lengths */
static double length[4];

static double root(double v) {
  for (int i = 0; i < 4; i++)
    if (v == side[i])
      return length[i];
  CHECK(0, "length of a side");
  return v;
}
Corners fcv_detect_corners(const uint8_t *d, int32_t w, int32_t h) {
  CHECK(n_detect == 0 && d == in_data && w == (int32_t)in_w && h == (int32_t)in_h && w > 0 && h > 0, "detects the corners of the picture once");
  n_detect++;
  return found;
}
static bool same(const Corners *a, const Corners *b) {
  return a->tl_x == b->tl_x && a->tl_y == b->tl_y && a->tr_x == b->tr_x && a->tr_y == b->tr_y && a->br_x == b->br_x && a->br_y == b->br_y &&
         a->bl_x == b->bl_x && a->bl_y == b->bl_y;
}
Matrix3x3 *fcv_calculate_perspective_transform(Corners *s, Corners *d) {
  if (!s || !d)
    return &identity;
  CHECK(n_transform == 0 && n_detect == 1, "one transform");
  n_transform++;
  const double r = (double)want_w - 1, b = (double)want_h - 1;
  const Corners whole = {.tl_x = 0, .tl_y = 0, .tr_x = r, .tr_y = 0, .br_x = r, .br_y = b, .bl_x = 0, .bl_y = b};
  CHECK(want_w == 0 || want_h == 0 || same(s, &whole), "from the corners of the output");
  CHECK(same(d, &found), "to the detected corners");
  if (mode == 1)
    return NULL;
  if (mode == 2)
    return &identity;
  live++;
  return heap_matrix = malloc(sizeof(Matrix3x3));
}
uint8_t *fcv_apply_matrix_3x3(int32_t w, int32_t h, uint8_t *d, int32_t ow, int32_t oh, Matrix3x3 *m) {
  CHECK(n_warp == 0 && n_transform == 1 && d == in_data && w == (int32_t)in_w && h == (int32_t)in_h, "warps the picture once");
  CHECK((uint32_t)ow == want_w && (uint32_t)oh == want_h, "to the size wanted");
  CHECK(m == (mode == 2 ? &identity : heap_matrix) && live == (mode != 2), "with the transform");
  n_warp++;
  return result;
}

int main(void) {
  IN_U32(in_width);
  IN_U32(in_height);
  IN_U8(in_mode);
  uint8_t px[4], out[4];
  in_w = in_width;
  in_h = in_height;
  mode = in_mode & 3;
  in_data = in_mode & 4 ? NULL : px;
  result = in_mode & 8 ? NULL : out;
  const bool reject = !in_data || !in_w || !in_h || in_w > INT32_MAX || in_h > INT32_MAX;
#if AUTO
  IN_I32(in_x);
  IN_I32(in_y);
  ASSUME(in_x >= X0 && in_x <= X1 && in_y >= Y0 && in_y <= Y1);
  int32_t in_c[8] = {PTS};
  in_c[2 * MOVE] = in_x;
  in_c[2 * MOVE + 1] = in_y;
  double *f[] = {&found.tl_x, &found.tl_y, &found.tr_x, &found.tr_y, &found.br_x, &found.br_y, &found.bl_x, &found.bl_y};
  for (int i = 0; i < 8; i++)
    *f[i] = in_c[i];
  IN_ARR(int32_t, in_len, 4);
  for (int i = 0; i < 4; i++) { /* top, right, bottom, left */
    const int32_t dx = in_c[2 * i] - in_c[(2 * i + 2) % 8], dy = in_c[2 * i + 1] - in_c[(2 * i + 3) % 8];
    const int32_t s = dx * dx + dy * dy;
    side[i] = s;
#ifdef VERIF_REPLAY
    length[i] = sqrt(side[i]);
#else
    /* to a quarter, which is enough for rounding */
    const int32_t k = in_len[i];
    ASSUME(k >= 0 && k <= 8192);
    ASSUME(k * k <= 16 * side[i] && 16 * side[i] < (k + 1) * (k + 1));
    length[i] = k / 4.0;
#endif
  }
  const double mw = length[0] > length[2] ? length[0] : length[2], mh = length[1] > length[3] ? length[1] : length[3];
  want_w = mw < 100 ? 100 : (uint32_t)(mw + 0.5);
  want_h = mh < 100 ? 100 : (uint32_t)(mh + 0.5);
  uint32_t ow = 0, oh = 0;
  const uint8_t *r = fcv_extract_document_auto(in_w, in_h, in_data, in_mode & 16 ? NULL : &ow, in_mode & 32 ? NULL : &oh);
  const bool rej = reject || in_mode & 48;
  if (r)
    CHECK(ow == want_w && oh == want_h, "the size is reported");
#else
  IN_U32(in_ow);
  IN_U32(in_oh);
  IN_DBL(in_a);
  IN_DBL(in_b);
  IN_DBL(in_c);
  IN_DBL(in_d);
  IN_DBL(in_e);
  ASSUME(in_a == in_a && in_b == in_b && in_c == in_c && in_d == in_d && in_e == in_e);
  found = (Corners){.tl_x = in_a, .tl_y = in_b, .tr_x = in_c, .tr_y = in_d, .br_x = in_e, .br_y = -in_a, .bl_x = in_d, .bl_y = -in_e};
  want_w = in_ow;
  want_h = in_oh;
  const uint8_t *r = fcv_extract_document(in_w, in_h, in_data, in_ow, in_oh);
  const bool rej = reject;
#endif
  if (rej)
    CHECK(!r && n_detect == 0, "missing data and empty pictures are rejected");
  else {
    CHECK(n_transform == 1 && n_warp == (mode != 1), "every stage is run");
    CHECK(r == (mode == 1 ? NULL : result), "result of the warp");
  }
  CHECK(live == 0 && !bad_free, "the transform is released, but not the shared identity");
  WITNESS();
}
