/* fcv_apply_matrix_3x3 from a WxH image to an OWxOH one.
 * CASE 1: any nine doubles; 2: integer translations; 3: concrete affine
 * matrix in quarter steps QM, exact blends; 4: rejects; 5: half-turn patch */
#include "verif.h"
#if CASE == 4
#include "failalloc.h"
#endif
#include "perspectivetransform.h"
#define LEN ((size_t)W * H * 4)
int main(void) {
#if CASE < 4 || CASE == 5
  IN_ARR_U8(in_px, LEN);
#ifdef ONECH
  for (size_t i = 0; i < LEN; i++)
    if (i % 4 != ONECH)
      in_px[i] = (uint8_t)(i * 37);
#endif
#ifdef LV0 /* two levels in the observed channel */
  for (size_t i = 0; i < LEN; i++)
    if (i % 4 == ONECH)
      in_px[i] = in_px[i] & 1 ? LV1 : LV0;
#endif
  SNAPSHOT(in_px, LEN);
  IN_U32(in_at);
  ASSUME(in_at < OW * OH * 4);
  const int ox = in_at / 4 % OW, oy = in_at / 4 / OW, c = in_at % 4;
#endif
#if CASE == 1
  IN_ARR(double, in_m, 9);
  Matrix3x3 t = {in_m[0], in_m[1], in_m[2], in_m[3], in_m[4], in_m[5], in_m[6], in_m[7], in_m[8]};
  uint8_t *o = fcv_apply_matrix_3x3(W, H, in_px, OW, OH, &t);
  CHECK(o && BLOCK_AT_LEAST(o, OW * OH * 4), "an image of the requested size");
  /* the origin maps to (m02/m22, m12/m22) */
  double z = in_m[8];
  bool flip = in_m[0] < -0.999 && in_m[0] > -1.001 && in_m[4] < -0.999 && in_m[4] > -1.001;
  bool zero = false;
  for (int i = 0; i < 9; i++)
    if (in_m[i] - in_m[i] != 0)
      zero = true;
  if (!zero && !flip && ((z > 0 && (in_m[2] <= -z || in_m[5] <= -z)) || (z < 0 && (in_m[2] >= -z || in_m[5] >= -z))))
    CHECK(o[0] == 0 && o[1] == 0 && o[2] == 0 && o[3] == 0, "pixels from outside of the source are blank");
#elif CASE == 2
#ifdef TX
  const int in_tx = TX, in_ty = TY;
#else
  IN_I32(in_tx);
  IN_I32(in_ty);
#endif
  ASSUME(in_tx >= -TMAX && in_tx <= TMAX && in_ty >= -TMAX && in_ty <= TMAX);
  Matrix3x3 t = {1, 0, in_tx, 0, 1, in_ty, 0, 0, 1};
  uint8_t *o = fcv_apply_matrix_3x3(W, H, in_px, OW, OH, &t);
  CHECK(o && BLOCK_AT_LEAST(o, OW * OH * 4), "an image of the requested size");
  const int sx = ox + in_tx, sy = oy + in_ty;
  if (sx >= 0 && sx < W && sy >= 0 && sy < H)
    CHECK(o[in_at] == in_px[(sy * W + sx) * 4 + c], "integer translations shift the image");
  else
    CHECK(o[in_at] == 0, "pixels from outside of the source are blank");
#elif CASE == 3
  static const int q[6] = QM; /* quarters */
  Matrix3x3 t = {q[0] / 4.0 * SC, q[1] / 4.0 * SC, q[2] / 4.0 * SC, q[3] / 4.0 * SC, q[4] / 4.0 * SC, q[5] / 4.0 * SC, 0, 0, SC};
  uint8_t *o = fcv_apply_matrix_3x3(W, H, in_px, OW, OH, &t);
  CHECK(o && BLOCK_AT_LEAST(o, OW * OH * 4), "an image of the requested size");
  for (int i = 0; i < OW * OH; i++) {
    const int x4 = q[0] * (i % OW) + q[1] * (i / OW) + q[2], y4 = q[3] * (i % OW) + q[4] * (i / OW) + q[5];
    if (x4 < 0 || y4 < 0 || x4 >= 4 * W || y4 >= 4 * H) {
      CHECK(o[i * 4] == 0 && o[i * 4 + 1] == 0 && o[i * 4 + 2] == 0 && o[i * 4 + 3] == 0, "pixels from outside of the source are blank");
      continue;
    }
    const int x0 = x4 / 4, y0 = y4 / 4, a = x0 + 1 < W ? x4 % 4 : 0, b = y0 + 1 < H ? y4 % 4 : 0;
    const int x1 = x0 + 1 < W ? x0 + 1 : x0, y1 = y0 + 1 < H ? y0 + 1 : y0;
    for (int k = 0; k < 4; k++) {
      const int sum = in_px[(y0 * W + x0) * 4 + k] * (4 - a) * (4 - b) + in_px[(y0 * W + x1) * 4 + k] * a * (4 - b) +
                      in_px[(y1 * W + x0) * 4 + k] * (4 - a) * b + in_px[(y1 * W + x1) * 4 + k] * a * b;
      const int d = sum - 16 * o[i * 4 + k];
      CHECK(d > -16 && d < 16, "every pixel blends its four neighbours by distance");
    }
  }
#elif CASE == 5
  Matrix3x3 t = {-1, 0, 0, 0, -1, 0, 0, 0, 1};
  uint8_t *o = fcv_apply_matrix_3x3(W, H, in_px, W, H, &t);
  CHECK(o && BLOCK_AT_LEAST(o, OW * OH * 4), "an image of the requested size");
  CHECK(o[in_at] == in_px[((H - 1 - oy) * W + W - 1 - ox) * 4 + c], "a half turn about the origin shows the whole image");
#else
  static uint8_t px[4];
  IN_I32(in_w);
  IN_I32(in_h);
  IN_I32(in_ow);
  IN_I32(in_oh);
  Matrix3x3 t = {1, 0, 0, 0, 1, 0, 0, 0, 1};
  void *r = fcv_apply_matrix_3x3(in_w, in_h, px, in_ow, in_oh, &t);
  CHECK(r == NULL, "a failed allocation is reported");
  if (in_w <= 0 || in_h <= 0 || in_ow <= 0 || in_oh <= 0)
    NOALLOC("empty or negative sizes are rejected");
  alloc_calls = 0;
  CHECK(!fcv_apply_matrix_3x3(1, 1, NULL, 1, 1, &t) && !fcv_apply_matrix_3x3(1, 1, px, 1, 1, NULL), "missing arguments rejected");
  NOALLOC("missing arguments are rejected");
#endif
#if CASE != 4
  UNCHANGED(in_px, LEN, "input image unchanged");
  free(o);
#endif
  WITNESS();
}
