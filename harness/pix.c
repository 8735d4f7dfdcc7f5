/* Per-pixel conversions. CASE:
 * 1 grayscale + rgba_to_grayscale  2 global threshold  3 single_to_multichannel
 * 4 convert_to_binary */
#include "verif.h"
#include "conversion.h"
#include "rgba_to_grayscale.h"
#include "single_to_multichannel.h"
#include "convert_to_binary.h"
#define N ((size_t)W * H)

#if CASE == 1
int main(void) {
  IN_ARR_U8(in_px, N * 4);
  SNAPSHOT(in_px, N * 4);
  IN_U32(in_i);
  ASSUME(in_i < N);
  uint8_t *o = fcv_grayscale(W, H, in_px);
  uint8_t *s = fcv_rgba_to_grayscale(W, H, in_px);
  CHECK(o && s, "a valid image is accepted");
  CHECK(BLOCK_AT_LEAST(o, N * 4) && BLOCK_AT_LEAST(s, N), "results hold all pixels");
  /* every pixel is compared at a constant index, with the oracle written as the
   * documented weighted sum */
  for (size_t i = 0; i < N; i++) {
    uint8_t r = in_px[i * 4], gr = in_px[i * 4 + 1], b = in_px[i * 4 + 2];
    uint8_t g = (r * 76 + gr * 150 + b * 30) >> 8;
    CHECK(o[i * 4] == g && o[i * 4 + 1] == g && o[i * 4 + 2] == g, "luma is floor((76R+150G+30B)/256)");
    CHECK(o[i * 4 + 3] == 255, "alpha opaque");
    CHECK(s[i] == g, "single-channel luma equals the RGBA one");
  }
  UNCHANGED(in_px, N * 4, "input image unchanged");
  free(o);
  free(s);
  CHECK(!fcv_grayscale(0, H, in_px) && !fcv_grayscale(W, 0, in_px) && !fcv_grayscale(W, H, NULL), "empty or missing image rejected");
  CHECK(!fcv_rgba_to_grayscale(0, H, in_px) && !fcv_rgba_to_grayscale(W, 0, in_px) && !fcv_rgba_to_grayscale(W, H, NULL), "empty or missing image rejected");
  WITNESS();
}
#elif CASE == 2
int main(void) {
  IN_ARR_U8(in_px, N + 1);
  SNAPSHOT(in_px, N + 1);
  IN_U32(in_i);
  IN_U32(in_n);
  IN_U8(in_t);
  ASSUME(in_i < N + 1 && in_n <= N);
  fcv_apply_global_threshold(in_n, in_px, in_t);
  if (in_i < in_n)
    CHECK(in_px[in_i] == (snap_in_px[in_i] > in_t ? 255 : 0), "255 exactly for bytes above the threshold, else 0");
  else
    CHECK(in_px[in_i] == snap_in_px[in_i], "bytes past the given length untouched");
  WITNESS();
}
#elif CASE == 3
int main(void) {
  IN_ARR_U8(in_px, N);
  SNAPSHOT(in_px, N);
  IN_U32(in_i);
  ASSUME(in_i < N);
  uint8_t *o = fcv_single_to_multichannel(W, H, in_px);
  CHECK(o && BLOCK_AT_LEAST(o, N * 4), "a valid image is accepted");
  uint8_t g = snap_in_px[in_i];
  CHECK(o[in_i * 4] == g && o[in_i * 4 + 1] == g && o[in_i * 4 + 2] == g && o[in_i * 4 + 3] == 255,
        "byte replicated to R, G and B with opaque alpha");
  CHECK(in_px[in_i] == g, "input image unchanged");
  /* round trip through the luma conversion */
  uint8_t *s = fcv_rgba_to_grayscale(W, H, o);
  CHECK(s && s[in_i] == g, "expanding then taking the luma is the identity");
  free(o);
  free(s);
  CHECK(!fcv_single_to_multichannel(0, H, in_px) && !fcv_single_to_multichannel(W, 0, in_px) && !fcv_single_to_multichannel(W, H, NULL), "empty or missing image rejected");
  WITNESS();
}
#elif CASE == 4
int main(void) {
  IN_ARR_U8(in_px, N * 4);
  SNAPSHOT(in_px, N * 4);
  IN_ARR_U8(in_col, 6);
  IN_U32(in_i);
  IN_U8(in_hash);
  ASSUME(in_i < N && in_hash < 2);
  char fg[8], bg[8];
  static const char dig[] = "0123456789abcdef";
  uint32_t o = 0;
  if (in_hash)
    fg[o++] = '#';
  for (int k = 0; k < 3; k++) {
    fg[o++] = dig[in_col[k] >> 4];
    fg[o++] = dig[in_col[k] & 15];
    bg[2 * k] = dig[in_col[3 + k] >> 4];
    bg[2 * k + 1] = dig[in_col[3 + k] & 15];
  }
  fg[o] = 0;
  bg[6] = 0;
  uint8_t *r = fcv_convert_to_binary(in_px, W, H, fg, bg);
  CHECK(r && BLOCK_AT_LEAST(r, N), "a valid image is accepted");
  uint8_t *p = &snap_in_px[in_i * 4];
  bool isfg = p[0] == in_col[0] && p[1] == in_col[1] && p[2] == in_col[2];
  CHECK(r[in_i] == (isfg ? 255 : 0), "255 exactly for the foreground colour, 0 for every other pixel");
  UNCHANGED(in_px, N * 4, "input image unchanged");
  free(r);
  CHECK(!fcv_convert_to_binary(NULL, W, H, fg, bg) && !fcv_convert_to_binary(in_px, 0, H, fg, bg) &&
          !fcv_convert_to_binary(in_px, W, -1, fg, bg) && !fcv_convert_to_binary(in_px, W, H, NULL, bg) &&
          !fcv_convert_to_binary(in_px, W, H, fg, NULL), "invalid arguments rejected");
  WITNESS();
}
#endif
