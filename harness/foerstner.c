/* fcv_foerstner_corner on a WxH image.
 * CASE 1: any content, concrete sigma SIG: memory safety, blank margin
 * CASE 2: each pixel is 0 or LV: response equals the rational reference
 * CASE 3: constant image of any level, any position is 0
 * CASE 4: parameters which are rejected */
#include "verif.h"
#if CASE == 4
#include "failalloc.h"
#endif
#include "foerstner_corner.h"
#define N ((size_t)W * H)
#if CASE == 2
static const uint8_t *img;
static int at(int x, int y) { return img[y * W + x] ? 1 : 0; }
static int gx(int x, int y) {
  if (x < 1 || y < 1 || x >= W - 1 || y >= H - 1)
    return 0;
  return at(x + 1, y - 1) - at(x - 1, y - 1) + 2 * (at(x + 1, y) - at(x - 1, y)) + at(x + 1, y + 1) - at(x - 1, y + 1);
}
static int gy(int x, int y) {
  if (x < 1 || y < 1 || x >= W - 1 || y >= H - 1)
    return 0;
  return at(x - 1, y + 1) - at(x - 1, y - 1) + 2 * (at(x, y + 1) - at(x, y - 1)) + at(x + 1, y + 1) - at(x + 1, y - 1);
}
#endif
int main(void) {
#if CASE == 1
  IN_ARR_U8(in_px, N);
  SNAPSHOT(in_px, N);
  uint8_t *o = fcv_foerstner_corner(W, H, in_px, SIG);
  CHECK(o && BLOCK_AT_LEAST(o, N * 2), "a valid image is accepted");
  UNCHANGED(in_px, N, "input image unchanged");
  /* the smoothing window has at least 3 pixels, so the outermost line is blank */
  for (uint32_t y = 0; y < H; y++)
    for (uint32_t x = 0; x < W; x++)
      if (x < HALF || y < HALF || x + HALF >= W || y + HALF >= H)
#ifdef BLANK
        CHECK(o[(y * W + x) * 2] == 0 && o[(y * W + x) * 2 + 1] == 0, "no response where the window leaves the image");
#else
        ;
#endif
  free(o);
#elif CASE == 2
  IN_ARR_U8(in_px, N);
  for (size_t i = 0; i < N; i++)
#ifdef FREE /* stated bound: only the pixels of this mask vary */
    if (!((FREE >> i) & 1))
      in_px[i] = ((BASE >> i) & 1) ? LV : 0;
    else
#endif
      in_px[i] = (in_px[i] & 1) ? LV : 0;
  img = in_px;
  uint8_t *o = fcv_foerstner_corner(W, H, in_px, 1.0);
  CHECK(o && BLOCK_AT_LEAST(o, N * 2), "a valid image is accepted");
  int32_t det[N], tr[N];
  for (int y = 0; y < H; y++)
    for (int x = 0; x < W; x++) {
      int32_t a = 0, b = 0, c = 0;
      if (x >= 1 && y >= 1 && x < W - 1 && y < H - 1)
        for (int j = -1; j <= 1; j++)
          for (int i = -1; i <= 1; i++) {
            int u = gx(x + i, y + j), v = gy(x + i, y + j);
            a += u * u;
            b += u * v;
            c += v * v;
          }
      det[y * W + x] = a * c - b * b;
      tr[y * W + x] = a + c;
    }
  for (int p = 0; p < N; p++) {
    if (det[p] == 0)
      CHECK(o[2 * p] == 0 && o[2 * p + 1] == 0, "no response without two gradient directions");
    bool wmax = det[p] > 0, qmax = det[p] > 0;
    for (int r = 0; r < N; r++) {
      /* w ~ det/tr, q ~ det/tr^2 compared as fractions */
      int64_t wp = (int64_t)det[p] * tr[r], wr = (int64_t)det[r] * tr[p];
      if (tr[p] && tr[r] && wp < wr)
        wmax = false;
      if (tr[p] && tr[r] && wp * tr[r] < wr * tr[p])
        qmax = false;
      if (r != p && tr[p] && tr[r] && wp > wr)
        CHECK(o[2 * p] >= o[2 * r], "accuracy ordered like determinant over trace");
    }
    if (wmax)
      CHECK(o[2 * p] >= 254, "the strongest response is full scale");
    if (qmax)
      CHECK(o[2 * p + 1] >= 254, "the roundest response is full scale");
  }
  free(o);
#elif CASE == 3
  uint8_t px[N];
  IN_U8(in_v);
  memset(px, in_v, N);
  uint8_t *o = fcv_foerstner_corner(W, H, px, 1.0);
  CHECK(o && BLOCK_AT_LEAST(o, N * 2), "a valid image is accepted");
  IN_U32(in_i);
  ASSUME(in_i < N * 2);
  CHECK(o[in_i] == 0, "a constant image has no corners");
  free(o);
#else
  static uint8_t px[16];
  IN_DBL(in_s);
  IN_U32(in_w);
  IN_U32(in_h);
  if (in_s - in_s != 0 || in_s > 4294967296.0 || in_w == 0 || in_h == 0 || (uint64_t)in_w * in_h > UINT32_MAX) {
    CHECK(!fcv_foerstner_corner(in_w, in_h, px, in_s), "unrepresentable parameters are rejected");
    NOALLOC("rejected before anything is allocated");
    CHECK(!fcv_foerstner_corner(4, 4, NULL, 1), "a missing image is rejected");
    NOALLOC("rejected before anything is allocated");
  }
#endif
  WITNESS();
}
