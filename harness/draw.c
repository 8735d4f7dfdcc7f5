/* fcv_draw_circle / fcv_draw_disk on a WxHxC image.
 * CASE 1: circle, 2: disk, radius in [R, R+1) and centre anywhere around the
 * image, colour symbolic.
 * CASE 3: parameters that are not drawable (negative, NaN, infinite, huge). */
#include "verif.h"
#ifndef GREY
#define GREY 0
#endif
#include "draw.h"
#define LEN ((size_t)W * H * C)
#define SHAPE (DISK ? fcv_draw_disk : fcv_draw_circle)
int main(void) {
  IN_ARR_U8(in_px, LEN);
  SNAPSHOT(in_px, LEN);
  IN_ARR_U8(in_col, 3);
  static const char dig[] = "0123456789ABCDEF";
  char hex[7];
  for (int k = 0; k < 3; k++) {
#if C == 1
    ASSUME(in_col[k] == GREY);
#endif
    hex[2 * k] = dig[in_col[k] >> 4];
    hex[2 * k + 1] = dig[in_col[k] & 15];
  }
  hex[6] = 0;
#if CASE == 1
#ifdef CX4 /* concrete centre and radius, in quarters */
  const int32_t in_cx4 = CX4, in_cy4 = CY4, in_r4 = R4;
#else
  IN_I32(in_cx4);
  IN_I32(in_cy4);
  IN_I32(in_r4);
  ASSUME(in_cx4 >= XLO && in_cx4 <= XHI && in_cy4 >= YLO && in_cy4 <= YHI && in_r4 >= 0 && in_r4 < 4);
#endif
  SHAPE(W, H, C, hex, R + in_r4 / 4.0, in_cx4 / 4.0, in_cy4 / 4.0, in_px);
  int32_t cx = in_cx4 / 4, cy = in_cy4 / 4;
  IN_I32(in_x);
  IN_I32(in_y);
  ASSUME(in_x >= 0 && in_x < W && in_y >= 0 && in_y < H);
  const uint8_t *a = &in_px[((size_t)in_y * W + in_x) * C], *b = &snap_in_px[((size_t)in_y * W + in_x) * C];
  bool kept = true, painted = true;
  for (int c = 0; c < C; c++) {
    if (a[c] != b[c])
      kept = false;
    if (C == 1) {
      if (!(a[c] <= GREY && a[c] + 1 >= GREY))
        painted = false;
    } else if (a[c] != (c == 3 ? 255 : in_col[c]))
      painted = false;
  }
  int64_t dx = in_x - cx, dy = in_y - cy;
  if (dx < 0) dx = -dx;
  if (dy < 0) dy = -dy;
  int64_t d4 = 4 * (dx * dx + dy * dy);
  CHECK(kept || painted, "every pixel is either untouched or carries exactly the colour");
  bool far = d4 > (2 * R + 3) * (2 * R + 3);
  if (!DISK && 2 * R - 3 > 0 && d4 < (2 * R - 3) * (2 * R - 3))
    far = true;
  if (far)
    CHECK(kept, "pixels away from the shape are untouched");
  if (DISK && d4 <= 4 * (R - 1) * (R - 1) && R > 0)
    CHECK(painted, "the inside of the disk is filled");
  if ((dx == 0 && dy == R) || (dy == 0 && dx == R))
    CHECK(painted, "the extreme points are drawn");
#if DISK == 0
  /* no gaps: in the octants where the arc is flat every column has a point of
   * the arc, in the steep ones every row */
  IN_I32(in_k);
  ASSUME(in_k >= -R && in_k <= R);
  int64_t ak = in_k < 0 ? -in_k : in_k;
  if (2 * ak * ak <= R * R && cx + in_k >= 0 && cx + in_k < W) {
    bool up = false, lo = false;
    for (int y = 0; y < H; y++) {
      const uint8_t *p = &in_px[((size_t)y * W + cx + in_k) * C];
      bool pt = C == 1 ? (p[0] <= GREY && p[0] + 1 >= GREY) : (p[0] == in_col[0] && p[1] == in_col[1] && p[2] == in_col[2]);
      if (pt && y <= cy) up = true;
      if (pt && y >= cy) lo = true;
    }
    /* only claimed where the half lies inside the image */
    bool cup = cy - R >= 0 && cy < H;
    bool clo = cy + R < H && cy >= 0;
    CHECK(!cup || up, "the upper arc has no gap");
    CHECK(!clo || lo, "the lower arc has no gap");
  }
#endif
#else
  IN_DBL(in_rad);
  IN_DBL(in_cx);
  IN_DBL(in_cy);
  IN_U8(in_null);
  bool fin = in_rad - in_rad == 0 && in_cx - in_cx == 0 && in_cy - in_cy == 0;
  ASSUME(!fin || in_rad < 0 || in_rad > 4294967296.0 || in_cx > 4294967296.0 || in_cx < -4294967296.0 ||
         in_cy > 4294967296.0 || in_cy < -4294967296.0);
  /* far centres are only combined with a drawable radius when it is small */
  ASSUME(!(in_rad >= 0) || in_rad <= 3 || in_rad > 4294967296.0);
  SHAPE(W, H, C, hex, in_rad, in_cx, in_cy, in_px);
  SHAPE(0, H, C, hex, 1, 1, 1, in_px);
  SHAPE(W, 0, C, hex, 1, 1, 1, in_px);
  SHAPE(W, H, 0, hex, 1, 1, 1, in_px);
  SHAPE(W, H, C, NULL, 1, 1, 1, in_px);
  SHAPE(W, H, C, hex, 1, 1, 1, NULL);
  UNCHANGED(in_px, LEN, "nothing is drawn for parameters that are not drawable");
#endif
  WITNESS();
}
