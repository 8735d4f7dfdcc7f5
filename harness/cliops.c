/* apply_operation of the command line: which library function is called with
 * which arguments.  The image library is replaced by recorders; a call fails if
 * its bit in in_fail is set.  OP is the operation, KIND what is expected of it.
 * Width, height, parameters and their presence are symbolic. */
#include "verif.h"
#include "clistubs.h"

static bool eqd(double a, double b) { return a == b || (a != a && b != b); }

int main(void) {
  IN_U8(in_fail);
  fail_mask = in_fail;
#ifdef FW /* operations which copy the image */
  const int32_t w0 = FW, h0 = FH;
#else
  IN_I32(in_w);
  IN_I32(in_h);
  ASSUME(in_w > 0 && in_h > 0);
  const int32_t w0 = in_w, h0 = in_h;
#define FW 1
#define FH 1
#endif
  IN_U32(in_nw);
  IN_U32(in_nh);
  ASSUME(in_nw <= INT32_MAX && in_nh <= INT32_MAX);
  new_w = in_nw;
  new_h = in_nh;
  IN_DBL(in_p1);
  IN_DBL(in_p2);
  IN_DBL(in_p3);
  IN_U8(in_has);
  double p1 = in_p1, p2 = in_p2, p3 = in_p3, p4 = 0;
  const bool h1 = in_has & 1, h2 = in_has & 2, h3 = in_has & 4, h4 = in_has & 8, hs = in_has & 16;
#if KIND == CROP_KIND
  IN_I32(in_x);
  IN_I32(in_y);
  IN_U32(in_cw);
  IN_U32(in_ch);
  p1 = in_x;
  p2 = in_y;
  p3 = in_cw;
  p4 = in_ch;
#elif KIND == XTO_KIND
  IN_U32(in_cw);
  IN_U32(in_ch);
  ASSUME(in_cw <= INT32_MAX && in_ch <= INT32_MAX);
  p1 = in_cw;
  p2 = in_ch;
#endif
#if KIND == ROTATE_KIND
#if ANGLES == 1
  ASSUME(!(in_p1 > -2147483649.0 && in_p1 < 2147483648.0));
#elif ANGLES == 2
  IN_I32(in_angle);
  IN_U8(in_half);
  ASSUME(in_angle >= -800 && in_angle <= 800);
  p1 = in_angle;
  if (in_half & 1)
    p1 += in_angle < 0 ? -0.5 : 0.5;
#else
  IN_I32(in_angle);
  ASSUME(in_angle >= -(1 << ANGLES) && in_angle <= 1 << ANGLES);
  p1 = in_angle * 90.0;
#endif
#endif
#ifdef STR
  char str[] = STR;
#ifdef DIGITS /* each # of the string becomes a symbolic digit */
  IN_ARR_U8(in_digits, sizeof str);
  for (size_t i = 0; i < sizeof str; i++)
    if (str[i] == '#') {
      ASSUME(in_digits[i] <= 9);
      str[i] = '0' + in_digits[i];
    }
#endif
  char keep_str[sizeof str];
  memcpy(keep_str, str, sizeof str);
#define DIGIT(i) (keep_str[i] - '0')
#else
  char str[1] = "";
#endif
#ifdef ANYOP
  IN_ARR_U8(in_op, ANYOP);
  char op[ANYOP + 1];
  for (int i = 0; i < ANYOP; i++)
    op[i] = (char)in_op[i];
  op[ANYOP] = 0;
  static const char *const known[] = {"grayscale", "blur", "resize", "threshold", "bw_smart", "bw_smooth", "detect_corners", "draw_corners", "sobel", "circle",
                                      "disk", "watershed", "crop", "extract_document", "extract_document_to", "flip_x", "flip_y", "rotate", "trim", "histogram",
                                      "border", "erode", "dilate", "close", "open"};
  for (int i = 0; i < 25; i++) {
    bool same = true;
    for (int j = 0; same && j <= ANYOP; j++) {
      same = op[j] == known[i][j];
      if (!op[j])
        break;
    }
    ASSUME(!same);
  }
#else
  const char *op = OP;
#endif
  IN_ARR_U8(in_px, FW *FH * 4);
  SNAPSHOT(in_px, FW * FH * 4);
  IN_ARR(double, in_c, 8);
  for (int i = 0; i < 8; i++)
    ASSUME(in_c[i] >= -1e6 && in_c[i] <= 1e6);
  cs = (Corners){in_c[0], in_c[1], in_c[2], in_c[3], in_c[4], in_c[5], in_c[6], in_c[7]};

  int32_t w = w0, h = h0;
  uint8_t *r = apply_operation(&w, &h, op, p1, h1, p2, h2, p3, h3, p4, h4, str, hs, in_px);

  Call *c = &calls[0], *last = n ? &calls[n - 1] : &calls[0];
  CHECK(!bad_free, "nothing is released twice");
  for (int i = 0; i < n; i++)
    CHECK(!calls[i].out || calls[i].freed == (calls[i].out != (void *)r), "intermediate images are released, the result is not");
  CHECK(r != in_px, "the result is a new image");
  UNCHANGED(in_px, FW * FH * 4, "the input image is left alone");
  const bool first = n > 0 && c->p == in_px && c->w == (uint32_t)w0 && c->h == (uint32_t)h0;
  if (!r)
    CHECK(w == w0 && h == h0, "a failing operation leaves the size alone");
#define NOTHING CHECK(r == NULL && n == 0, "invalid parameters are reported without calling the library")
#define SAMESIZE CHECK(w == w0 && h == h0, "the size stays")
#define NEWSIZE CHECK(!r || (w == (int32_t)new_w && h == (int32_t)new_h), "the size becomes that of the result")
#define SINGLE(F) CHECK(first && n == 1 && c->f == F && r == c->out, "calls " #F " once with the image and returns its result")
#if KIND == SIMPLE_KIND
  SINGLE(FN);
  SAMESIZE;
#ifdef FLAG
  CHECK(c->i == FLAG, "single or double thresholding");
#endif
#elif KIND == BLUR_KIND
  if (!h1)
    NOTHING;
  else {
    SINGLE(BLUR);
    CHECK(eqd(c->a, p1), "the radius is passed on");
  }
  SAMESIZE;
#elif KIND == RESIZE_KIND
#ifdef STR
  ASSUME(hs);
#ifdef BADSTR
  NOTHING;
#else
  SINGLE(RESIZE);
  CHECK(c->a == (double)(XN) / (XD) && c->b == (double)(YN) / (YD), "the scale factors given by the string");
#endif
#else
  ASSUME(!hs);
  if (!h1)
    NOTHING;
  else {
    SINGLE(RESIZE);
    CHECK(eqd(c->a, p1) && eqd(c->b, h2 ? p2 : p1), "the scale factors are passed on");
  }
#endif
  NEWSIZE;
#elif KIND == CORNERS_KIND
  CHECK(first && n == 1 && c->f == CORNERS, "the corners of the image are detected");
  CHECK(r != NULL && BLOCK_AT_LEAST(r, FW * FH * 4), "the image is returned");
  IN_U32(in_i);
  ASSUME(in_i < FW * FH * 4);
  CHECK(r[in_i] == snap_in_px[in_i], "the image is returned");
  SAMESIZE;
#elif KIND == DRAWCORNERS_KIND
  CHECK(first && n == 5 && c->f == CORNERS, "the corners of the image are detected, four disks drawn");
  CHECK(r != NULL && BLOCK_AT_LEAST(r, FW * FH * 4), "an image is returned");
  for (int i = 0; i < 4; i++) {
    Call *d = &calls[1 + i];
    CHECK(d->f == DISK && d->p == r && d->w == FW && d->h == FH && d->ch == 4 && strcmp(d->s, "FF0000") == 0, "red disks on a copy");
    CHECK(d->b == in_c[2 * i] && d->c == in_c[2 * i + 1], "a disk at every corner");
  }
  IN_U32(in_i);
  ASSUME(in_i < FW * FH * 4);
  CHECK(r[in_i] == snap_in_px[in_i], "a copy of the image");
  SAMESIZE;
#elif KIND == DRAW_KIND
  if (!(h1 && h2 && h3 && hs))
    NOTHING;
  else {
    CHECK(n == 1 && c->f == FN && c->p == r && r && c->w == FW && c->h == FH && c->ch == 4, "draws once on the copy it returns");
    CHECK(eqd(c->a, p1) && eqd(c->b, p2) && eqd(c->c, p3) && strcmp(c->s, COLOUR) == 0, "colour, radius and centre are passed on");
    CHECK(BLOCK_AT_LEAST(r, FW * FH * 4), "a whole image");
    IN_U32(in_i);
    ASSUME(in_i < FW * FH * 4);
    CHECK(r[in_i] == snap_in_px[in_i], "a copy of the image");
  }
  SAMESIZE;
#elif KIND == SOBEL_KIND
  CHECK(first && c->f == SOBEL && c->ch == 4, "Sobel on the image");
  CHECK(n == 1 ? !c->out && !r : n == 2 && calls[1].f == MULTI && calls[1].p == c->out && calls[1].w == c->w && calls[1].h == c->h && calls[1].out == r,
        "its result in RGBA is returned");
  SAMESIZE;
#elif KIND == MORPH_KIND
  if (!h1 || !(p1 > -2147483649.0 && p1 < 2147483648.0))
    NOTHING;
  else {
    CHECK(first && c->f == TOGRAY && (n > 1 || !c->out), "the grey image");
    if (n > 1) {
      Call *m = &calls[1];
      double rd = (double)(int32_t)m->i;
      CHECK(m->f == FN && m->p == c->out && m->w == c->w && m->h == c->h, "the operation on the grey image");
      CHECK(p1 >= 0 ? rd <= p1 && p1 < rd + 1 : rd >= p1 && p1 > rd - 1, "with the radius given");
      CHECK(n == 2 ? !m->out : n == 3 && calls[2].f == MULTI && calls[2].p == m->out && calls[2].w == c->w && calls[2].h == c->h && calls[2].out == r,
            "its result in RGBA is returned");
    }
    if (n < 3)
      CHECK(!r, "failures are reported");
  }
  SAMESIZE;
#elif KIND == WATERSHED_KIND
  if (!hs || NMARK == 0)
    NOTHING;
  else {
    CHECK(first && c->f == TOGRAY && (n > 1 || !c->out), "the grey image");
    CHECK(n == 1 || (n == 2 && last->f == WATERSHED && last->p == c->out && last->w == c->w && last->h == c->h && last->out == r && last->i == NMARK && !last->j),
          "segmented by all markers");
    if (n == 2) {
      const double want[] = {MARKS};
      for (int i = 0; i < NMARK && i < 4; i++)
        CHECK(seen[i].x == want[2 * i] && seen[i].y == want[2 * i + 1], "markers in order");
    }
    if (n < 2)
      CHECK(!r, "failures are reported");
  }
  SAMESIZE;
#elif KIND == CROP_KIND
  const uint32_t x = in_x < 0 ? 0 : in_x, y = in_y < 0 ? 0 : in_y;
  if (!(h1 && h2 && h3 && h4) || x >= (uint32_t)w0 || y >= (uint32_t)h0)
    NOTHING;
  else {
    const uint32_t cw = in_cw < w0 - x ? in_cw : w0 - x, ch = in_ch < h0 - y ? in_ch : h0 - y;
    SINGLE(CROP);
    CHECK(c->ch == 4 && c->i == x && c->j == y && c->k == cw && c->l == ch, "the part of the rectangle inside the image");
    CHECK(!r || (w == (int32_t)cw && h == (int32_t)ch), "the size becomes that of the result");
  }
#elif KIND == XTO_KIND
  if (!(h1 && h2))
    NOTHING;
  else {
    SINGLE(XTO);
    CHECK(c->i == in_cw && c->j == in_ch, "the size asked for");
    CHECK(!r || (w == (int32_t)in_cw && h == (int32_t)in_ch), "the size becomes that of the result");
  }
#elif KIND == SIZED_KIND
  SINGLE(FN);
#ifdef CHANNELS
  CHECK(c->ch == 4, "RGBA");
#endif
  NEWSIZE;
#elif KIND == ROTATE_KIND
#if ANGLES == 1
  const bool ok = false;
  const int q = 0;
#elif ANGLES == 2
  const bool ok = h1 && in_angle % 90 == 0;
  const int q = (in_angle + 1080) % 360;
#else
  const bool ok = h1;
  const int q = (in_angle & 3) * 90;
#endif
  if (!ok)
    NOTHING;
  else if (q == 0) {
    CHECK(n == 0 && r && BLOCK_AT_LEAST(r, FW * FH * 4), "a copy");
    IN_U32(in_i);
    ASSUME(in_i < FW * FH * 4);
    CHECK(r[in_i] == snap_in_px[in_i], "a copy of the image");
    SAMESIZE;
  } else {
    CHECK(first && n == 1 && c->f == (q == 90 ? R90 : q == 180 ? R180 : R270) && r == c->out, "turns clockwise by the angle");
    if (r)
      CHECK(q == 180 ? w == w0 && h == h0 : w == h0 && h == w0, "sides are exchanged by quarter turns");
  }
#elif KIND == TRIM_KIND
  if (hs && PERCENT) {
    SINGLE(TRIMT);
    CHECK(c->a == PERCENT, "the threshold given");
  } else if (h1) {
    SINGLE(TRIMT);
    CHECK(eqd(c->a, p1), "the threshold given");
  } else
    SINGLE(TRIM);
  CHECK(c->ch == 4, "RGBA");
  NEWSIZE;
#elif KIND == BORDER_KIND
  if (!(h1 && hs) || !(p1 > -1 && p1 < 4294967296.0))
    NOTHING;
  else if (p1 < 2147483648.0) {
    SINGLE(BORDER);
    CHECK(c->ch == 4 && strcmp(c->s, STR) == 0 && (double)c->i <= p1 + (p1 < 0) && p1 < (double)c->i + 1, "colour and width are passed on");
  }
  NEWSIZE;
#elif KIND == UNKNOWN_KIND
  NOTHING;
#endif
#ifdef STR
  IN_U32(in_si);
  ASSUME(in_si < sizeof str);
  CHECK(str[in_si] == keep_str[in_si], "the parameter string is left alone");
#endif
  WITNESS();
}
