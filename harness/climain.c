/* Whole runs of the command line with recorders in place of the image library
 * and the codecs (clistubs.h).
 * CASE 1: execute_pipeline on three operations, any of which may fail
 * CASE 2: main with an input of any EXIF orientation, CASE 3: errors of main */
#include "verif.h"
#include "clistubs.h"

static void all_freed(void) {
  CHECK(!bad_free, "nothing is released twice");
  for (int i = 0; i < n; i++)
    CHECK(!calls[i].out || calls[i].freed, "every image is released");
}

int main(void) {
  IN_U8(in_fail);
  fail_mask = in_fail;
  IN_I32(in_w);
  IN_I32(in_h);
  ASSUME(in_w > 0 && in_h > 0);
  static uint8_t px[4];
#if CASE == 1
  Pipeline *p = create_pipeline();
  IN_U32(in_nw);
  IN_U32(in_nh);
  ASSUME(in_nw - 1 < INT32_MAX && in_nh - 1 < INT32_MAX);
  new_w = in_nw;
  new_h = in_nh;
  IN_DBL(in_r);
  add_operation(p, "rotate", 90.0, 1, 0, 0, 0, 0, 0, 0, NULL, 0);
  add_operation(p, "blur", in_r, 1, 0, 0, 0, 0, 0, 0, NULL, 0);
  add_operation(p, "trim", 0, 0, 0, 0, 0, 0, 0, 0, "5%", 1);
  add_operation(p, "bw_smooth", 0, 0, 0, 0, 0, 0, 0, 0, NULL, 0);
  int32_t w = in_w, h = in_h;
  uint8_t *r = execute_pipeline(&w, &h, p, px);
  const int want[] = {R90, BLUR, TRIMT, SMART};
  CHECK(n >= 1 && n <= 4 && calls[0].p == px, "starts with the input image");
  for (int i = 0; i < n; i++) {
    const Call *c = &calls[i];
    CHECK(c->f == want[i], "operations are applied in order");
    CHECK(i == 0 || c->p == calls[i - 1].out, "each operation works on the result of the one before");
    CHECK(i == 0 ? c->w == (uint32_t)in_w && c->h == (uint32_t)in_h
                 : i < 3 ? c->w == (uint32_t)in_h && c->h == (uint32_t)in_w : c->w == in_nw && c->h == in_nh, "with its size");
    CHECK(c->out || i == n - 1, "stops at the first failure");
    CHECK(!c->out || c->freed == (c->out != (void *)r), "intermediate images are released, the result is not");
  }
  CHECK(!bad_free, "nothing is released twice");
  CHECK(r ? n == 4 && r == calls[3].out && w == (int32_t)in_nw && h == (int32_t)in_nh : !calls[n - 1].out, "the last result is returned");
  if (n > 1)
    CHECK(calls[1].a == in_r || in_r != in_r, "parameters reach their operation");
  if (n > 2)
    CHECK(calls[2].a == 5, "parameters reach their operation");
  if (n > 3)
    CHECK(calls[3].i == 1, "the operation asked for");
  free_pipeline(p);
#elif CASE == 2
  ASSUME(in_w <= 1 << 24 && in_h <= 1 << 24); /* limit of the decoder */
  IN_U8(in_orient);
  ASSUME(in_orient >= 1 && in_orient <= 8);
  orientation = in_orient;
  loaded = px;
  load_w = in_w;
  load_h = in_h;
  IN_U8(in_result);
  written.result = in_result & 1;
  char a0[] = "flatcv", a1[] = INPUT, a2[] = PIPE, a3[] = OUTPUT;
  char *argv[] = {a0, a1, a2, a3, NULL};
  const int rc = cli_main(4, argv);
  static const int turn[] = {0, 0, FLIPX, R180, FLIPY, TRANSPOSE, R90, TRANSVERSE, R270};
  int k = 0;
  uint32_t w = in_w, h = in_h;
  const void *img = px;
  if (JPG) {
    CHECK(exif_calls == 1, "the orientation of a JPEG is looked up");
    if (in_orient > 1) {
      CHECK(n >= 1 && calls[0].f == turn[in_orient] && calls[0].p == px && calls[0].w == w && calls[0].h == h, "turned upright");
      img = calls[0].out;
      if (in_orient >= 5) {
        w = in_h;
        h = in_w;
      }
      k = 1;
    }
  }
  if (k && !calls[0].out)
    CHECK(n == 1 && rc != 0 && written.n == 0, "failures are reported, nothing is written");
  else
  CHECK(n == k + 1 && calls[k].f == FN && calls[k].p == img && calls[k].w == w && calls[k].h == h, "the operation works on the upright image");
  if (n != k + 1 || !calls[k].out)
    CHECK(rc != 0 && written.n == 0, "failures are reported, nothing is written");
  else {
    CHECK(written.n == 1 && written.alive && written.p == calls[k].out && written.comp == 4, "the result is written");
    CHECK(written.w == (int)w && written.h == (int)h, "with its size");
    CHECK(written.format == FORMAT && (FORMAT != 1 || (int64_t)written.stride == (int64_t)(int32_t)(w * 4u)), "in the format of the extension");
    CHECK((rc == 0) == (in_result & 1), "the exit code tells whether it could be written");
  }
  all_freed();
  CHECK(loaded_freed == 1, "the loaded image is released once");
#else
  /* in_ok: the image cannot be loaded */
  IN_U8(in_load);
  loaded = in_load & 1 ? px : NULL;
  load_w = in_w;
  load_h = in_h;
  written.result = 1;
  char a0[] = "flatcv", a1[] = "in.png", a2[] = PIPE, a3[] = "out.png";
  char *argv[] = {a0, a1, a2, a3, NULL};
  const int rc = cli_main(ARGC, argv);
  CHECK(rc != 0 && written.n == 0, "errors are reported, nothing is written");
  all_freed();
  CHECK(loaded_freed <= 1, "the loaded image is released at most once");
#endif
  WITNESS();
}
