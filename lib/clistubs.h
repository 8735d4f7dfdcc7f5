/* cli.c with the image library and the codecs replaced by recorders. */
#include "verif.h"
#include <math.h>
static void my_free(void *p);
#include "binary_closing_disk.h"
#include "conversion.h"
#include "draw.h"
#include "histogram.h"
#include "perspectivetransform.h"
#include "stb_image.h"
#define main cli_main
#define free my_free
#include "cli.c"
#undef main
#undef free

enum { GRAY = 1, BLUR, RESIZE, OTSU, SMART, CORNERS, DISK, CIRCLE, SOBEL, MULTI, TOGRAY, WATERSHED, CROP, XAUTO, XTO, FLIPX, FLIPY,
       R90, R180, R270, TRANSPOSE, TRANSVERSE, TRIM, TRIMT, HIST, BORDER, DILATE, ERODE, CLOSE, OPEN, OTHER };
typedef struct {
  int f;
  uint32_t w, h, ch, i, j, k, l;
  const void *p, *q;
  double a, b, c;
  void *out;
  int freed;
  char s[12];
} Call;
static Call calls[10];
static int n;
static uint8_t fail_mask;
static int bad_free;
static Point2D seen[4];

static Call *rec(int f, uint32_t w, uint32_t h, const void *p) {
  CHECK(n < 10, "number of library calls");
  Call *c = &calls[n];
  *c = (Call){.f = f, .w = w, .h = h, .p = p};
  if (!(fail_mask >> n & 1))
    c->out = malloc(1);
  n++;
  return c;
}
static void my_free(void *p) {
  for (int i = 0; i < n; i++)
    if (p && calls[i].out == p) {
      if (calls[i].freed)
        bad_free = 1;
      calls[i].freed = 1;
      return; /* stays allocated, so that addresses are not reused */
    }
  free(p);
}
static void copystr(char *d, const char *s) {
  int i = 0;
  for (; s && s[i] && i < 11; i++)
    d[i] = s[i];
  d[i] = 0;
}

uint8_t *fcv_grayscale(uint32_t w, uint32_t h, uint8_t const *const d) { return rec(GRAY, w, h, d)->out; }
uint8_t *fcv_grayscale_stretch(uint32_t w, uint32_t h, uint8_t const *const d) { return rec(OTHER, w, h, d)->out; }
uint8_t *fcv_apply_gaussian_blur(uint32_t w, uint32_t h, double r, uint8_t const *const d) {
  Call *c = rec(BLUR, w, h, d);
  c->a = r;
  return c->out;
}
uint8_t *fcv_otsu_threshold_rgba(uint32_t w, uint32_t h, bool dbl, uint8_t const *const d) {
  Call *c = rec(OTSU, w, h, d);
  c->i = dbl;
  return c->out;
}
uint8_t *fcv_bw_smart(uint32_t w, uint32_t h, bool dbl, uint8_t const *const d) {
  Call *c = rec(SMART, w, h, d);
  c->i = dbl;
  return c->out;
}
static uint32_t new_w, new_h;
static void *sized(Call *c, uint32_t *ow, uint32_t *oh) {
  if (c->out) {
    *ow = new_w;
    *oh = new_h;
  }
  return c->out;
}
uint8_t *fcv_resize(uint32_t w, uint32_t h, double sx, double sy, uint32_t *ow, uint32_t *oh, uint8_t const *const d) {
  Call *c = rec(RESIZE, w, h, d);
  c->a = sx;
  c->b = sy;
  return sized(c, ow, oh);
}
static Corners cs;
Corners fcv_detect_corners(const uint8_t *d, int32_t w, int32_t h) {
  rec(CORNERS, w, h, d)->out = NULL;
  return cs;
}
static void drawn(int f, uint32_t w, uint32_t h, uint32_t ch, const char *s, double r, double x, double y, uint8_t *d) {
  Call *c = rec(f, w, h, d);
  c->out = NULL;
  c->ch = ch;
  copystr(c->s, s);
  c->a = r;
  c->b = x;
  c->c = y;
}
void fcv_draw_disk(uint32_t w, uint32_t h, uint32_t ch, const char *s, double r, double x, double y, uint8_t *d) { drawn(DISK, w, h, ch, s, r, x, y, d); }
void fcv_draw_circle(uint32_t w, uint32_t h, uint32_t ch, const char *s, double r, double x, double y, uint8_t *d) { drawn(CIRCLE, w, h, ch, s, r, x, y, d); }
uint8_t *fcv_sobel_edge_detection(uint32_t w, uint32_t h, uint32_t ch, uint8_t const *const d) {
  Call *c = rec(SOBEL, w, h, d);
  c->ch = ch;
  return c->out;
}
uint8_t *fcv_single_to_multichannel(uint32_t w, uint32_t h, uint8_t const *const d) { return rec(MULTI, w, h, d)->out; }
uint8_t *fcv_rgba_to_grayscale(uint32_t w, uint32_t h, uint8_t const *const d) { return rec(TOGRAY, w, h, d)->out; }
uint8_t *fcv_watershed_segmentation(uint32_t w, uint32_t h, uint8_t const *const d, Point2D *m, uint32_t k, bool bnd) {
  Call *c = rec(WATERSHED, w, h, d);
  c->i = k;
  c->j = bnd;
  for (uint32_t i = 0; i < 4 && i < k; i++)
    seen[i] = m[i];
  return c->out;
}
uint8_t *fcv_crop(uint32_t w, uint32_t h, uint32_t ch, uint8_t const *const d, uint32_t x, uint32_t y, uint32_t nw, uint32_t nh) {
  Call *c = rec(CROP, w, h, d);
  c->ch = ch;
  c->i = x;
  c->j = y;
  c->k = nw;
  c->l = nh;
  return c->out;
}
uint8_t *fcv_extract_document_auto(uint32_t w, uint32_t h, uint8_t const *const d, uint32_t *ow, uint32_t *oh) { return sized(rec(XAUTO, w, h, d), ow, oh); }
uint8_t *fcv_extract_document(uint32_t w, uint32_t h, uint8_t const *const d, uint32_t ow, uint32_t oh) {
  Call *c = rec(XTO, w, h, d);
  c->i = ow;
  c->j = oh;
  return c->out;
}
uint8_t *fcv_flip_x(uint32_t w, uint32_t h, uint8_t const *const d) { return rec(FLIPX, w, h, d)->out; }
uint8_t *fcv_flip_y(uint32_t w, uint32_t h, uint8_t const *const d) { return rec(FLIPY, w, h, d)->out; }
uint8_t *fcv_transpose(uint32_t w, uint32_t h, uint8_t const *const d) { return rec(TRANSPOSE, w, h, d)->out; }
uint8_t *fcv_transverse(uint32_t w, uint32_t h, uint8_t const *const d) { return rec(TRANSVERSE, w, h, d)->out; }
uint8_t *fcv_rotate_90_cw(uint32_t w, uint32_t h, uint8_t const *const d) { return rec(R90, w, h, d)->out; }
uint8_t *fcv_rotate_180(uint32_t w, uint32_t h, uint8_t const *const d) { return rec(R180, w, h, d)->out; }
uint8_t *fcv_rotate_270_cw(uint32_t w, uint32_t h, uint8_t const *const d) { return rec(R270, w, h, d)->out; }
uint8_t *fcv_trim(int32_t *w, int32_t *h, uint32_t ch, uint8_t const *const d) {
  Call *c = rec(TRIM, *w, *h, d);
  c->ch = ch;
  return sized(c, (uint32_t *)w, (uint32_t *)h);
}
uint8_t *fcv_trim_threshold(int32_t *w, int32_t *h, uint32_t ch, uint8_t const *const d, double t) {
  Call *c = rec(TRIMT, *w, *h, d);
  c->ch = ch;
  c->a = t;
  return sized(c, (uint32_t *)w, (uint32_t *)h);
}
uint8_t *fcv_generate_histogram(uint32_t w, uint32_t h, uint32_t ch, uint8_t const *const d, uint32_t *ow, uint32_t *oh) {
  Call *c = rec(HIST, w, h, d);
  c->ch = ch;
  return sized(c, ow, oh);
}
uint8_t *fcv_add_border(uint32_t w, uint32_t h, uint32_t ch, const char *s, uint32_t bw, uint8_t *d, uint32_t *ow, uint32_t *oh) {
  Call *c = rec(BORDER, w, h, d);
  c->ch = ch;
  copystr(c->s, s);
  c->i = bw;
  return sized(c, ow, oh);
}
static void *morph(int f, uint8_t const *d, int32_t w, int32_t h, int32_t r) {
  Call *c = rec(f, w, h, d);
  c->i = (uint32_t)r;
  return c->out;
}
uint8_t *fcv_binary_dilation_disk(uint8_t const *d, int32_t w, int32_t h, int32_t r) { return morph(DILATE, d, w, h, r); }
uint8_t *fcv_binary_erosion_disk(uint8_t const *d, int32_t w, int32_t h, int32_t r) { return morph(ERODE, d, w, h, r); }
uint8_t *fcv_binary_closing_disk(uint8_t const *d, int32_t w, int32_t h, int32_t r) { return morph(CLOSE, d, w, h, r); }
uint8_t *fcv_binary_opening_disk(uint8_t const *d, int32_t w, int32_t h, int32_t r) { return morph(OPEN, d, w, h, r); }
uint8_t *fcv_foerstner_corner(uint32_t w, uint32_t h, uint8_t const *const d, double s) { return rec(OTHER, w, h, d)->out; }
uint8_t *fcv_convert_to_binary(const uint8_t *d, int32_t w, int32_t h, const char *a, const char *b) { return rec(OTHER, w, h, d)->out; }
static int orientation = 1, exif_calls;
int32_t fcv_get_exif_orientation(char const *f) {
  exif_calls++;
  return orientation;
}
static uint8_t *loaded;
static int load_w, load_h, loaded_freed;
unsigned char *stbi_load(char const *f, int *x, int *y, int *c, int r) {
  CHECK(r == 4, "images are loaded as RGBA");
  if (!loaded)
    return NULL;
  *x = load_w;
  *y = load_h;
  *c = 3;
  return loaded;
}
void stbi_image_free(void *p) {
  if (p && p == loaded)
    loaded_freed++;
  else
    my_free(p);
}
static struct {
  int format, w, h, comp, stride, quality, n, result;
  const void *p;
  bool alive;
} written;
static void wrote(int format, int w, int h, int comp, const void *d) {
  written.n++;
  written.format = format;
  written.w = w;
  written.h = h;
  written.comp = comp;
  written.p = d;
  written.alive = d && d == loaded ? !loaded_freed : true;
  for (int i = 0; i < n; i++)
    if (d && d == calls[i].out && calls[i].freed)
      written.alive = false;
}
int stbi_write_png(char const *f, int w, int h, int comp, const void *d, int s) {
  wrote(1, w, h, comp, d);
  written.stride = s;
  return written.result;
}
int stbi_write_jpg(char const *f, int w, int h, int comp, const void *d, int q) {
  wrote(2, w, h, comp, d);
  written.quality = q;
  return written.result;
}
