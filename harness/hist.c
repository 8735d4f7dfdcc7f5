/* fcv_generate_histogram.  For the solver the numbers of brightness values
 * (256) and of rows (200) are replaced by small ones in a copy of the source.
 * CASE 1: any picture, CASE 2: missing or empty arguments */
#include "verif.h"
#include "histogram.c"
#ifdef VERIF_REPLAY
#define LEVELS 256
#define ROWS 200
#else
#define LEVELS 8
#define ROWS 5
#endif

int main(void) {
#if CASE == 1
  IN_ARR_U8(in_px, W * H * CH);
  uint8_t px[W * H * CH];
  for (int i = 0; i < W * H * CH; i++) {
    ASSUME(in_px[i] < 8);
    px[i] = in_px[i] == 7 ? LEVELS - 1 : in_px[i]; /* the ends of the range are there */
  }
  uint32_t ow = 0, oh = 0;
  uint8_t *o = fcv_generate_histogram(W, H, CH, px, &ow, &oh);
  CHECK(o, "accepted");
  CHECK(ow == LEVELS && oh == ROWS, "fixed size");
  bool grey = CH == 1;
  if (CH == 4) {
    grey = true;
    for (int i = 0; i < W * H; i++)
      grey = grey && px[i * 4] == px[i * 4 + 1] && px[i * 4] == px[i * 4 + 2];
  }
  const int nc = CH >= 3 ? 3 : 1;
  int n[3][8] = {0}, most = 0;
  for (int c = 0; c < nc; c++)
    for (int v = 0; v < 8; v++) {
      for (int i = 0; i < W * H; i++)
        n[c][v] += in_px[i * CH + c] == v;
      if (n[c][v] > most)
        most = n[c][v];
    }
  for (int v = 0; v < 8; v++) {
    int bar[3];
    for (int c = 0; c < 3; c++)
      bar[c] = grey ? n[0][v] * ROWS / most : c < nc ? n[c][v] * ROWS / most : 0;
    for (int y = 0; y < ROWS; y++) { /* from below */
      const uint8_t *p = o + ((ROWS - 1 - y) * LEVELS + (v == 7 ? LEVELS - 1 : v)) * 4;
      CHECK(p[3] == 255, "opaque");
      for (int c = 0; c < 3; c++)
        CHECK(p[c] == (y < bar[c] ? 255 : 0), "bars in proportion to the numbers of pixels");
    }
  }
#else
  uint8_t px[1] = {0};
  uint32_t ow, oh;
  IN_U8(in_bad);
  IN_U32(in_w);
  IN_U32(in_h);
  IN_U32(in_ch);
  ASSUME(in_w < 4 && in_h < 4);
  ASSUME(in_bad & 7 || !in_w || !in_h || !in_ch);
  CHECK(!fcv_generate_histogram(in_w, in_h, in_ch, in_bad & 1 ? NULL : px, in_bad & 2 ? NULL : &ow, in_bad & 4 ? NULL : &oh), "rejected");
#endif
  WITNESS();
}
