/* fcv_get_exif_orientation on a file of LEN symbolic bytes (or a missing file).
 * The stdio calls of the library reach a model of a read-only file; in a native
 * replay they reach a real temporary file.
 *   FIX    number of leading bytes given by FIXED (a JPEG/Exif prologue)
 *   NE     largest number of IFD entries
 *   MS     largest number of segments */
#include "verif.h"
#include <stdio.h>
#undef fopen
#undef fclose
#undef fread
#undef fseek
#undef ftell
#undef rewind
#undef fgetc
#undef getc
#undef feof
int fclose(FILE *);
size_t fread(void *, size_t, size_t, FILE *);
int fseek(FILE *, long, int);
long ftell(FILE *);
void rewind(FILE *);
int fgetc(FILE *);
int feof(FILE *);
#include "exif.h"

static uint8_t bytes[LEN + 1];
static int opened, closed, bad, calls;
/* calls of fread and fgetc; far more than one per byte needs */
#ifdef LIMIT
#define COUNT()                                                                \
  do {                                                                         \
    CHECK(calls < LIMIT, "terminates");                                         \
    ASSUME(calls < LIMIT);                                                     \
    calls++;                                                                   \
  } while (0)
#else
#define COUNT()
#endif
static bool missing;
#ifndef VERIF_REPLAY
static FILE the_file;
static long pos;
static int at_end;
FILE *verif_fopen(const char *n, const char *m) {
  (void)n;
  (void)m;
  if (missing)
    return NULL;
  opened++;
  pos = 0;
  return &the_file;
}
#define LIVE(f) if (f != &the_file || opened != 1 || closed != 0) bad = 1
int verif_fclose(FILE *f) {
  LIVE(f);
  closed++;
  return 0;
}
size_t verif_fread(void *p, size_t sz, size_t n, FILE *f) {
  LIVE(f);
  COUNT();
  CHECK(WRITABLE(p, sz * n), "reads only into its buffers");
  size_t done = 0;
  for (size_t i = 0; i < sz * n; i++) {
    if (pos >= LEN) {
      at_end = 1;
      break;
    }
    ((uint8_t *)p)[i] = bytes[pos];
    pos++;
    done++;
  }
  return done / sz;
}
int verif_fseek(FILE *f, long o, int w) {
  LIVE(f);
  long q = w == SEEK_SET ? o : w == SEEK_CUR ? pos + o : LEN + o;
  if (q < 0)
    return -1;
  pos = q;
  at_end = 0;
  return 0;
}
long verif_ftell(FILE *f) {
  LIVE(f);
  return pos;
}
void verif_rewind(FILE *f) { verif_fseek(f, 0, SEEK_SET); }
int verif_fgetc(FILE *f) {
  uint8_t b;
  return verif_fread(&b, 1, 1, f) == 1 ? b : EOF;
}
int verif_getc(FILE *f) { return verif_fgetc(f); }
int verif_feof(FILE *f) {
  LIVE(f);
  return at_end;
}
#else
FILE *verif_fopen(const char *n, const char *m) {
  (void)n;
  (void)m;
  if (missing)
    return NULL;
  FILE *f = tmpfile();
  if (!f || fwrite(bytes, 1, LEN, f) != LEN)
    exit(3);
  rewind(f);
  opened++;
  return f;
}
int verif_fclose(FILE *f) {
  closed++;
  return fclose(f);
}
size_t verif_fread(void *p, size_t sz, size_t n, FILE *f) {
  COUNT();
  return fread(p, sz, n, f);
}
int verif_fseek(FILE *f, long o, int w) { return fseek(f, o, w); }
long verif_ftell(FILE *f) { return ftell(f); }
void verif_rewind(FILE *f) { rewind(f); }
int verif_fgetc(FILE *f) {
  COUNT();
  return fgetc(f);
}
int verif_getc(FILE *f) { return verif_fgetc(f); }
int verif_feof(FILE *f) { return feof(f); }
#endif

static bool over; /* the oracle needed a byte past the end */
static uint32_t at(uint64_t p, int n, bool le) {
  if (p + n > LEN) {
    over = true;
    return 0;
  }
  uint32_t v = 0;
  for (int i = 0; i < n; i++)
    v |= (uint32_t)bytes[p + i] << 8 * (le ? i : n - 1 - i);
  return v;
}

/* Exif 2.3 / TIFF 6: the orientation stored in the file, 1 if there is none,
 * -1 if the file is malformed in a way that leaves the answer open */
static int oracle(void) {
  if (at(0, 2, false) != 0xFFD8 || over)
    return 1;
  uint64_t p = 2;
  for (int s = 0; s <= MS; s++) {
    if (at(p, 1, false) != 0xFF || over)
      return 1;
    uint32_t m = at(p + 1, 1, false);
    if (over || m == 0xD9 || m == 0xDA)
      return 1;
    ASSUME(s < MS);
    uint32_t size = at(p + 2, 2, false);
    if (over)
      return 1;
    if (size < 2)
      return 1;
    if (m == 0xFF)
      return -1;
    if (m == 0xE1) {
      bool exif = true;
      for (int i = 0; i < 6; i++)
        exif = at(p + 4 + i, 1, false) == (uint32_t)"Exif\0\0"[i] && exif;
      if (over)
        return 1;
      if (exif) {
        uint64_t t = p + 10;
        uint32_t bo = at(t, 2, false);
        if (over || (bo != 0x4949 && bo != 0x4D4D))
          return 1;
        bool le = bo == 0x4949;
        if (at(t + 2, 2, le) != 42 || over)
          return 1;
        uint64_t d = t + at(t + 4, 4, le);
        if (over) /* the offset is cut off */
          return -1;
        uint32_t n = at(d, 2, le);
        if (over)
          return 1;
        ASSUME(n <= NE);
        for (uint32_t i = 0; i < NE; i++) {
          if (i < n && at(d + 2 + 12 * i, 2, le) == 0x0112 && !over) {
            uint32_t o = at(d + 10 + 12 * i, 2, le);
            return !over && o >= 1 && o <= 8 ? (int)o : 1;
          }
          if (over)
            return 1;
        }
        return 1;
      }
    }
    p += 2 + size;
  }
  return -1;
}

int main(void) {
  IN_U8(in_missing);
  missing = in_missing & 1;
  IN_ARR_U8(in_file, LEN + 1);
  static const uint8_t fixed[] = {0, FIXED};
  for (int i = 0; i < LEN; i++)
    bytes[i] = i < FIX ? fixed[i + 1] : in_file[i];
  const int want = missing ? 1 : oracle();
  ASSUME(want > 0);
  const int got = fcv_get_exif_orientation("picture.jpg");
  CHECK(got >= 1 && got <= 8, "the orientation is between 1 and 8");
  CHECK(got == want, "the orientation stored in the file, or 1");
  CHECK(opened == closed && !bad, "the file is closed exactly once and not used afterwards");
  WITNESS();
}
