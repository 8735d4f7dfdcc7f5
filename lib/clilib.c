/* Models of the libc string functions the command line uses (encoding only). */
#include <stddef.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#undef strtok
static int in_set(char c, const char *s) {
  for (; *s; s++)
    if (*s == c)
      return 1;
  return 0;
}
char *strtok_r(char *s, const char *d, char **save) {
  if (!s)
    s = *save;
  while (*s && in_set(*s, d))
    s++;
  if (!*s) {
    *save = s;
    return NULL;
  }
  char *b = s;
  while (*s && !in_set(*s, d))
    s++;
  if (*s)
    *s++ = 0;
  *save = s;
  return b;
}
static char *tok_state;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok_state); }
long clock(void) { return 0; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
double fmin(double a, double b) { return a < b || b != b ? a : b; }

/* decimal numbers of up to nine digits and an optional fraction */
double strtod(const char *s, char **end) {
  const char *b = s;
  while (isspace((unsigned char)*s))
    s++;
  int neg = *s == '-';
  if (*s == '-' || *s == '+')
    s++;
  long v = 0, scale = 1;
  int digits = 0, frac = 0;
  while ((*s >= '0' && *s <= '9') || (*s == '.' && !frac)) {
    if (*s == '.')
      frac = 1;
    else {
      v = v * 10 + (*s - '0');
      digits++;
      if (frac)
        scale *= 10;
    }
    s++;
  }
  if (end)
    *end = (char *)(digits ? s : b);
  double r = scale == 1 ? (double)v : (double)v / (double)scale;
  return neg ? -r : r;
}
double atof(const char *s) { return strtod(s, NULL); }

static unsigned long digits10(const char *s, char **end, int *neg, int *any) {
  while (isspace((unsigned char)*s))
    s++;
  *neg = *s == '-';
  if (*s == '-' || *s == '+')
    s++;
  unsigned long v = 0;
  *any = 0;
  while (*s >= '0' && *s <= '9') {
    v = v * 10 + (unsigned long)(*s - '0');
    *any = 1;
    s++;
  }
  *end = (char *)s;
  return v;
}
/* base 10 and up to 18 digits only */
long strtol(const char *s, char **end, int base) {
  (void)base;
  char *e;
  int neg, any;
  unsigned long v = digits10(s, &e, &neg, &any);
  if (end)
    *end = any ? e : (char *)s;
  return neg ? -(long)v : (long)v;
}
unsigned long strtoul(const char *s, char **end, int base) { return (unsigned long)strtol(s, end, base); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }

/* only the first string argument matters to its user; numbers which follow are
 * as long as they may become, but have no digits */
static int put(char *o, size_t n, const char *f, va_list ap) {
  const char *c = va_arg(ap, const char *);
  size_t i = 0;
  for (; c[i]; i++)
    if (i + 1 < n)
      o[i] = c[i];
  if (f[0] == '%' && f[1] == 's' && f[2] == ' ') { /* "%s %.2f %.2f" */
    const double x = va_arg(ap, double), y = va_arg(ap, double);
    if (i + 1 < n)
      o[i] = ' ';
    if (i + 2 < n)
      o[i + 1] = '0';
    if (i + 3 < n)
      o[i + 2] = 0;
    i += 2;
    if (x >= 1e130 || y >= 1e130 || x <= -1e130 || y <= -1e130) {
      i += 130;
      if (i < n)
        o[i] = '0';
      i++;
    }
  }
  if (n)
    o[i < n ? i : n - 1] = 0;
  return (int)i;
}
int snprintf(char *o, size_t n, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  __CPROVER_assert(__CPROVER_w_ok(o, n), "buffer as large as promised");
  const int r = put(o, n, f, ap);
  va_end(ap);
  return r;
}
int sprintf(char *o, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  const int r = put(o, (size_t)1 << 40, f, ap);
  va_end(ap);
  return r;
}
