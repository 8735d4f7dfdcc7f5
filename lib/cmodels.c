/* Executable models of libc functions CBMC has no body for.  They are part of
 * the encoding only; replays use the real libc. */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>

void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  /* insertion sort: some order glibc could produce for a consistent
   * comparator; ties keep their order (glibc's merge sort is stable too) */
  unsigned char *b = base;
  for (size_t i = 1; i < n; i++) {
    for (size_t j = i; j > 0; j--) {
      if (cmp(b + (j - 1) * sz, b + j * sz) <= 0)
        break;
      if (sz % 8 == 0) {
        uint64_t *p = (uint64_t *)(b + (j - 1) * sz), *q = (uint64_t *)(b + j * sz);
        for (size_t k = 0; k < sz / 8; k++) {
          uint64_t t = p[k];
          p[k] = q[k];
          q[k] = t;
        }
        continue;
      }
      for (size_t k = 0; k < sz; k++) {
        unsigned char t = b[(j - 1) * sz + k];
        b[(j - 1) * sz + k] = b[j * sz + k];
        b[j * sz + k] = t;
      }
    }
  }
}

static int m_digit(char c) {
  if (c >= '0' && c <= '9')
    return c - '0';
  if (c >= 'a' && c <= 'z')
    return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z')
    return c - 'A' + 10;
  return 99;
}
static int m_space(char c) {
  return c == ' ' || (c >= '\t' && c <= '\r');
}

/* strtoul on at most `width` characters; *used = 0 if no number */
static uint64_t m_uint(const char *s, int base, int width, int *used, int *neg) {
  int i = 0;
  *neg = 0;
  if (i < width && (s[i] == '-' || s[i] == '+')) {
    *neg = s[i] == '-';
    i++;
  }
  if ((base == 16 || base == 0) && i + 2 < width && s[i] == '0' &&
      (s[i + 1] == 'x' || s[i + 1] == 'X') && m_digit(s[i + 2]) < 16) {
    base = 16;
    i += 2;
  }
  if (base == 0)
    base = s[i] == '0' ? 8 : 10;
  uint64_t v = 0;
  int any = 0;
  while (i < width && m_digit(s[i]) < base) {
    v = v * (uint64_t)base + (uint64_t)m_digit(s[i]);
    any = 1;
    i++;
  }
  *used = any ? i : 0;
  return v;
}

unsigned long strtoul(const char *s, char **end, int base) {
  int k = 0, used, neg;
  while (m_space(s[k]))
    k++;
  uint64_t v = m_uint(s + k, base, 1 << 20, &used, &neg);
  if (end)
    *end = (char *)(used ? s + k + used : s);
  return neg ? -v : v;
}

/* sscanf for integer conversions %x %X %u %d %i with optional width and hh/h/l */
static int m_sscanf(const char *s, const char *f, va_list ap) {
  int n = 0;
  while (*f) {
    if (m_space(*f)) {
      while (m_space(*s))
        s++;
      f++;
      continue;
    }
    if (*f != '%') {
      if (*s != *f)
        return n;
      s++;
      f++;
      continue;
    }
    f++;
    int width = 0;
    while (*f >= '0' && *f <= '9')
      width = width * 10 + (*f++ - '0');
    if (width == 0)
      width = 1 << 20;
    int size = 4;
    if (*f == 'h') {
      f++;
      size = 2;
      if (*f == 'h') {
        f++;
        size = 1;
      }
    }
    else if (*f == 'l') {
      f++;
      size = 8;
      if (*f == 'l')
        f++;
    }
    char c = *f++;
    if (c == 'c') {
      if (!*s)
        return n ? n : -1;
      *va_arg(ap, char *) = *s++;
      n++;
      continue;
    }
    int base = (c == 'x' || c == 'X') ? 16 : c == 'i' ? 0 : 10;
    while (m_space(*s))
      s++;
    if (!*s)
      return n ? n : -1;
    int used, neg;
    uint64_t v = m_uint(s, base, width, &used, &neg);
    if (!used)
      return n;
    if (neg)
      v = -v;
    s += used;
    if (size == 1)
      *va_arg(ap, uint8_t *) = (uint8_t)v;
    else if (size == 2)
      *va_arg(ap, uint16_t *) = (uint16_t)v;
    else if (size == 4)
      *va_arg(ap, uint32_t *) = (uint32_t)v;
    else
      *va_arg(ap, uint64_t *) = v;
    n++;
  }
  return n;
}
int sscanf(const char *s, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int n = m_sscanf(s, f, ap);
  va_end(ap);
  return n;
}
int __isoc99_sscanf(const char *s, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int n = m_sscanf(s, f, ap);
  va_end(ap);
  return n;
}
int __isoc23_sscanf(const char *s, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int n = m_sscanf(s, f, ap);
  va_end(ap);
  return n;
}

int __builtin_isfinite(double x) { return __CPROVER_isfinited(x); }

/* calloc with the element type of the request, so that arrays of numbers are
 * not encoded as arrays of bytes */
void *calloc(size_t n, size_t s) {
  if (s != 0 && n > (size_t)-1 / s)
    return 0;
  if (s == sizeof(double)) {
    double *p = malloc(n * sizeof(double));
    if (p)
      __CPROVER_array_set(p, 0.0);
    return p;
  }
  if (s == sizeof(int32_t)) {
    int32_t *p = malloc(n * sizeof(int32_t));
    if (p)
      __CPROVER_array_set(p, 0);
    return p;
  }
  uint8_t *p = malloc(n * s);
  if (p)
    __CPROVER_array_set(p, 0);
  return p;
}
