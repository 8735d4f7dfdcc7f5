/* parse_pipeline and parse_geometry of the command line.
 * CASE 1: arguments of LENS (0 = end) symbolic characters in place of the ones
 *         written '?' in A0..A3: splitting into operations and parameters
 * CASE 2: one operation with parameters of its own syntax (OPKIND)
 * CASE 3: parse_geometry on any string of the template
 * CASE 4: add_operation, OPS times: names of NAMELEN and texts of TEXTLEN bytes
 *         at most, any numbers */
#include "verif.h"
static double number(const char *s);
#define atof number
#define strdup dup_
#define strlen len_
#define strcmp cmp_
#include <string.h>
static char *dup_(const char *s);
static size_t len_(const char *s);
static int cmp_(const char *a, const char *b);
#include "clistubs.h"
#undef atof
#undef strdup
#undef strlen
#undef strcmp
#define ALPHABET(c) ((c) == 'a' || (c) == 'q' || (c) == ' ' || (c) == '\t' || (c) == ',' || (c) == '(' || (c) == ')' || (c) == '-' || ((c) >= '5' && (c) <= '8'))
#if CASE == 3
#undef ALPHABET
#define ALPHABET(c) ((c) != 0)
#elif CASE == 2
#undef ALPHABET
#define ALPHABET(c) ((c) == 'f' || (c) == ' ' || (c) == 'x' || (c) == '%' || (c) == '-' || ((c) >= '5' && (c) <= '8') || (c) == '0')
#endif
#ifndef A0
#define A0 ""
#endif
#ifndef A1
#define A1 ""
#endif
#ifndef A2
#define A2 ""
#endif
static char a0[] = A0, a1[] = A1, a2[] = A2;
#define L0 ((int)sizeof a0 - 1)
#define L1 ((int)sizeof a1 - 1)
#define L2 ((int)sizeof a2 - 1)
#define NARG (L2 ? 3 : L1 ? 2 : 1)
#define TOTAL (L0 + (L1 ? 1 + L1 : 0) + (L2 ? 1 + L2 : 0))

/* lengths of the arguments are constants, as they contain no NUL */
static size_t len_(const char *s) {
  if (s == a0)
    return L0;
  if (s == a1)
    return L1;
  if (s == a2)
    return L2;
  size_t n = 0;
  while (s[n])
    n++;
  return n;
}
static char *dup_(const char *s) {
  size_t n = 0;
  while (s[n])
    n++;
#ifndef VERIF_REPLAY
#ifndef TEXTLEN
#define TEXTLEN (TOTAL + 40)
#endif
  CHECK(n <= TEXTLEN, "size of copies");
  char *r = malloc(TEXTLEN + 1);
#else
  char *r = malloc(n + 1);
#endif
  for (size_t i = 0; i <= n; i++)
    r[i] = s[i];
  return r;
}
/* strings are either literals or parts of the arguments */
static int cmp_(const char *a, const char *b) {
#if CASE == 1
  if (b[0] >= 'a' && b[0] <= 'z' && b[0] != 'a' && b[0] != 'q') { /* name of an operation with parameters of its own */
    CHECK(a[0] != b[0], "no such operation");
    return 1;
  }
#endif
#if CASE == 2 && !defined(VERIF_REPLAY)
  /* there is only the operation NAME: split the comparison into a claim for
   * the solver and a constant which prunes the other operations */
  static const char name[] = NAME;
  bool is = true;
  for (int i = 0; i < (int)sizeof name; i++) {
    CHECK(a[i] == name[i], "name of the operation");
    if (is && b[i] != name[i])
      return 1;
  }
  return 0;
#endif
  for (int i = 0; i <= TOTAL; i++) {
    if (a[i] != b[i])
      return a[i] < b[i] ? -1 : 1;
    if (!a[i])
      return 0;
  }
  CHECK(0, "length of the strings");
  return 0;
}
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }

/* integer at the start of a string; stands in for atof */
static double number(const char *s) {
  while (blank(*s))
    s++;
  const bool neg = *s == '-';
  if (*s == '-' || *s == '+')
    s++;
  int v = 0;
  for (; *s >= '0' && *s <= '9'; s++)
    v = v * 10 + (*s - '0');
#if BIG /* stands for a longer number */
  return v == 8 ? 1e200 : v;
#endif
  return neg ? -v : v;
}

/* expected operation: text between b and e, blanks at both ends dropped */
static char all[TOTAL + 2];
typedef struct {
  char s[TOTAL + 2];
  int n;
} Str;
static Str cut(const Str *t, int b, int e) { /* [b, e) without the blanks around it */
  Str r;
  r.n = 0;
  int last = 0;
  for (int i = 0; i < TOTAL; i++) {
    if (i < b || i >= e)
      continue;
    if (r.n == 0 && blank(t->s[i]))
      continue;
    r.s[r.n++] = t->s[i];
    if (!blank(t->s[i]))
      last = r.n;
  }
  r.n = last;
  r.s[last] = 0;
  return r;
}
static int find(const Str *t, char c) {
  int r = -1;
  for (int i = 0; i < TOTAL; i++)
    if (r < 0 && i < t->n && t->s[i] == c)
      r = i;
  return r;
}
static bool same(const char *a, const Str *t) { /* no lengths beyond TOTAL */
  for (int i = 0; i <= TOTAL; i++) {
    if (i == t->n)
      return a[i] == 0;
    if (a[i] != t->s[i])
      return false;
  }
  return false;
}

static bool starts(const char *a, const Str *t) { /* followed by a blank or cut off */
  for (int i = 0; i <= TOTAL; i++) {
    if (i == t->n)
      return a[i] == 0 || a[i] == ' ';
    if (a[i] != t->s[i])
      return a[i] == 0 && i >= 60;
  }
  return false;
}
static Str str(const char *s) {
  Str r;
  r.n = 0;
  while (s[r.n]) {
    r.s[r.n] = s[r.n];
    r.n++;
  }
  r.s[r.n] = 0;
  return r;
}

/* the operations expected; for the solver add_operation is replaced by
 * rec_add, so that they are compared as they come */
typedef struct {
  Str name, text;
  int params, has_text;
  double v[4];
} Want;
#if CASE == 2
#define MAXOPS 1
#elif !defined MAXOPS
#define MAXOPS ((TOTAL + 2) / 2)
#endif
static Want want[MAXOPS];
static int nwant, got;
static void check_op(const char *op, double a, int ha, double b, int hb, double c, int hc, double d, int hd, const char *text, int ht) {
  CHECK(got < nwant, "nothing but the operations");
  for (int i = 0; i < MAXOPS; i++) {
    if (i != got)
      continue;
    const Want *w = &want[i];
    CHECK(same(op, &w->name), "names, in order");
    CHECK(!!ha == (w->params > 0) && !!hb == (w->params > 1) && !!hc == (w->params > 2) && !!hd == (w->params > 3), "number of parameters");
    CHECK(!ha || a == w->v[0], "first parameter");
    CHECK(!hb || b == w->v[1], "second parameter");
    CHECK(!hc || c == w->v[2], "third parameter");
    CHECK(!hd || d == w->v[3], "fourth parameter");
    CHECK(!!ht == !!w->has_text, "presence of a text");
    if (ht && w->has_text == 1)
      CHECK(same(text, &w->text), "text");
    if (ht && w->has_text == 2)
      CHECK(starts(text, &w->text), "text");
  }
  got++;
}
void rec_add(Pipeline *p, const char *op, double a, int32_t ha, double b, int32_t hb, double c, int32_t hc, double d, int32_t hd, const char *text,
             int32_t ht) {
  check_op(op, a, ha, b, hb, c, hc, d, hd, text, ht);
}

#if CASE == 3
/* [blanks][sign]digits: value in *v, position behind it, or -1 */
static int num(const char *s, int i, bool sign, int64_t *v, bool *strict) {
  const int i0 = i;
  while (blank(s[i]))
    i++;
  bool neg = false;
  if (s[i] == '+' || s[i] == '-') {
    neg = s[i] == '-';
    i++;
    if (!sign)
      *strict = false;
  }
  else if (sign)
    *strict = false;
  if (i - i0 > 1 || (i > i0 && blank(s[i0])))
    *strict = false;
  if (s[i] < '0' || s[i] > '9')
    return -1;
  *v = 0;
  for (; s[i] >= '0' && s[i] <= '9'; i++)
    *v = *v * 10 + (s[i] - '0');
  if (neg)
    *v = -*v;
  return i;
}
#endif

int main(void) {
  char *av[] = {"flatcv", "in", a0, a1, a2, "out"};
  IN_ARR_U8(in_c, TOTAL + 1);
  int k = 0;
#define FILL(a, l)                                                                                                                                   \
  for (int i = 0; i < l; i++) {                                                                                                                      \
    if (a[i] == '?' || a[i] == '#') {                                                                                                                \
      char c = (char)in_c[k];                                                                                                                        \
      if (a[i] == '?')                                                                                                                               \
        ASSUME(ALPHABET(c));                                                                                                                         \
      else                                                                                                                                           \
        ASSUME(c >= '0' && c <= '9');                                                                                                                \
      a[i] = c;                                                                                                                                      \
    }                                                                                                                                                \
    all[k++] = a[i];                                                                                                                                 \
  }
  FILL(a0, L0)
  if (L1) {
    all[k++] = ' ';
    FILL(a1, L1)
  }
  if (L2) {
    all[k++] = ' ';
    FILL(a2, L2)
  }
#if CASE == 4
  Pipeline *p = create_pipeline();
  static char name[OPS][NAMELEN + 1], text[OPS][TEXTLEN + 1];
  static double v[OPS][4];
  static uint8_t has[OPS];
  IN_ARR_U8(in_name, OPS * NAMELEN);
  IN_ARR_U8(in_text, OPS * TEXTLEN + 1);
  IN_ARR_U8(in_has, OPS);
  IN_ARR(double, in_v, OPS * 4);
  for (int i = 0; i < OPS; i++) {
    for (int j = 0; j < NAMELEN; j++)
      name[i][j] = (char)in_name[i * NAMELEN + j];
    for (int j = 0; j < TEXTLEN; j++)
      text[i][j] = (char)in_text[i * TEXTLEN + j];
    for (int j = 0; j < 4; j++) {
      v[i][j] = in_v[i * 4 + j];
      ASSUME(v[i][j] == v[i][j]);
    }
    has[i] = in_has[i];
    add_operation(p, name[i], v[i][0], has[i] & 1, v[i][1], has[i] >> 1 & 1, v[i][2], has[i] >> 2 & 1, v[i][3], has[i] >> 3 & 1,
                  has[i] & 32 ? NULL : text[i], has[i] >> 4 & 1);
    for (int j = 0; j < NAMELEN; j++)
      name[i][j] = 1; /* the strings belong to the caller */
    for (int j = 0; j < TEXTLEN; j++)
      text[i][j] = 1;
  }
  CHECK(p->count == OPS, "every operation is kept");
  for (int i = 0; i < OPS; i++) {
    const PipelineOp *o = &p->ops[i];
    bool eq = true;
    for (int j = 0; j < NAMELEN && eq; j++) {
      const char c = (char)in_name[i * NAMELEN + j];
      if (j < 31)
        CHECK(o->operation[j] == c, "names, in order");
      eq = c != 0;
    }
    CHECK(o->operation[NAMELEN < 31 ? NAMELEN : 31] == 0 || !eq, "end of the name");
    CHECK(o->param == v[i][0] && o->param2 == v[i][1] && o->param3 == v[i][2] && o->param4 == v[i][3], "numbers");
    CHECK(!!o->has_param == (has[i] & 1) && !!o->has_param2 == (has[i] >> 1 & 1) && !!o->has_param3 == (has[i] >> 2 & 1) &&
              !!o->has_param4 == (has[i] >> 3 & 1), "presence of the numbers");
    CHECK(!!o->has_string_param == (has[i] >> 4 & 1), "presence of the text");
    eq = (has[i] & 16) && !(has[i] & 32);
    for (int j = 0; j < TEXTLEN && eq; j++) {
      const char c = (char)in_text[i * TEXTLEN + j];
      CHECK(o->param_str[j] == c, "text");
      eq = c != 0;
    }
    CHECK(!eq || o->param_str[TEXTLEN] == 0, "end of the text");
  }
  free_pipeline(p);
  WITNESS();
#elif CASE == 3
  uint32_t w = 7, h = 7;
  int32_t x = 7, y = 7;
  char g[TOTAL + 1];
  for (int i = 0; i <= TOTAL; i++)
    g[i] = i < TOTAL ? a0[i] : 0;
  const int32_t ok = parse_geometry(g, &w, &h, &x, &y);
  int64_t ew = 0, eh = 0, ex = 0, ey = 0;
  bool strict = true;
  int i = num(g, 0, false, &ew, &strict);
  bool good = i >= 0 && g[i] == 'x';
  if (good) {
    i = num(g, i + 1, false, &eh, &strict);
    good = i >= 0;
  }
  if (good && g[i]) {
    i = num(g, i, true, &ex, &strict);
    good = i >= 0;
  }
  if (good && g[i]) {
    i = num(g, i, true, &ey, &strict);
    good = i >= 0 && !g[i];
  }
  good = good && ew > 0 && eh > 0 && ew <= UINT32_MAX && eh <= UINT32_MAX && ex >= INT32_MIN && ex <= INT32_MAX && ey >= INT32_MIN && ey <= INT32_MAX;
  if (!good)
    CHECK(!ok, "malformed geometries are rejected");
  if (good && strict)
    CHECK(ok, "well-formed geometries are accepted");
  if (good && ok)
    CHECK(w == ew && h == eh && x == ex && y == ey, "with their values");
  WITNESS();
#else
  Str whole;
  whole.n = TOTAL;
  for (int i = 0; i < TOTAL; i++)
    whole.s[i] = all[i];
#if CASE == 2
  /* one operation NAME, its parameters behind the name */
  bool good = true;
  Want w;
  w.params = w.has_text = 0;
  w.name = str(NAME);
  Str t = cut(&whole, w.name.n + 1, TOTAL);
  const int s1 = find(&t, ' ');
  Str first = cut(&t, 0, s1 < 0 ? t.n : s1), rest;
  rest.n = 0;
  rest.s[0] = 0;
  if (s1 >= 0)
    rest = cut(&t, s1 + 1, t.n);
#if OPKIND == 1 /* border colour width */
  w.text = first;
  w.has_text = 1;
  w.v[0] = number(rest.s);
  w.params = 1;
  good = s1 >= 0 && w.v[0] > 0;
#elif OPKIND == 2 /* circle colour radius XxY */
  w.text = first;
  w.has_text = 2;
  const int s2 = find(&rest, ' ');
  Str radius = cut(&rest, 0, s2), pos = cut(&rest, s2 + 1, rest.n);
  const int x = find(&pos, 'x');
  good = s1 >= 0 && s2 >= 0 && x >= 0;
  if (good) {
    w.params = 3;
    w.v[0] = number(radius.s);
    Str c = cut(&pos, 0, x);
    w.v[1] = number(c.s);
    c = cut(&pos, x + 1, pos.n);
    w.v[2] = number(c.s);
  }
#elif OPKIND == 3 || OPKIND == 4 /* resize, trim: text or numbers */
  if (find(&t, '%') >= 0 || (OPKIND == 3 && find(&t, 'x') >= 0)) {
    w.text = t;
    w.has_text = 1;
  }
  else {
    w.v[0] = number(t.s);
    w.params = 1;
    if (s1 >= 0 && OPKIND == 3) {
      w.v[1] = number(rest.s);
      w.params = 2;
    }
  }
#elif OPKIND == 5 /* watershed: text */
  w.text = t;
  w.has_text = 1;
#elif OPKIND == 6 /* crop #x#..: digits only */
  w.params = 4;
  const int x = find(&t, 'x');
  int o1 = t.n, o2 = t.n;
  for (int i = 0; i < TOTAL; i++)
    if (i < t.n && (t.s[i] == '+' || t.s[i] == '-')) {
      if (o1 == t.n)
        o1 = i;
      else
        o2 = i;
    }
  Str c = cut(&t, 0, x);
  w.v[2] = number(c.s);
  c = cut(&t, x + 1, o1);
  w.v[3] = number(c.s);
  c = cut(&t, o1, o2);
  w.v[0] = number(c.s);
  c = cut(&t, o2, t.n);
  w.v[1] = number(c.s);
  good = w.v[2] > 0 && w.v[3] > 0;
#elif OPKIND == 7 /* extract_document_to WxH */
  w.params = 2;
  const int x = find(&t, 'x');
  Str c = cut(&t, 0, x < 0 ? 0 : x);
  w.v[0] = number(c.s);
  c = cut(&t, x + 1, t.n);
  w.v[1] = number(c.s);
  good = x >= 0 && w.v[0] > 0 && w.v[1] > 0;
#endif /* OPKIND 8: extract_document, no parameters */
  if (t.n == 0) { /* the name only */
    w.params = w.has_text = 0;
    good = true;
  }
  want[0] = w;
  nwant = 1;
#elif CASE == 1
  int b = 0;
  for (int e = 0; e <= TOTAL; e++) {
    if (e < TOTAL && all[e] != ',')
      continue;
    Str t = cut(&whole, b, e);
    b = e + 1;
    if (t.n >= 2 && t.s[0] == '(' && t.s[t.n - 1] == ')')
      t = cut(&t, 1, t.n - 1);
    if (t.n == 0)
      continue;
    Want w;
    w.params = w.has_text = 0;
    const int sp = find(&t, ' ');
    w.name = t;
    if (sp >= 0) {
      w.name.n = sp;
      Str rest = cut(&t, sp + 1, t.n);
      const int sp2 = find(&rest, ' ');
      Str v = cut(&rest, 0, sp2 >= 0 ? sp2 : rest.n);
      w.v[0] = number(v.s);
      w.params = 1;
      if (sp2 >= 0) {
        v = cut(&rest, sp2 + 1, rest.n);
        w.v[1] = number(v.s);
        w.params = 2;
      }
    }
    CHECK(nwant < MAXOPS, "bound of the harness");
    for (int i = 0; i < MAXOPS; i++)
      if (i == nwant)
        want[i] = w;
    nwant++;
  }
  const bool good = true;
#endif
  Pipeline *p = create_pipeline();
  const int32_t rc = parse_pipeline(6, av, 2, 2 + NARG, p);
#ifdef VERIF_REPLAY
  for (int i = 0; i < p->count; i++) {
    const PipelineOp *o = &p->ops[i];
    check_op(o->operation, o->param, o->has_param, o->param2, o->has_param2, o->param3, o->has_param3, o->param4, o->has_param4, o->param_str,
             o->has_string_param);
  }
#endif
  CHECK(!!rc == good, "accepted exactly when well-formed");
  CHECK(!rc || got == nwant, "every operation is kept");
  free_pipeline(p);
  if (rc)
    WITNESS();
#endif
}
