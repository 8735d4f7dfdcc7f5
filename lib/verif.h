/* Shared harness vocabulary.
 *
 * Under CBMC every IN_* is a symbolic variable and CHECK is an assertion the
 * solver must discharge.  In a native replay build (-DVERIF_REPLAY) IN_* reads
 * the value the solver assigned in a counterexample and CHECK reports a
 * failure, so the same file both decides the property and replays its violation
 * against an ordinary gcc build of the real sources.
 *
 * Every symbolic input must be a variable whose name starts with "in_".
 */
#ifndef VERIF_H
#define VERIF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifndef VERIF_REPLAY
uint8_t nondet_u8(void);
uint16_t nondet_u16(void);
uint32_t nondet_u32(void);
int32_t nondet_i32(void);
uint64_t nondet_u64(void);
double nondet_dbl(void);
#define IN_U8(v) uint8_t v = nondet_u8()
#define IN_U16(v) uint16_t v = nondet_u16()
#define IN_U32(v) uint32_t v = nondet_u32()
#define IN_I32(v) int32_t v = nondet_i32()
#define IN_U64(v) uint64_t v = nondet_u64()
#define IN_DBL(v) double v = nondet_dbl()
/* v becomes a pointer to an array object of exactly n symbolic elements */
#define IN_ARR(T, v, n)                                                        \
  struct v##_t {                                                               \
    T a[(n)];                                                                  \
  };                                                                           \
  struct v##_t nondet_##v(void);                                               \
  struct v##_t v##_st = nondet_##v();                                          \
  T *v = v##_st.a
#define IN_SET(v) v = nondet_u64() /* assign to existing lvalue */
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert(c, "CHECK " msg)
#define WITNESS() __CPROVER_assert(0, "WITNESS reachable")
/* the block p points to holds at least n bytes */
#define BLOCK_AT_LEAST(p, n) (__CPROVER_OBJECT_SIZE(p) >= (size_t)(n) &&       \
                              __CPROVER_POINTER_OFFSET(p) == 0)
#define WRITABLE(p, n) __CPROVER_w_ok(p, n)
#else
#include <stdio.h>
uint64_t verif_get(const char *name, long idx);
void verif_fail(const char *what);
void verif_end(void);
void verif_skip(const char *what);
static inline double verif_getd(const char *name, long idx) {
  uint64_t b = verif_get(name, idx);
  double d;
  memcpy(&d, &b, 8);
  return d;
}
#define IN_U8(v) uint8_t v = (uint8_t)verif_get(#v, 0)
#define IN_U16(v) uint16_t v = (uint16_t)verif_get(#v, 0)
#define IN_U32(v) uint32_t v = (uint32_t)verif_get(#v, 0)
#define IN_I32(v) int32_t v = (int32_t)verif_get(#v, 0)
#define IN_U64(v) uint64_t v = verif_get(#v, 0)
#define IN_DBL(v) double v = verif_getd(#v, 0)
#define IN_ARR(T, v, n)                                                        \
  T *v = (T *)malloc(sizeof(T) * (n));                                         \
  do {                                                                         \
    for (long v##_i = 0; v##_i < (long)(n); v##_i++) {                         \
      uint64_t v##_b = verif_get(#v, v##_i);                                   \
      memcpy(&v[v##_i], &v##_b, sizeof(T));                                    \
    }                                                                          \
  } while (0)
#define IN_SET(v) v = verif_get(#v, 0)
#define ASSUME(c)                                                              \
  do {                                                                         \
    if (!(c))                                                                  \
      verif_skip(#c);                                                          \
  } while (0)
#define CHECK(c, msg)                                                          \
  do {                                                                         \
    if (!(c))                                                                  \
      verif_fail(msg);                                                         \
  } while (0)
#define WITNESS() verif_end()
size_t verif_block_size(void *p);
#define BLOCK_AT_LEAST(p, n) (verif_block_size((void *)(p)) >= (size_t)(n))
#define WRITABLE(p, n) (verif_block_size((void *)(p)) >= (size_t)(n))
#endif

#define IN_ARR_U8(v, n) IN_ARR(uint8_t, v, n)

/* snapshot of an input array and the claim that the call left it alone; the
 * comparison is made at one symbolic index, hence at every index */
#define SNAPSHOT(v, n)                                                         \
  uint8_t snap_##v[(n)];                                                       \
  memcpy(snap_##v, v, (n))
#define UNCHANGED(v, n, msg)                                                   \
  do {                                                                         \
    IN_U32(in_unch_##v);                                                       \
    ASSUME(in_unch_##v < (uint32_t)(n));                                       \
    CHECK(v[in_unch_##v] == snap_##v[in_unch_##v], msg);                       \
  } while (0)
#endif
