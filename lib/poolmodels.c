#include <stdint.h>
#include <stdlib.h>
typedef struct {
  double x, y;
} P2;
#define PMAX 40
#define NP 4
#define CAN 77.0
static P2 pool_p[NP][PMAX];
static size_t pool_pn[NP];
static _Bool pool_pf[NP];
static unsigned pool_pk;
static _Bool pool_b[NP][PMAX];
static size_t pool_bn[NP];
static _Bool pool_bf[NP];
static unsigned pool_bk;
_Bool nondet_pool_bool(void);
double nondet_pool_double(void);

void *pool_malloc(size_t n) {
  if (n % sizeof(P2) || n > PMAX * sizeof(P2) || pool_pk >= NP || n == 0)
    return malloc(n);
  unsigned k = pool_pk++;
  pool_pn[k] = n / sizeof(P2);
  for (size_t i = 0; i < PMAX; i++)
    pool_p[k][i].x = i < pool_pn[k] ? nondet_pool_double() : CAN;
  return pool_p[k];
}
void *pool_calloc(size_t n, size_t s) {
  if (s != 1 || n > PMAX || pool_bk >= NP || n == 0)
    return calloc(n, s);
  unsigned k = pool_bk++;
  pool_bn[k] = n;
  for (size_t i = 0; i < PMAX; i++)
    pool_b[k][i] = i >= n && i % 2;
  return pool_b[k];
}
void pool_check(void) {
  for (unsigned k = 0; k < NP; k++)
    for (size_t i = 0; i < PMAX; i++) {
      if (k < pool_pk && !pool_pf[k] && i >= pool_pn[k])
        __CPROVER_assert(pool_p[k][i].x == CAN, "CHECK writes stay inside the allocation");
    }
}
void pool_free(void *p) {
  for (unsigned k = 0; k < NP; k++)
    if (p == pool_p[k]) {
      __CPROVER_assert(!pool_pf[k], "CHECK no double free");
      for (size_t i = 0; i < PMAX; i++) {
        if (i >= pool_pn[k])
          __CPROVER_assert(pool_p[k][i].x == CAN, "CHECK writes stay inside the allocation");
        pool_p[k][i].x = nondet_pool_double();
      }
      pool_pf[k] = 1;
      return;
    }
  for (unsigned k = 0; k < NP; k++)
    if (p == pool_b[k]) {
      __CPROVER_assert(!pool_bf[k], "CHECK no double free");
      for (size_t i = 0; i < PMAX; i++) {
        if (i >= pool_bn[k])
          __CPROVER_assert(pool_b[k][i] == (_Bool)(i % 2), "CHECK writes stay inside the allocation");
        pool_b[k][i] = nondet_pool_bool();
      }
      pool_bf[k] = 1;
      return;
    }
  free(p);
}

static const double small_sqrt[65] = {
  0x0.0p+0,
  0x1.0000000000000p+0,
  0x1.6a09e667f3bcdp+0,
  0x1.bb67ae8584caap+0,
  0x1.0000000000000p+1,
  0x1.1e3779b97f4a8p+1,
  0x1.3988e1409212ep+1,
  0x1.52a7fa9d2f8eap+1,
  0x1.6a09e667f3bcdp+1,
  0x1.8000000000000p+1,
  0x1.94c583ada5b53p+1,
  0x1.a887293fd6f34p+1,
  0x1.bb67ae8584caap+1,
  0x1.cd82b446159f3p+1,
  0x1.deeea11683f49p+1,
  0x1.efbdeb14f4edap+1,
  0x1.0000000000000p+2,
  0x1.07e0f66afed07p+2,
  0x1.0f876ccdf6cd9p+2,
  0x1.16f8334644df9p+2,
  0x1.1e3779b97f4a8p+2,
  0x1.2548eb9151e85p+2,
  0x1.2c2fc595456a7p+2,
  0x1.32eee75770416p+2,
  0x1.3988e1409212ep+2,
  0x1.4000000000000p+2,
  0x1.465655f122ff6p+2,
  0x1.4c8dc2e423980p+2,
  0x1.52a7fa9d2f8eap+2,
  0x1.58a68a4a8d9f3p+2,
  0x1.5e8add236a58fp+2,
  0x1.645640568c1c3p+2,
  0x1.6a09e667f3bcdp+2,
  0x1.6fa6ea162d0f0p+2,
  0x1.752e50db3a3a2p+2,
  0x1.7aa10d193c22dp+2,
  0x1.8000000000000p+2,
  0x1.854bfb363dc39p+2,
  0x1.8a85c24f70659p+2,
  0x1.8fae0c15ad38ap+2,
  0x1.94c583ada5b53p+2,
  0x1.99ccc999fff00p+2,
  0x1.9ec474a261264p+2,
  0x1.a3ad12a1da160p+2,
  0x1.a887293fd6f34p+2,
  0x1.ad5336963eefcp+2,
  0x1.b211b1c70d023p+2,
  0x1.b6c30b83593e6p+2,
  0x1.bb67ae8584caap+2,
  0x1.c000000000000p+2,
  0x1.c48c6001f0ac0p+2,
  0x1.c90d29d2d43cep+2,
  0x1.cd82b446159f3p+2,
  0x1.d1ed52076fbe9p+2,
  0x1.d64d51e0db1c6p+2,
  0x1.daa2fefaae1d8p+2,
  0x1.deeea11683f49p+2,
  0x1.e3307cc56cf5cp+2,
  0x1.e768d399dc470p+2,
  0x1.eb97e455b9edbp+2,
  0x1.efbdeb14f4edap+2,
  0x1.f3db2174e7468p+2,
  0x1.f7efbeb8d4f12p+2,
  0x1.fbfbf7ebc755fp+2,
  0x1.0000000000000p+3
};
double __CPROVER_uninterpreted_sqrt(double);
double sqrt(double x) {
  if (x >= 0 && x <= 64) {
    uint8_t i = (uint8_t)x;
    if ((double)i == x)
      return small_sqrt[i];
  }
  return __CPROVER_uninterpreted_sqrt(x);
}
