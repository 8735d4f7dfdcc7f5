/* sqrt and atan2 for the solver: exact (correctly rounded) on the grids the
 * harnesses confine themselves to, an unconstrained function elsewhere.
 * Arguments are multiples of 1/4. */
#include <stdint.h>
#include "fptables.h"
double __CPROVER_uninterpreted_sqrt(double);
double __CPROVER_uninterpreted_atan2(double, double);
double sqrt(double x) {
  double n = x * 16;
  if (n >= 0 && n <= FP_S) {
    uint32_t i = (uint32_t)n;
    if ((double)i == n)
      return fp_sqrt[i] / 4;
  }
  if (x >= 0 && x <= FP_S) {
    uint32_t i = (uint32_t)x;
    if ((double)i == x)
      return fp_sqrt[i];
  }
  return __CPROVER_uninterpreted_sqrt(x);
}
double atan2(double y, double x) {
  double a = x * 4, b = y * 4;
  if (a >= -FP_K && a <= FP_K && b >= -FP_K && b <= FP_K) {
    int32_t i = (int32_t)a, j = (int32_t)b;
    if ((double)i == a && (double)j == b)
      return fp_atan2[(j + FP_K) * (2 * FP_K + 1) + (i + FP_K)];
  }
  return __CPROVER_uninterpreted_atan2(y, x);
}
