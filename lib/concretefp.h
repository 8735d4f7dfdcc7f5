/* sqrt, exp and atan2 as plain arithmetic, which the symbolic execution folds
 * to constants on constant arguments.  Only for queries in which the pictures
 * are constants and the result does not depend on the last digits. */
#ifndef VERIF_REPLAY
double sqrt(double a) {
  if (!(a > 0))
    return 0;
  double r = a > 1 ? a : 1;
  for (int i = 0; i < 40; i++)
    r = 0.5 * (r + a / r);
  return r;
}
double exp(double a) {
  double r = 1 + a / 1024;
  for (int i = 0; i < 10; i++)
    r *= r;
  return r;
}
double atan2(double y, double x) {
  const double ax = x < 0 ? -x : x, ay = y < 0 ? -y : y;
  if (ax + ay == 0)
    return 0;
  const double t = ay / (ax + ay) * 1.5707963267948966;
  const double u = x < 0 ? 3.141592653589793 - t : t;
  return y < 0 ? -u : u;
}
#endif
