/* Included before every source in the "fault" variant: the n-th allocation
 * request fails if fa_next() says so.  Macros, so that the symbolic execution
 * still sees the element type of each request. */
#ifndef FAULTMAC_H
#define FAULTMAC_H
#include <stdlib.h>
#include <math.h>
#ifndef VERIF_REPLAY
/* equivalent forms which are folded to constants */
#undef isfinite
#undef isnan
#undef isinf
#define isfinite(x) ((x) - (x) == 0)
#define isnan(x) ((x) != (x))
#define isinf(x) ((x) == (x) && (x) - (x) != 0)
#endif
int fa_next(void);
void fa_free(void *p);
#define malloc(n) (fa_next() ? NULL : malloc(n))
#define calloc(n, m) (fa_next() ? NULL : calloc(n, m))
#define free(p) fa_free(p)
#endif
