/* Force-included into the library sources by the "pool" variant: heap objects
 * live in a few typed arrays of constant size.  Every request gets its own
 * pool; the elements after the requested size are canaries which POOL_CHECK
 * compares at the end, and freeing a pool havocs it.  (Objects whose size
 * depends on symbolic data are what makes the plain heap model intractable.)
 * The native replay uses the real heap under ASan instead. */
#ifndef POOLALLOC_H
#define POOLALLOC_H
#include <stdlib.h>
#ifndef VERIF_REPLAY
void *pool_malloc(size_t n);
void *pool_calloc(size_t n, size_t s);
void pool_free(void *p);
void pool_check(void);
#define malloc(n) (__builtin_constant_p(n) ? (malloc)(n) : pool_malloc(n))
#define calloc(n, s) pool_calloc(n, s)
#define free(p) pool_free(p)
#define POOL_CHECK() pool_check()
#else
#define POOL_CHECK() ((void)0)
#endif
#endif
