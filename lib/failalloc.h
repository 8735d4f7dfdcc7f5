/* Stand-in allocator for the "alloc" variant: counts the requests and reports
 * failure, so that nothing behind an allocation runs. */
#undef malloc
#undef calloc
#undef free
static int alloc_calls;
static uint64_t alloc_last;
void *verif_malloc(size_t n) {
  alloc_calls++;
  alloc_last = n;
  return NULL;
}
void *verif_calloc(size_t n, size_t m) { return verif_malloc(n * m); }
void verif_free(void *p) { (void)p; }
#define NOALLOC(msg) CHECK(alloc_calls == 0, msg)
