/* fcv_resize asked for an exact size: factor = NW / W as the caller computes
 * it.  The allocator is a stand-in recording the request and failing, so no
 * pixel loop runs. */
#include "verif.h"
#include "conversion.h"
#include "failalloc.h"
int main(void) {
  static uint8_t px[4];
  uint32_t ow = 7, oh = 7;
  IN_U32(in_n);
  ASSUME(in_n >= 1 && in_n <= NMAX);
#if AXIS == 0
  fcv_resize(WC, 1, (double)in_n / WC, 1.0, &ow, &oh, px);
#else
  fcv_resize(1, WC, 1.0, (double)in_n / WC, &ow, &oh, px);
#endif
  CHECK(alloc_calls == 1 && alloc_last == (uint64_t)in_n * 4, "the result has exactly the requested number of pixels");
  WITNESS();
}
