/* Harness side of the "fault" variant (see faultmac.h): the n-th request fails
 * exactly if bit n of fa_mask is set; live blocks are counted. */
static uint32_t fa_mask, fa_n;
static int fa_live;
static bool fa_failed;
int fa_next(void) {
  const uint32_t k = fa_n++;
#ifdef FIRST /* request FIRST is the first to fail; none up to NTOTAL if it is NTOTAL */
  const bool fail = (k == FIRST && k < NTOTAL) || (k >= FIRST && k < 32 && (fa_mask >> k & 1));
#else
  const bool fail = k < 32 && (fa_mask >> k & 1);
#endif
  if (fail)
    fa_failed = true;
  else
    fa_live++;
  return fail;
}
void fa_free(void *p) {
  if (p)
    fa_live--;
  (free)(p);
}
