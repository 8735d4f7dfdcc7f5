/* fcv_parse_hex_color over every NUL-terminated string of up to LEN chars
 * CASE 1: exact value (oracle below); any byte values */
#include "verif.h"
#include "parse_hex_color.h"
static int hexdig(char c) {
  return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
int main(void) {
  IN_ARR(uint8_t, in_s, LEN + 1);
  ASSUME(in_s[LEN] == 0);
  const char *s = (const char *)in_s;
  uint8_t rgb[3] = {1, 2, 3};
  fcv_parse_hex_color(s, &rgb[0], &rgb[1], &rgb[2]);
  size_t off = s[0] == '#', n = 0;
  while (off + n < LEN && s[off + n])
    n++;
  bool ok = n == 6;
  for (int i = 0; i < 6; i++)
    if (ok && hexdig(s[off + i]) < 0)
      ok = false;
  for (int k = 0; k < 3; k++) {
    uint8_t want = ok ? (uint8_t)(hexdig(s[off + 2 * k]) * 16 + hexdig(s[off + 2 * k + 1])) : 255;
    CHECK(rgb[k] == want, "six hex digits give exactly their RGB bytes, anything else gives white");
  }
  WITNESS();
}
