#include "h.h"
#include "libqasm/utils.hpp"
extern "C" void vp_main() {
  std::string s = teststr("c");
  std::string e = cqasm::utils::url_encode(s);
  std::size_t j = 0; bool ok = true;
  for (std::size_t i = 0; i < s.size(); i++) {
    u8 c = (u8)s[i];
    if (is_alpha(c) || is_digit(c) || c == '-' || c == '_' || c == '.' || c == '~') { ok &= j < e.size() && e[j] == (char)c; j++; vp_reach("unreserved"); }
    else { if (j + 3 > e.size()) { vp_fail("a reserved byte is percent-escaped"); }
      unsigned h = hexval((u8)e[j + 1]), l = hexval((u8)e[j + 2]);
      ok &= (e[j] == '%') & (h < 16) & (l < 16) & (e[j + 1] < 'a') & (e[j + 2] < 'a') & (((h << 4 | l) & 0xff) == c); j += 3; vp_reach("escaped"); }
  }
  vp_check(ok & (j == e.size()), "the encoding is the exact percent-encoding of the input");
  vp_observe("digest", digest(e));
}
