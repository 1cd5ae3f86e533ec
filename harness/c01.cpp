#include "h.h"
#include "libqasm/utils.hpp"
extern "C" void vp_main() {
  std::string s = teststr("c");
  std::string e = cqasm::utils::json_encode(s);
  bool ok; std::string d = json_decode(e, ok);
  vp_check(ok, "the encoded text is a legal JSON string body");
  vp_check(same(d, s), "decoding the encoded text gives back the original bytes");
  // bytes that need no escaping are passed through unchanged
  std::size_t j = 0; bool thru = true;
  for (std::size_t i = 0; i < s.size(); i++) { u8 c = (u8)s[i]; if (c == '"' || c == '\\' || c < 0x20) { j += (j + 1 < e.size() && e[j + 1] == 'u') ? 6 : 2; } else { thru &= j < e.size() && e[j] == (char)c; j++; } }
  vp_check(thru & (j == e.size()), "bytes that need no escaping are passed through unchanged");
  vp_observe("digest", digest(e));
  if (s.size() && (u8)s[0] >= 0x80) vp_reach("high byte"); else if (s.size() && (u8)s[0] < 32) vp_reach("control"); else vp_reach("other");
}
