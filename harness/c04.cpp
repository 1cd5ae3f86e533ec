#include "h.h"
#include "libqasm/utils.hpp"
extern "C" void vp_main() {
  std::string s = teststr("c");
  std::string r = cqasm::utils::remove_triple_quotes("'''" + s + "'''");
  check_same(r, s, "the enclosed text is returned unchanged");
  vp_observe("digest", digest(r)); vp_reach("stripped");
}
