#include "h.h"
#include "libqasm/utils.hpp"
static u8 low(u8 c) { return (unsigned)(c - 'A') < 26u ? c + 32 : c; }
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0);
  std::string a = teststr("a"), want = a;
  for (auto& c : want) c = (char)low((u8)c);
  std::string keep = a; std::string l = cqasm::utils::to_lowercase(a);
  vp_check(same(l, want), "to_lowercase maps exactly the ASCII upper-case letters"); vp_check(same(a, keep), "the argument is unchanged");
  std::size_t n = a.size() + (i64)vp_param("DELTA", 0);
  std::string b = mode ? sparse("b", n, vp_param("SPARSE", 2)) : symstr("b", n);
  std::string wb = b; for (auto& c : wb) c = (char)low((u8)c);
  bool eq = cqasm::utils::equal_case_insensitive(a, b), eq2 = cqasm::utils::equal_case_insensitive(b, a);
  vp_check(eq == same(want, wb), "case-insensitive equality is equality of the lower-cased forms"); vp_check(eq == eq2, "case-insensitive equality is symmetric");
  vp_observe("eq", eq); vp_observe("l", digest(l));
  if (eq) vp_reach("equal"); else vp_reach("different");
}
