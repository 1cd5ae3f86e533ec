#include "h.h"
#include "libqasm/annotations.hpp"
using namespace cqasm::annotations; using SL = SourceLocation;
static SL::Index sym(const char* n) { std::string l = std::string(n) + ".line", c = std::string(n) + ".column"; SL::Index i; i.line = sym32(l.c_str()); i.column = sym32(c.c_str()); return i; }
typedef unsigned __int128 w128;
static u64 k(const SL::Index& i) { return (u64)i.line << 32 | i.column; }
template <class T> static void ops(const T& a, const T& b, bool lt, bool eq, const char* m) { // a comparison that does not exist is not the right one
  if constexpr (requires { a < b; a <= b; a > b; a >= b; }) {
    vp_check((a < b) == lt, m); vp_check((b > a) == lt, m); vp_check((a <= b) == (lt | eq), m); vp_check((b >= a) == (lt | eq), m);
    vp_check((a > b) == !(lt | eq), m); vp_check((a >= b) == !lt, m);
  } else vp_check(false, m);
  if constexpr (requires { (a <=> b) < 0; }) { auto o = a <=> b; vp_check((o < 0) == lt, m); vp_check((o == 0) == eq, m); vp_check((o > 0) == !(lt | eq), m); }
}
static std::optional<std::string> name(const char* c, const char* n) { unsigned k = choose(c, 4); if (k == 0) return std::nullopt; return symstr(n, k - 1); }
extern "C" void vp_main() {
  SL::Index a1 = sym("a1"), b1 = sym("b1"); SL::Range a, b; a.first = a1; b.first = b1;
  if (vp_param("PART", 0) == 0) {
    ops(a1, b1, k(a1) < k(b1), k(a1) == k(b1), "positions are ordered by line, then column"); vp_check((a1 == b1) == (k(a1) == k(b1)), "positions are equal exactly when line and column are"); vp_check((a1 != b1) == (k(a1) != k(b1)), "positions differ exactly when line or column do");
  }
  a.last = sym("a2"); b.last = sym("b2");
  bool eq = (k(a.first) == k(b.first)) & (k(a.last) == k(b.last)), lt = (k(a.first) < k(b.first)) | ((k(a.first) == k(b.first)) & (k(a.last) < k(b.last)));
  if (vp_param("PART", 0) == 1) { ops(a, b, lt, eq, "ranges are ordered by first, then last position"); vp_check((a == b) == eq, "ranges are equal exactly when both positions are"); }
  if (vp_param("PART", 0) == 2) {
    SL x, y; x.file_name = name("ka", "fa"); y.file_name = name("kb", "fb"); x.range = a; y.range = b;
    bool fe = x.file_name.has_value() == y.file_name.has_value() && (!x.file_name || same(*x.file_name, *y.file_name));
    vp_check((x == y) == (fe & eq), "locations are equal exactly when file name and both positions are"); vp_check((x != y) == !(fe & eq), "locations differ exactly when file name or a position does");
    ops(x, y, lt, eq, "locations are ordered by their ranges");
    if (fe & eq) vp_reach("equal locations");
  }
  if (lt) vp_reach("less"); else vp_reach("not less");
}
