// Versions: parsing, printing, comparison.
#include "h.h"
#include <sstream>
#include "libqasm/version.hpp"
using cqasm::version::Version;
static bool space(u8 c) { return c == ' ' || (c >= 9 && c <= 13); }
static Version make(const char* n, unsigned size) { Version v; for (unsigned i = 0; i < size; i++) { u64 x = sym64(n); vp_assume(x >> 63 == 0); v.push_back((i64)x); } return v; }
static int want(const Version& a, const Version& b) {   // first differing component decides, missing ones are zero
  int r = 0;
  for (std::size_t i = std::max(a.size(), b.size()); i-- > 0;) { i64 x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; r = x < y ? -1 : x > y ? 1 : r; }
  return r;
}
static void parse() {
  std::string s;
  if (unsigned m = vp_param("DIGITS", 0)) {   // digits only, in given groups
    for (unsigned g = m; g; g /= 100) { if (!s.empty()) s += '.'; for (unsigned i = 0; i < g % 100; i++) { u8 c = (u8)vp_sym("d", 4); vp_assume(c < 10); s += (char)('0' + c); } }
  } else { s = teststr("s"); for (char c : s) vp_assume(c != 0); }
  if (vp_param("LONG", 0)) s = "3." + s;
  std::optional<Version> v;
  try { v.emplace(s); } catch (const std::invalid_argument&) {} catch (const std::out_of_range&) {}
  // reference reading
  std::vector<u64> comp; bool exact = true, reject = false; std::size_t i = 0;
  if (!s.empty()) for (;;) {
    std::size_t b = i; while (i < s.size() && s[i] != '.') i++;
    bool digits = i > b; for (std::size_t k = b; k < i; k++) digits &= is_digit((u8)s[k]);
    if (vp_fork(digits)) {
      u64 x = 0; for (std::size_t k = b; k < i; k++) { unsigned d = (unsigned)(u8)s[k] - '0'; x = x * 10 + d; } bool big = x > 0x7fffffff;   // at most 18 digits
      if (vp_fork(big)) reject = true; comp.push_back(x);
    } else {
      exact = false; std::size_t k = b; while (k < i && space((u8)s[k])) k++; bool neg = k < i && s[k] == '-'; if (k < i && (s[k] == '-' || s[k] == '+')) k++;
      if (k == i || !is_digit((u8)s[k])) reject = true;              // empty or not a number
      else if (neg) { bool nz = false; while (k < i && is_digit((u8)s[k])) nz |= s[k++] != '0'; if (nz) reject = true; }   // negative
    }
    if (i >= s.size()) break; i++;
  }
  if (reject) { vp_reach("rejected"); vp_check(!v.has_value(), "an empty, non-numeric, negative or too large component is rejected with an exception"); return; }
  if (!exact) return;
  vp_reach("parsed"); vp_check(v.has_value() && v->size() == comp.size(), "a dotted sequence of numbers parses to exactly its components"); if (!v || v->size() != comp.size()) return;
  for (std::size_t k = 0; k < comp.size(); k++) vp_check((*v)[k] == (i64)(int)comp[k], "a dotted sequence of numbers parses to exactly its components");
}
static void print() {
  unsigned n = vp_param("SIZE", 2); Version v; std::string w;
  for (unsigned i = 0; i < n; i++) { u64 x = sym64("x"); vp_assume(x < (vp_param("WIDE", 1) >> i & 1 ? 1ull << 63 : 12)); v.push_back((i64)x); w += (i ? "." : "") + dec(x); }
  std::ostringstream o; o << v; check_same(o.str(), w, "a version prints as its components joined by dots");
  vp_observe("digest", digest(o.str())); vp_reach("printed");
  bool small = true; for (auto c : v) small &= c < 1000;
  if (!n || !vp_fork(small)) return;
  Version back(o.str()); bool eq = back.size() == v.size(); for (std::size_t i = 0; eq && i < v.size(); i++) eq &= back[i] == v[i];
  vp_check(eq, "parsing a printed version gives it back"); vp_reach("read back");
}
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0);
  if (mode == 0) return parse();
  if (mode == 1) return print();
  Version a = make("a", choose("na", vp_param("SIZE", 3) + 1)), b = make("b", choose("nb", vp_param("SIZE", 3) + 1)); int w = want(a, b);
  vp_check((a == b) == (w == 0), "versions are equal exactly when all components agree, missing ones counting as zero"); vp_check((a != b) == (w != 0), "inequality is the negation of equality");
  vp_check((a < b) == (w < 0), "the first differing component decides the order"); vp_check((a > b) == (w > 0), "the first differing component decides the order");
  vp_check((a <= b) == (w <= 0), "the first differing component decides the order"); vp_check((a >= b) == (w >= 0), "the first differing component decides the order");
  if (w == 0) vp_reach("equal"); else if (w < 0) vp_reach("older"); else vp_reach("newer");
}
