#include "h.h"
#include "libqasm/annotations.hpp"
using namespace cqasm::annotations; using SL = SourceLocation;
static bool le(const SL::Index& a, const SL::Index& b) { return a.line < b.line || (a.line == b.line && a.column <= b.column); }
static bool eqi(const SL::Index& a, const SL::Index& b) { return (a.line == b.line) & (a.column == b.column); }
static SL::Index mn(const SL::Index& a, const SL::Index& b) { return le(a, b) ? a : b; }
static SL::Index mx(const SL::Index& a, const SL::Index& b) { return le(a, b) ? b : a; }
static SL::Index sym(const char* n) { std::string l = std::string(n) + ".line", c = std::string(n) + ".column"; SL::Index i; i.line = sym32(l.c_str()); i.column = sym32(c.c_str()); return i; }
extern "C" void vp_main() {
  SL::Index f = sym("first"), l = sym("last"), p = sym("p"), q = sym("q");
  SL::Range r(f, l);
  vp_check(eqi(r.first, f), "the first position is kept");
  vp_check(le(r.first, r.last), "the range is not inverted");
  vp_check(eqi(r.last, mx(f, l)), "the last position is the later of the two given ones");
  std::optional<std::string> fn; if (symb("named")) fn = symstr("name", 2);
  SL a(fn, r); vp_check(eqi(a.range.first, r.first) & eqi(a.range.last, r.last), "constructing a location keeps its range");
  vp_check(a.file_name.has_value() == fn.has_value() && (!fn || same(*a.file_name, *fn)), "constructing a location keeps a non-empty file name");
  SL e1 = a; e1.expand_to_include(p);
  vp_check(eqi(e1.range.first, mn(r.first, p)) & eqi(e1.range.last, mx(r.last, p)), "expansion gives the least range covering the old range and the position");
  SL e2 = e1; e2.expand_to_include(p); vp_check(eqi(e2.range.first, e1.range.first) & eqi(e2.range.last, e1.range.last), "expansion is idempotent");
  SL pq = e1, qp = a; pq.expand_to_include(q); qp.expand_to_include(q); qp.expand_to_include(p);
  vp_check(eqi(pq.range.first, qp.range.first) & eqi(pq.range.last, qp.range.last), "expansion does not depend on order");
  vp_check(pq.file_name == a.file_name, "expansion keeps the file name");
  vp_observe("fl", pq.range.first.line); vp_observe("fc", pq.range.first.column); vp_observe("ll", pq.range.last.line); vp_observe("lc", pq.range.last.column);
  if (le(f, l)) vp_reach("ordered"); else vp_reach("inverted arguments");
}
