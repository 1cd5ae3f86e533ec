#include "h.h"
#include <sstream>
#include "libqasm/annotations.hpp"
#include "libqasm/annotations_constants.hpp"
using namespace cqasm::annotations; using SL = SourceLocation;
static u32 num(const char* n, unsigned wide) { u32 v = sym32(n); vp_assume(wide || v < 12); return v; }
extern "C" void vp_main() {
  unsigned w = vp_param("WIDE", 0);  // bit i: number i ranges over all 32-bit values, otherwise over 0..11
  SL::Index f, l; f.line = num("first.line", w & 1); f.column = num("first.column", w & 2); l.line = num("last.line", w & 4); l.column = num("last.column", w & 8);
  unsigned fk = vp_param("FILE", 0); std::optional<std::string> fn; if (fk) fn = symstr("name", fk - 1);
  SL loc(fn, SL::Range(f, l));
  if (vp_param("RAW", 0)) { loc.range.first = f; loc.range.last = l; }
  bool later = l.line > f.line || (l.line == f.line && l.column > f.column);
  bool raw = vp_param("RAW", 0);
  SL::Index e = raw || later ? l : f;
  std::string want = fn && !fn->empty() ? *fn : std::string("<unknown file name>");
  if (f.line) {
    want += ":" + dec(f.line);
    if (!f.column) { if (e.line > f.line) want += ".." + dec(e.line), vp_reach("line range"); else vp_reach("line only"); }
    else { want += ":" + dec(f.column); if (e.line == f.line) { if (e.column > f.column) want += ".." + dec(e.column), vp_reach("column range"); else vp_reach("single position"); } else if (e.line > f.line) want += ".." + dec(e.line) + ":" + dec(e.column), vp_reach("multi line"); }
  } else vp_reach("file only");
  std::ostringstream os; os << loc; std::string got = os.str();
  check_same(got, want, "the printed location is exactly the file name and the known coordinates");
  vp_observe("digest", digest(got));
}
