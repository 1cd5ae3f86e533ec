// Oracle for printed source locations.
#pragma once
#include "h.h"
#include "libqasm/annotations.hpp"
using SL = cqasm::annotations::SourceLocation;
inline std::string loc_text(const SL& x) {
  auto f = x.range.first, l = x.range.last;
  std::string w = x.file_name && !x.file_name->empty() ? *x.file_name : std::string("<unknown file name>");
  if (!f.line) return w;
  w += ":" + dec(f.line);
  if (!f.column) { if (l.line > f.line) w += ".." + dec(l.line); return w; }
  w += ":" + dec(f.column);
  if (l.line == f.line) { if (l.column > f.column) w += ".." + dec(l.column); }
  else if (l.line > f.line) w += ".." + dec(l.line) + ":" + dec(l.column);
  return w;
}
inline u32 coord(const char* n, u32 lim) { u32 v = sym32(n); if (lim) vp_assume(v < lim); return v; }
inline SL sym_loc(const char* n, u32 lim, unsigned maxname) {
  std::string b(n); SL x; unsigned k = choose((b + ".name").c_str(), maxname + 2); std::optional<std::string> fn; if (k) fn = symstr((b + ".file").c_str(), k - 1);
  SL::Index f, l; f.line = coord((b + ".l1").c_str(), lim); f.column = coord((b + ".c1").c_str(), lim); l.line = coord((b + ".l2").c_str(), lim); l.column = coord((b + ".c2").c_str(), lim);
  return SL(fn, SL::Range(f, l));
}
