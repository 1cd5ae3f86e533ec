// Text of errors and the first-location rule.
#include "loc.h"
#include <sstream>
#include "libqasm/error.hpp"
using cqasm::error::Error; using cqasm::tree::Annotatable;
static const char* NOMSG = "<unknown error message>";
static std::string text(const std::string& msg, const SL* l) { return "Error" + (l ? " at " + loc_text(*l) : std::string()) + ": " + (msg.empty() ? std::string(NOMSG) : msg); }
static void expect(const Error& e, const std::string& msg, const SL* l, const char* m) {
  std::string w = text(msg, l);
  check_same(e.what(), w.c_str(), m);
}
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0), lim = vp_param("LIM", 3);
  if (mode == 0) {  // text: message bytes and location arbitrary
    std::string msg = teststr("m"); for (char c : msg) vp_assume(c != 0);
    unsigned how = choose("how", 4);
    if (how == 0) { vp_reach("no location"); expect(Error(msg), msg, nullptr, "an error without location prints only its message"); return; }
    SL l = sym_loc("x", lim, vp_param("NAME", 1)); if (l.file_name) for (char c : *l.file_name) vp_assume(c != 0);
    vp_reach("location");
    if (how == 1) { auto p = std::make_shared<SL>(l); Error e(msg, p); expect(e, msg, &l, "the text of an error is its location and message"); std::ostringstream o; o << e; check_same(o.str(), text(msg, &l), "printing an error prints its text"); }
    if (how == 2) { Error e(msg, l.file_name, l.range); expect(e, msg, &l, "the text of an error is its location and message"); expect(e, msg, &l, "asking again for the text gives the same text"); }
    if (how == 3) { Annotatable n; n.set_annotation<SL>(l); Error e(msg, &n); expect(e, msg, &l, "an error created at a node has the location of the node"); Error f(e); expect(f, msg, &l, "a copy of an error has the same text"); }
    return;
  }
  // histories: construction followed by context operations on nodes with or without a location
  std::optional<SL> first; std::string msg = "msg";
  auto loc = [&](const char* n) { SL l; if (vp_fork(symb("file"))) l.file_name = std::string(n); l.range.first.line = coord(n, 10); l.range.first.column = 1; l.range.last = l.range.first; return l; };
  unsigned how = choose("how", 5); std::optional<Error> e;
  Annotatable bare, n0; n0.set_annotation<SL>(loc("n0"));
  if (how == 0) e.emplace(msg); else if (how == 1) e.emplace(msg, &bare); else if (how == 2) { e.emplace(msg, &n0); first = n0.get_annotation<SL>(); }
  else if (how == 3) { first = loc("p"); e.emplace(msg, std::make_shared<SL>(*first)); } else e.emplace(msg, std::shared_ptr<SL>{});
  unsigned steps = vp_param("STEPS", 3);
  static const char* names[] = {"a", "b", "c", "d", "e", "f"};
  for (unsigned i = 0; i < steps; i++) {
    Annotatable n; unsigned k = choose("step", 4);
    if (k == 0) e->context(n);                                        // node without location
    else if (k == 3) { Error copy(*e); e.emplace(copy); }             // passing the error on
    else { SL l = loc(names[i]); n.set_annotation<SL>(l); e->context(n); if (!first) first = l; else vp_reach("later location");
      if (k == 2) { n.get_annotation<SL>().range.first.line = 77; n.get_annotation<SL>().range.last.line = 78; } }   // the node's location changes afterwards
    expect(*e, msg, first ? &*first : nullptr, "an error keeps its message and the first location attached to it");
  }
  if (first) vp_reach("attached"); else vp_reach("never attached");
}
