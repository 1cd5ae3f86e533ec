#include "h.h"
#include "libqasm/string_builder.hpp"
extern "C" void vp_main() {
  cqasm::syntactic::StringBuilder b; std::string want; unsigned ops = vp_param("OPS", 2), maxlen = vp_param("LEN", 2);
  for (unsigned i = 0; i < ops; i++) {
    bool esc = symb("escape"); unsigned n = choose("length", (esc ? vp_param("ELEN", 2) : maxlen) + 1); std::string s = symstr(esc ? "e" : "s", n);
    if (!vp_fork(esc)) { b.push_string(s); want += s; vp_reach("fragment"); continue; }
    b.push_escape(s);
    if (n == 2 && s[0] == '\\' && (s[1] == 't' || s[1] == 'n' || s[1] == 'r' || s[1] == '\'' || s[1] == '"' || s[1] == '\\')) { vp_reach("known escape"); want += s[1] == 't' ? '\t' : s[1] == 'n' ? '\n' : s[1] == 'r' ? '\r' : s[1]; }
    else { vp_reach("other escape"); want += s; }
  }
  std::string got = b.stream.str();
  check_same(got, want, "the built text is the concatenation of the fragments and decoded escapes");
  vp_observe("digest", digest(got));
}
