// Which versions are accepted.
#define NOPARSE
#include "ast.h"
static cqasm::version::Version ver(unsigned n, unsigned wide) { cqasm::version::Version v("0"); v.clear(); for (unsigned i = 0; i < n; i++) v.push_back(wide >> i & 1 ? (i64)sym64("n") : (i64)vp_sym("n", 4)); return v; }
static bool is30(const cqasm::version::Version& v) { u64 acc = 0; for (std::size_t i = 0; i < v.size(); i++) acc |= (u64)v[i] ^ (i == 0 ? 3 : 0); return v.size() > 0 && acc == 0; }
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0), n = vp_param("SIZE", 2);
  if (mode == 0) {
    auto v = ver(n, vp_param("WIDE", 0)); bool ok = is30(v), located = symb("located");
    auto p = ct::make<sy::Program>(ct::make<sy::Version>(v), ct::make<sy::GlobalBlock>()); p->block->statements.add(declare("q", "qubit")); p->block->statements.add(gate("X", {}, {ident("q")}));
    u32 line = digit("line"), col = digit("column"); vp_assume(col < 9); if (located) at(*p->version, line, col, col + 1);
    Result r = analyse(p); vp_observe("errors", r.errors.size()); bool acc = r.errors.empty();
    vp_check(ok == acc, "exactly the analyser's version is accepted");
    vp_check(!r.root.empty() && r.root->block->statements.size() == 1 && r.root->variables.size() == 1, "the analysis continues after a wrong version"); if (r.root.empty()) return;
    vp_check(!r.root->version.empty() && is30(r.root->version->items), "the tree carries the supported version"); vp_check(is30(r.root->api_version), "the tree carries the analyser's version");
    if (acc) { vp_reach("accepted"); vp_check(r.root->version->items.size() == v.size(), "an accepted version is recorded as written"); return; }
    vp_reach("rejected"); vp_check(r.errors.size() == 1, "a wrong version is one error");
    SL l = place(line, col, col + 1); if (r.errors.size() == 1) check_at(r.errors[0], located ? &l : nullptr, "the error is located at the version");
  } else if (mode == 1) { // constructing
    auto v = ver(n, vp_param("WIDE", 0)); bool ok = is30(v), made = false; for (auto x : v) vp_assume(x >= 0);
    try { analyzer::Analyzer a{v}; made = true; vp_reach("made"); vp_check(is30(a.api_version), "the analyser has the version asked for"); } catch (const std::invalid_argument&) { vp_reach("refused"); }
    vp_check(made == ok, "an analyser exists exactly for the supported version");
  } else { // default_analyzer by text
    std::string s = symstr("s", vp_param("LEN", 3)); bool ok = true; for (char& c : s) { vp_assume(is_digit((u8)c) | (c == '.')); }
    // digits around single dots; the first number is 3, the others 0
    std::size_t i = 0; bool first = true, good = !s.empty(); while (good) { u64 x = 0; std::size_t b = i; while (i < s.size() && vp_fork(s[i] != '.')) { x = x * 10 + (u64)(s[i] - '0'); i++; } if (i == b) good = false; ok = ok && vp_fork(x == (first ? 3u : 0u)); first = false; if (i == s.size()) break; i++; }
    bool made = false; try { auto a = cqasm::v3x::default_analyzer(s); made = true; vp_check(is30(a.api_version), "the analyser has the version asked for"); vp_reach("made by text"); } catch (const std::exception&) { vp_reach("refused by text"); }
    vp_check(made == (good && ok), "an analyser exists exactly for the supported version"); vp_check(symb("any") | (made == (good && ok)), "an analyser exists exactly for the supported version");
  }
}
