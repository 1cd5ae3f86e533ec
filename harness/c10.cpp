// Results hold either a tree or errors: conversions of parse and analysis results.
#include "json.h"
#include "loc.h"
#include <sstream>
#include "libqasm/error.hpp"
#include "libqasm/v3x/analysis_result.hpp"
#include "libqasm/v3x/parse_result.hpp"
using namespace cqasm::v3x; using cqasm::error::Error; namespace ct = cqasm::tree;
static std::string text(const std::string& msg, bool at, const SL& l) { return "Error" + (at ? " at " + loc_text(l) : std::string()) + ": " + (msg.empty() ? std::string("<unknown error message>") : msg); }
template <class R> static void strings(const R& r, const std::vector<std::string>& want, bool ok) {
  auto s = r.to_strings();
  if (ok) {
    vp_check(s.size() == 1, "without errors the only entry is the tree"); if (s.size() != 1) return;
    std::string w = ::tree::base::serialize(r.root); check_same(s[0], w, "the serialized tree is the tree of the result"); vp_check(!w.empty(), "the serialized tree is the tree of the result");
    J j; std::string t = r.to_json(); bool good = JsonReader(t).all(j); vp_check(good && j.kind == 'o' && !j.get("errors") && (j.get("Program") || j.k.size() > 0), "the JSON of an error-free result is that of the tree");
    std::ostringstream o; r.root->dump_json(o); check_same(t, o.str(), "the JSON of an error-free result is that of the tree");
    return;
  }
  vp_check(s.size() == want.size() + 1, "one entry per error after the empty first entry"); if (s.size() != want.size() + 1) return;
  vp_check(s[0].empty(), "with errors no tree is serialized");
  for (std::size_t i = 0; i < want.size(); i++) check_same(s[i + 1], want[i], "the entries are the texts of the errors in order");
}
template <class R> static void json(const R& r, const std::vector<std::string>& msgs, const std::vector<u32>& lines) {
  std::string t = r.to_json(); vp_observe("json", digest(t)); J j; bool ok = JsonReader(t).all(j); vp_check(ok && j.kind == 'o' && j.k.size() == 1, "the JSON of a failed result is an object with the errors"); if (!ok) return;
  const J* e = j.get("errors"); vp_check(e && e->kind == 'a' && e->a.size() == msgs.size(), "the errors array holds every error once"); if (!e || e->a.size() != msgs.size()) return;
  for (std::size_t i = 0; i < msgs.size(); i++) {
    const J* m = e->a[i].get("message"); vp_check(m && m->kind == 's', "every error's JSON is in the array"); if (m) check_same(m->s, msgs[i].empty() ? std::string("<unknown error message>") : msgs[i], "the errors array holds the errors in order");
    const J* l = e->a[i].get({"range", "start", "line"}); vp_check(l && l->kind == 'n', "every error's JSON is in the array"); if (l) check_same(l->s, dec(lines[i]), "the errors array holds the errors in order");
  }
}
extern "C" void vp_main() {
  unsigned n = vp_param("N", 1), len = vp_param("LEN", 1); bool tree = vp_param("TREE", 0);
  parser::ParseResult p; analyzer::AnalysisResult a; std::string name = symstr("name", 2); i64 v = (i64)sym64("value"); for (char c : name) vp_assume(is_alpha(c));
  if (tree || !n) {
    auto id = ct::make<syntactic::Identifier>(name); auto kw = ct::make<syntactic::Keyword>(std::string("bit")); auto ty = ct::make<syntactic::Type>(kw, ct::make<syntactic::IntegerLiteral>(v)); auto var = ct::make<syntactic::Variable>(id, ty);
    auto b = ct::make<syntactic::GlobalBlock>(); b->statements.add(var); p.root = ct::make<syntactic::Program>(ct::make<syntactic::Version>(primitives::Version("3.0")), b);
    auto sb = ct::make<semantic::Block>(); sb->statements.add(ct::make<semantic::AsmDeclaration>(name, std::string("code")));
    a.root = ct::make<semantic::Program>(primitives::Version("3.0"), ct::make<semantic::Version>(primitives::Version("3.0")), sb); auto ba = ct::make<types::BitArray>(v); a.root->variables.add(ct::make<semantic::Variable>(name, ba));
  }
  std::vector<std::string> want, msgs; std::vector<u32> lines;
  for (unsigned i = 0; i < n; i++) {
    unsigned k = i ? len : choose("mlen", len + 1); std::string m = symstr("m", k); for (char c : m) vp_assume(c != 0); bool at = vp_param("AT", 0) >> i & 1; SL l;
    if (at) { l.range.first.line = coord("line", 8); l.range.first.column = 0; l.range.last = l.range.first; Error e(m, std::make_shared<SL>(l)); p.errors.push_back(e); a.errors.push_back(e); }
    else { p.errors.emplace_back(m); a.errors.emplace_back(m); }
    want.push_back(text(m, at, l)); msgs.push_back(m); lines.push_back(at ? l.range.first.line : 0);
  }
  vp_reach(n == 0 ? "no errors" : tree ? "errors with partial tree" : "errors");
  bool parse = vp_param("PARSE", 0);
  if (parse) strings(p, want, n == 0); else strings(a, want, n == 0);
  if (n) { if (parse) json(p, msgs, lines); else json(a, msgs, lines); }
  if (parse) return;
  std::ostringstream out; std::string all; for (std::size_t i = 0; i < want.size(); i++) all += (i ? "\n" : "") + want[i];
  bool threw = false;
  try { auto r = a.unwrap(out); vp_check(r.get_ptr() == a.root.get_ptr(), "unwrapping an error-free result gives its tree"); } catch (const analyzer::AnalysisFailed&) { threw = true; }
  vp_check(threw == (n > 0), "unwrapping throws exactly when there are errors"); check_same(out.str(), all, "unwrapping prints all errors");
}
