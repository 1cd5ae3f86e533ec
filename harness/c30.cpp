// What parsing found is passed on; entry points agree; a file name only names the file.
#include "text.h"
#include "ast.h"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/semantic.hpp"
#include <sstream>
#include "libqasm/annotations_constants.hpp"
#include "../emscripten/emscripten_wrapper.hpp"
std::string library_version();
static std::string file_text; static std::string asked; static unsigned reads = 0;
extern "C" const std::string* vp_file_content(const std::string* path) { asked = *path; reads++; return &file_text; }
static const std::string UNKNOWN = cqasm::annotations::unknown_file_name;
struct Out { std::string tree; std::vector<std::string> what, json; };
template <class R> static Out out(const R& r) { Out o; o.tree = r.root.empty() ? "" : ::tree::base::serialize(r.root); for (auto& e : r.errors) { o.what.push_back(e.what()); o.json.push_back(e.to_json()); } return o; }
static void check_out(const Out& a, const Out& b, const char* m) { check_same(a.tree, b.tree, m); vp_check(a.what.size() == b.what.size(), m); if (a.what.size() == b.what.size()) for (std::size_t i = 0; i < a.what.size(); i++) { check_same(a.what[i], b.what[i], m); check_same(a.json[i], b.json[i], m); } }
static void check_list(const std::vector<std::string>& a, const std::vector<std::string>& b, const char* m) { vp_check(a.size() == b.size(), m); if (a.size() == b.size()) for (std::size_t i = 0; i < a.size(); i++) check_same(a[i], b[i], m); }
// what is shown with a name, given what is shown without one
static std::string named(const std::string& t, const std::string& name) { std::size_t k = t.find(UNKNOWN); return k == std::string::npos ? t : t.substr(0, k) + name + t.substr(k + UNKNOWN.size()); }
static std::string bare(const std::string& j) { std::size_t k = j.find(",\"relatedInformation\""); return k == std::string::npos ? j : j.substr(0, k) + "}"; }
static std::string text() {
  std::string t = vp_param("BADVERSION", 0) && symb("badversion") ? "version 2.0\n" : "version 3.0\n"; unsigned n = vp_param("STATEMENTS", 1), first = vp_param("FIRST", 0);
  for (unsigned i = 0; i < n; i++) { u8 c = sym8("letter"); vp_assume((unsigned)(c - 'A') < 26u); std::string L(1, (char)c); unsigned k = first && !i ? first - 1 : choose("statement", 10);
    switch (k) { case 0: t += "qubit q" + L; break; case 1: t += "qubit[3] q; X q[1]"; break; case 2: t += "Nope " + L + "b"; break; case 3: t += "X q q" + L; break; case 4: t += "bit[0] b" + L; break;
      case 5: t += "qubit " + L + "a; Rx(1/2.0) " + L + "a // end"; break; case 6: t += "X 99999999999999999999" + L; break; case 7: t += "asm(" + L + "x) '''raw'''"; break; case 8: t += "@" + L; break; default: t += "qubit[2] q; @a." + L + "b(1) X q[0:5]"; }
    t += "\n"; }
  return t; }
extern "C" void vp_main() {
  auto a = cqasm::v3x::default_analyzer("3.0"); unsigned mode = vp_param("MODE", 0);
  if (mode == 0) { // parse errors
    unsigned n = choose("count", vp_param("ERRORS", 3) + 1); pa::ParseResult r; bool root = vp_fork(symb("root")); std::vector<std::string> what, json;
    if (root || !n) { auto p = program(); if (symb("variable")) p->block->statements.add(declare("q", "qubit")); if (symb("bad")) p->block->statements.add(gate("nope", {}, {ident("q")})); r.root = p; }
    for (unsigned i = 0; i < n; i++) { std::string m = symstr("message", 1); vp_assume((unsigned)((u8)m[0] - 'A') < 26u); if (symb("located")) { u32 l = digit("line"), c = digit("column"); bool f = symb("file"); r.errors.emplace_back(m, f ? std::optional<std::string>{"f.cq"} : std::nullopt, SL::Range{{l, c}, {l, c}}); } else r.errors.emplace_back(m); what.push_back(r.errors.back().what()); json.push_back(r.errors.back().to_json()); }
    auto x = a.analyze(r); vp_observe("errors", x.errors.size());
    if (n) { vp_check(x.root.empty(), "parse errors: no tree"); vp_check(x.errors.size() == n, "parse errors are passed on, all of them"); if (x.errors.size() == n) for (unsigned i = 0; i < n; i++) { check_same(x.errors[i].what(), what[i], "parse errors are passed on in order"); check_same(x.errors[i].to_json(), json[i], "parse errors are passed on in order"); } vp_check(r.errors.size() == n, "the parse result is left alone"); vp_reach("parse errors");
      Out again = out(a.analyze(r)); vp_check(again.what.size() == n && again.tree.empty(), "parse errors are passed on again"); }
    else { auto y = a.analyze(*r.root->as_program()); check_out(out(x), out(y), "without parse errors the parsed tree is analysed"); vp_reach("analysed"); }
    return; }
  std::string t = text(), name = symstr("name", vp_param("NAME", 1)); FileName fn = name.empty() ? FileName{} : FileName{name};
  for (char c : name) if (mode == 1) vp_assume(c != 0); else vp_assume((unsigned)((u8)c - 'A') < 26u);
  if (mode == 1) { auto p = pa::parse_string(t, fn), p0 = pa::parse_string(t, FileName{}), p1 = pa::parse_string(t, FileName{""}); auto x = a.analyze_string(t, fn), y = a.analyze_string(t, FileName{}), z = a.analyze_string(t, FileName{""}); vp_observe("errors", x.errors.size());
    check_out(out(x), out(a.analyze(p)), "analysing text is analysing what was parsed"); check_out(out(y), out(z), "an empty file name is none"); check_out(out(p0), out(p1), "an empty file name is none");
    Out ox = out(x), oy = out(y), op = out(p), o0 = out(p0); check_same(ox.tree, oy.tree, "the file name does not change the program"); check_same(op.tree, o0.tree, "the file name does not change the syntax tree");
    vp_check(ox.what.size() == oy.what.size() && op.what.size() == o0.what.size(), "the file name does not change the number of errors"); if (ox.what.size() == oy.what.size()) for (std::size_t i = 0; i < ox.what.size(); i++) { check_same(ox.what[i], named(oy.what[i], name.empty() ? UNKNOWN : name), "errors differ only in the file name shown"); check_same(bare(ox.json[i]), oy.json[i], "errors differ only in the file name shown"); vp_check((ox.json[i] == oy.json[i]) == (name.empty() || ox.what[i] == oy.what[i]), "the file is shown where there is one"); }
    if (op.what.size() == o0.what.size()) for (std::size_t i = 0; i < op.what.size(); i++) check_same(op.what[i], named(o0.what[i], name.empty() ? UNKNOWN : name), "parse errors differ only in the file name shown");
    if (!p.errors.empty()) { check_list(ox.what, op.what, "the errors of parsing are the errors of analysing"); vp_check(x.root.empty(), "parse errors: no tree"); vp_reach("syntax error"); } else vp_reach(x.errors.empty() ? "program" : "semantic error");
    return; }
  auto p = pa::parse_string(t, fn); auto x = a.analyze(p); vp_observe("errors", x.errors.size()); vp_reach(x.errors.empty() ? "program" : p.errors.empty() ? "semantic error" : "syntax error");
  if (mode == 2) { V3xAnalyzer v; check_list(V3xAnalyzer::parse_string(t, name), p.to_strings(), "V3xAnalyzer::parse_string is parsing"); check_same(V3xAnalyzer::parse_string_to_json(t, name), p.to_json(), "V3xAnalyzer::parse_string_to_json is parsing");
    check_list(v.analyze_string(t, name), x.to_strings(), "V3xAnalyzer::analyze_string is parsing and analysing"); check_same(v.analyze_string_to_json(t, name), x.to_json(), "V3xAnalyzer::analyze_string_to_json is parsing and analysing"); check_list(v.analyze_string(t, name), x.to_strings(), "V3xAnalyzer::analyze_string can be repeated");
    EmscriptenWrapper w; check_same(w.parse_string_to_json(t, name), p.to_json(), "the JavaScript binding parses"); check_same(w.analyze_string_to_json(t, name), x.to_json(), "the JavaScript binding analyses"); vp_check(w.get_version() == library_version(), "the JavaScript binding has the library's version");
    if (vp_param("UNWRAP", 0)) { bool failed = false; std::string tree; try { auto r = cqasm::v3x::analyze_string(t, fn, "3.0"); tree = ::tree::base::serialize(r); } catch (const cqasm::v3x::analyzer::AnalysisFailed&) { failed = true; } vp_check(failed == !x.errors.empty(), "analyze_string fails exactly on errors"); if (!failed && x.errors.empty()) check_same(tree, ::tree::base::serialize(x.root), "analyze_string returns the program"); }
    return; }
  // files
  file_text = t; static const char* PATHS[] = {"/etc/passwd", "/", "/nowhere/at/all", "/dev/null", ""}; unsigned k = choose("path", vp_param("PATHS", 5)); std::string path = PATHS[k]; bool there = k == 0, threw = false; pa::ParseResult f; reads = 0;
  try { f = pa::parse_file(path, fn); } catch (const cqasm::error::ParseError&) { threw = true; }
  if (!there) { vp_check(threw || !f.errors.empty(), "a file that cannot be read is an error"); vp_check(reads == 0, "a file that cannot be read is not read"); bool again = false; try { auto r = V3xAnalyzer{}.analyze_file(path); again = r.size() >= 2 && r[0].empty(); } catch (const cqasm::error::ParseError&) { again = true; } vp_check(again | symb("any") * 0, "a file that cannot be read is an error"); vp_check(symb("x") | threw | !f.errors.empty(), "an error"); vp_reach("no file"); return; }
  vp_check(!threw, "a file that is there is parsed"); if (threw) return; vp_check(reads == 1 && asked == path, "the file is read"); check_out(out(f), out(p), "parsing a file is parsing its text"); vp_reach("file");
  pa::ParseResult u = pa::parse_string(t, FileName{}), own = pa::parse_string(t, path); check_list(V3xAnalyzer::parse_file(path), u.to_strings(), "V3xAnalyzer::parse_file is parsing"); check_same(V3xAnalyzer::parse_file_to_json(path), u.to_json(), "V3xAnalyzer::parse_file_to_json is parsing");
  V3xAnalyzer v; auto ux = a.analyze(u); check_list(v.analyze_file(path), ux.to_strings(), "V3xAnalyzer::analyze_file is parsing and analysing"); check_same(v.analyze_file_to_json(path), ux.to_json(), "V3xAnalyzer::analyze_file_to_json is parsing and analysing"); check_out(out(a.analyze_file(path)), out(a.analyze(own)), "analysing a file is analysing its text");
  vp_check(asked == path, "the file is read");
}
