// Analysing programs one after another with one analyser against analysing each with a fresh one.
#define NOPARSE
#include "instr.h"
enum { DQ, DQS, DB, GQ, GQS, MEAS, ASM_, ANN, UNDEF, BADSIZE, CALLC, BADGATE, AXIS, BADAXIS, RESET, WAIT, NK };
static ct::One<sy::Program> build(const char* tag, unsigned n, unsigned nk, bool version, bool pre) {
  auto p = program(); auto& st = p->block->statements; u32 line = 0; auto put = [&](ct::One<sy::Statement> s) { u32 l = digit("line"); at(*s, l, 1, 9); st.add(s); };
  if (version && symb("oldversion")) { p->version->items.clear(); p->version->items.push_back(2); }
  if (pre) { put(declare("q", "qubit")); put(declare("b", "bit")); }
  auto nongate = [&](const char* k, std::initializer_list<Ex> os, std::initializer_list<Ex> ps) { put(ct::make<sy::NonGateInstruction>(ct::make<sy::Keyword>(std::string(k)), exlist(os), exlist(ps))); };
  for (unsigned i = 0; i < n; i++) switch (choose(tag, nk)) {
    case DQ: put(declare("q", "qubit")); break; case DQS: { i64 s = (i64)vp_sym("size", 4); vp_assume(s > 0); put(declare("q", "qubit", s)); break; } case DB: put(declare("b", "bit")); break;
    case GQ: put(gate("X", {}, {ident("q")})); break; case GQS: { i64 k = (i64)vp_sym("index", 4); vp_assume(k < 10); put(gate("X", {}, {index_of("q", {k})})); break; }
    case MEAS: put(ct::make<sy::NonGateInstruction>(ct::make<sy::Keyword>(std::string("measure")), exlist({ident("b"), ident("q")}), exlist())); break;
    case ASM_: put(ct::make<sy::AsmDeclaration>(ident("be"), std::string("code"))); break;
    case ANN: { auto x = ident("pi"); at(*x, digit("pi"), 3, 4); auto g = gate("Rx", {x}, {ident("q")}); auto d = ct::make<sy::AnnotationData>(ident("i"), ident("o"), exlist({ident("b")})); g->annotations.add(d); put(g); break; }
    case UNDEF: put(gate("X", {}, {ident("b")})); break; case BADSIZE: put(declare("q", "qubit", -(i64)vp_sym("bad", 4))); break;
    case AXIS: nongate("measure", {ident("b"), ident("q")}, {lit(1.0), lit(0.0), lit(0.5)}); break; case BADAXIS: nongate("measure", {ident("b"), ident("q")}, {lit(1.0)}); break;
    case RESET: nongate("reset", {ident("q")}, {}); break; case WAIT: { i64 k = (i64)vp_sym("cycles", 4); nongate("wait", {ident("q")}, {lit(k)}); break; }
    case CALLC: { auto x = ident("c"); at(*x, digit("c.line"), 3, 3); put(gate("Rx", {x}, {ident("q")})); } break; default: put(gate("nope", {}, {ident("q")})); }
  return p; }
struct Out { std::string tree; std::vector<std::string> errs; };
static void where(std::string& t, ct::Annotatable& n) { auto l = n.get_annotation_ptr<SL>(); t.push_back(l ? 'L' : '-'); if (l) for (u32 x : {l->range.first.line, l->range.first.column, l->range.last.line, l->range.last.column}) for (int i = 0; i < 4; i++) t.push_back((char)(x >> 8 * i)); }
static std::string places(const Result& r) { std::string t; if (r.root.empty()) return t; for (auto& v : r.root->variables) where(t, *v); if (r.root->block.empty()) return t;
  for (auto& s : r.root->block->statements) { where(t, *s); if (auto g = s->as_gate_instruction()) { for (auto& x : g->gate->parameters) where(t, *x); for (auto& x : g->operands) where(t, *x); } else if (auto n = s->as_non_gate_instruction()) { for (auto& x : n->parameters) where(t, *x); for (auto& x : n->operands) where(t, *x); } }
  return t; }
static Out out(const Result& r) { Out o; o.tree = r.root.empty() ? "" : ::tree::base::serialize(r.root); o.tree += places(r); for (auto& e : r.errors) { o.errs.push_back(e.what()); o.errs.push_back(e.to_json()); } return o; }
static void check_out(const Out& a, const Out& b, const char* m) { vp_check(same(a.tree, b.tree), m); vp_check(a.errs.size() == b.errs.size(), m); if (a.errs.size() == b.errs.size()) for (std::size_t i = 0; i < a.errs.size(); i++) vp_check(same(a.errs[i], b.errs[i]), m); }
static std::string pack(const Out& o) { std::string t; auto put = [&](const std::string& s) { for (int i = 0; i < 4; i++) t.push_back((char)(s.size() >> 8 * i)); t += s; }; put(o.tree); for (auto& e : o.errs) put(e); return t; }
static Out unpack(unsigned k) { std::string t; t.resize(vp_isolated_size(k)); vp_isolated_read(k, t.data()); Out o; std::size_t at = 0; bool first = true; while (at + 4 <= t.size()) { std::size_t n = 0; for (int i = 0; i < 4; i++) n |= (std::size_t)(u8)t[at + i] << 8 * i; at += 4; std::string s = t.substr(at, n); at += n; if (first) o.tree = s; else o.errs.push_back(s); first = false; } return o; }
extern "C" void vp_main() {
  unsigned n1 = vp_param("N1", 1), n2 = vp_param("N2", 1), k1 = vp_param("K1", NK), k2 = vp_param("K2", NK), reg = vp_param("REG", 0), earlier = vp_param("EARLIER", 1); bool pre = vp_param("PRE", 0), ver = vp_param("VERSION", 0);
  i64 c = 0; if (reg) c = (i64)vp_sym("c", 4); auto p2 = build("second", n2, k2, ver, pre);
  if (vp_isolated_begin()) { // the program, analysed by a fresh analyser in a process of its own
    auto f = cqasm::v3x::default_analyzer("3.0"); if (reg) f.register_variable("c", ct::make<values::ConstInt>(c)); std::string t = pack(out(f.analyze(*p2))); vp_isolated_end(t.data(), t.size()); }
  Out x = unpack(0); std::string before = ::tree::base::serialize(p2);
  auto a = cqasm::v3x::default_analyzer("3.0"); if (reg == 1) a.register_variable("c", ct::make<values::ConstInt>(c));
  std::vector<Result> rs; std::vector<Out> os;
  for (unsigned i = 0; i < earlier; i++) { auto p1 = build("first", n1, k1, ver, pre); rs.push_back(a.analyze(*p1)); os.push_back(out(rs.back())); vp_reach(rs.back().errors.empty() ? "earlier good" : "earlier bad"); }
  if (reg == 2) a.register_variable("c", ct::make<values::ConstInt>(c));
  auto r = a.analyze(*p2); Out o = out(r); vp_observe("errors", r.errors.size());
  check_out(o, x, "the result does not depend on earlier analyses"); for (unsigned i = 0; i < earlier; i++) check_out(out(rs[i]), os[i], "a result is not changed by later analyses");
  check_out(out(a.analyze(*p2)), x, "analysing again gives the same result"); check_same(::tree::base::serialize(p2), before, "analysis leaves the syntax tree unchanged");
  if (vp_param("FRESH", 0)) { auto f = cqasm::v3x::default_analyzer("3.0"); if (reg) f.register_variable("c", ct::make<values::ConstInt>(c)); check_out(out(f.analyze(*p2)), x, "the result does not depend on what other analysers did"); }
  for (auto& v : r.root->variables) if (auto t = v->typ->as_qubit_array()) { vp_check((t->size > 0) & (t->size < 16), "recorded sizes are those of the program itself"); vp_reach("array"); }
  vp_reach(r.errors.empty() ? "good" : "bad"); if (reg && r.errors.empty()) vp_reach("registered");
}
