// Programs of statements that are each good or bad: errors, their order and places, and what is kept.
#define NOPARSE
#include "instr.h"
enum { GGATE, GDECL, GMEASURE, GASM, GANN, GMOD, BUNKNOWN, BINDEX, BREDECL, BOPERAND, BPARAM, BFOLD, BANN, BANN2, BMEASURE, BSIZE, BMODIFIER, BDECLANN, BFUNC, BTYPE, NST };
extern "C" void vp_main() {
  unsigned n = vp_param("STATEMENTS", 3), nst = vp_param("KINDS", NST), first = vp_param("FIRST", 0), located = vp_param("LOCATED", 1); u64 mask = vp_param("MASK", ~0ull >> 1);
  auto p = program(); declare_all(p); auto& st = p->block->statements; static const char* V[] = {"v0", "v1", "v2", "v3", "v4", "v5"};
  struct W { u32 line, c0, c1; }; std::vector<W> errs, kept; std::vector<unsigned> keptkind; std::vector<std::string> vars; std::vector<u32> varlines; bool badversion = vp_param("VERSION", 0) && symb("version"); u32 vline = 0;
  if (badversion) { p->version->items.clear(); p->version->items.push_back(3); p->version->items.push_back((i64)vp_sym("minor", 8)); vp_assume(p->version->items[1] != 0); vline = digit("vline"); at(*p->version, vline, 1, 9); errs.push_back({vline, 1, 9}); }
  auto ann = [&](std::initializer_list<Ex> es, u32 line) { auto d = ct::make<sy::AnnotationData>(ident("i"), ident("o"), exlist(es)); at(*d, line, 50, 60); return d; };
  for (unsigned i = 0; i < n; i++) {
    unsigned k = (i == 0 && first) ? first - 1 : choose("statement", nst); vp_assume((i == 0 && first) | (mask >> k & 1)); u32 line = digit("line"); W w{line, 1, 20}; bool good = k <= GMOD; ct::One<sy::Statement> s;
    i64 bad = (i64)vp_sym("badindex", 4) - 8; vp_assume((bad < 0) | (bad >= 3));   // outside an array of 3
    switch (k) {
      case GGATE: s = gate("X", {}, {ident("q")}); break;
      case GDECL: { auto v = declare(V[i], "qubit"); at(*v->name, line, 7, 9); s = v; vars.push_back(V[i]); varlines.push_back(line); break; }
      case GMEASURE: s = ct::make<sy::NonGateInstruction>(ct::make<sy::Keyword>(std::string("measure")), exlist({ident("b"), ident("q")}), exlist()); break;
      case GASM: s = ct::make<sy::AsmDeclaration>(ident("be"), std::string("code")); break;
      case GANN: s = gate("X", {}, {ident("q")}); s->annotations.add(ann({lit((i64)1), ident("pi")}, line)); break;
      case GMOD: { auto g = ct::make<sy::Gate>(ident("Rx"), ct::Maybe<sy::Gate>{}, exlist({lit((i64)1)})); auto m = ct::make<sy::Gate>(ident("inv"), ct::Maybe<sy::Gate>{g.get_ptr()}, exlist()); g->annotations.add(ann({lit((i64)7)}, line)); s = ct::make<sy::GateInstruction>(m, exlist({ident("q")})); break; }
      case BUNKNOWN: s = gate("nope", {}, {ident("q")}); break;
      case BINDEX: { auto x = index_of("qs", {bad}); at(*x, line, 5, 8); w.c0 = 5; w.c1 = 8; s = gate("X", {}, {x}); break; }
      case BREDECL: s = declare("qs", "qubit"); break;
      case BOPERAND: { auto x = ident("undeclared"); at(*x, line, 3, 13); w.c0 = 3; w.c1 = 13; s = gate("X", {}, {x}); break; }
      case BPARAM: { auto x = gate("Rx", {lit((i64)1), lit((i64)2)}, {ident("q")}); s = x; break; }
      case BFOLD: { Ex x = ct::make<sy::DivisionExpression>(lit((i64)1), lit((i64)0)); at(*x, line, 4, 7); w.c0 = 4; w.c1 = 7; s = gate("Rx", {x}, {ident("q")}); break; }
      case BANN: s = gate("X", {}, {ident("q")}); s->annotations.add(ann({ident("undeclared")}, line)); w = {line, 50, 60}; break;
      case BANN2: s = gate("X", {}, {ident("q")}); s->annotations.add(ann({ident("undeclared"), lit((i64)1), ident("undeclared")}, line)); w = {line, 50, 60}; errs.push_back(w); break;
      case BMEASURE: s = ct::make<sy::NonGateInstruction>(ct::make<sy::Keyword>(std::string("measure")), exlist({ident("b"), ident("qs")}), exlist()); break;
      case BSIZE: s = gate("CNOT", {}, {ident("q"), ident("qs")}); break;
      case BMODIFIER: s = ct::make<sy::GateInstruction>(ct::make<sy::Gate>(ident("inv"), ct::Maybe<sy::Gate>{ct::make<sy::Gate>(ident("CNOT"), ct::Maybe<sy::Gate>{}, exlist()).get_ptr()}, exlist()), exlist({ident("q"), ident("r")})); break;
      case BDECLANN: { auto v = declare(V[i], "bit"); at(*v->name, line, 7, 9); s = v; s->annotations.add(ann({ident("undeclared")}, line)); w = {line, 50, 60}; vars.push_back(V[i]); varlines.push_back(line); break; }
      case BFUNC: { Ex x = call("nofunction", {lit((i64)1)}); at(*x, line, 4, 7); w.c0 = 4; w.c1 = 7; s = gate("Rx", {x}, {ident("q")}); break; }
      default: s = declare(V[i], "qbit"); }
    if (located) at(*s, line, 1, 20); st.add(s);
    if (!good) errs.push_back(w);
    if (k == GGATE || k == GMEASURE || k == GASM || k == GANN || k == GMOD || k == BANN || k == BANN2) { kept.push_back({line, 1, 20}); keptkind.push_back(k); }
  }
  Result r = analyse(p); vp_observe("errors", r.errors.size()); if (errs.empty()) vp_reach("no error"); else if (errs.size() == 1) vp_reach("one error"); else vp_reach("several errors");
  vp_check(r.errors.size() == errs.size(), "every erroneous statement is reported, and nothing else"); if (r.errors.size() == errs.size() && located) for (std::size_t i = 0; i < errs.size(); i++) { SL l = place(errs[i].line, errs[i].c0, errs[i].c1); check_at(r.errors[i], &l, "errors are in program order and located inside their statement"); }
  vp_check(!r.root.empty() && !r.root->block.empty(), "there is a tree"); if (r.root.empty() || r.root->block.empty()) return; if (errs.empty()) vp_check(r.root.is_well_formed(), "an error-free analysis gives a complete tree");
  vp_check(r.root->api_version == "3.0" && !r.root->version.empty(), "the tree has its versions");
  auto& ss = r.root->block->statements; vp_check(ss.size() == kept.size(), "good statements, and only these, are kept"); if (ss.size() != kept.size()) return;
  for (std::size_t i = 0; i < kept.size(); i++) {
    unsigned k = keptkind[i]; auto g = ss[i]->as_gate_instruction(); auto m = ss[i]->as_non_gate_instruction(); auto a = ss[i]->as_asm_declaration();
    vp_check((k == GMEASURE) == (m != nullptr) && (k == GASM) == (a != nullptr) && (k != GMEASURE && k != GASM) == (g != nullptr), "statements are kept in source order");
    if (g) vp_check(g->gate->name == (k == GMOD ? "inv" : "X"), "statements are kept in source order"); if (a) vp_check(a->backend_name == "be" && a->backend_code == "code", "assembly declarations keep their backend and code"); if (m) vp_check(m->name == "measure", "statements are kept in source order");
    if (k == GMOD && g) { auto& in = g->gate->gate; vp_check(!in.empty() && in->name == "Rx" && g->gate->annotations.empty() && in->annotations.size() == 1, "annotations of a gate stay on that gate"); }
    auto& an = ss[i]->annotations; vp_check(an.size() == (k == GANN || k == BANN || k == BANN2 ? 1u : 0u), "annotations are kept"); if (an.size() == 1) { vp_check(an[0]->interface == "i" && an[0]->operation == "o" && an[0]->operands.size() == (k == GANN ? 2u : k == BANN2 ? 1u : 0u), "annotations keep their interface, operation and good operands"); if (k == GANN) { auto al = an[0]->get_annotation_ptr<SL>(); vp_check(al && (al->range.first.line == kept[i].line) & (al->range.first.column == 50) & (al->range.last.column == 60), "annotations keep their location"); } }
    auto sl = ss[i]->get_annotation_ptr<SL>(); vp_check((sl != nullptr) == (located != 0), "statements keep their location"); if (sl && located) vp_check((sl->range.first.line == kept[i].line) & (sl->range.last.line == kept[i].line) & (sl->range.first.column == 1) & (sl->range.last.column == 20), "statements keep their location");
  }
  if (located && !kept.empty()) { u32 lo = kept[0].line, hi = lo; for (auto& w : kept) { lo = w.line < lo ? w.line : lo; hi = w.line > hi ? w.line : hi; } auto bl = r.root->block->get_annotation_ptr<SL>(); vp_check(bl != nullptr, "the block is located"); if (bl) vp_check((bl->range.first.line == lo) & (bl->range.last.line == hi) & (bl->range.first.column == 1) & (bl->range.last.column == 20), "the block spans its statements"); }
  vp_check(r.root->variables.size() == 6 + vars.size(), "good declarations, and only these, are kept"); if (r.root->variables.size() == 6 + vars.size()) for (std::size_t i = 0; i < vars.size(); i++) { auto& v = *r.root->variables[6 + i]; vp_check(v.name == vars[i], "declarations are kept in source order"); auto sl = v.get_annotation_ptr<SL>(); vp_check(sl && (sl->range.first.line == varlines[i]), "declarations keep their location"); }
}
