// Where the nodes of the semantic tree come from in the text.
#define NOPARSE
#include "instr.h"
// locations: index 0 is "none"
static std::vector<SL> locs(1); static bool withfile = false;
static unsigned mark(ct::Annotatable& n) { SL l; if (withfile) l.file_name = symstr("name", 1); l.range.first.line = sym32("l1"); l.range.first.column = sym32("c1"); l.range.last.line = sym32("l2"); l.range.last.column = sym32("c2"); n.set_annotation<SL>(l); locs.push_back(l); return (unsigned)locs.size() - 1; }
static void where(const ct::Annotatable& n, unsigned k, const char* m) { auto a = n.get_annotation_ptr<SL>(); vp_check((a != nullptr) == (k != 0), m); if (!a || !k) return; const SL& w = locs[k];
  vp_check((a->range.first.line == w.range.first.line) & (a->range.first.column == w.range.first.column) & (a->range.last.line == w.range.last.line) & (a->range.last.column == w.range.last.column), m); vp_check(a->file_name.has_value() == w.file_name.has_value(), m); if (a->file_name && w.file_name) vp_check(*a->file_name == *w.file_name, m); }
static ct::One<sy::Gate> gnode(const char* n, std::initializer_list<Ex> ps, ct::Maybe<sy::Gate> inner = {}) { return ct::make<sy::Gate>(ident(n), inner, exlist(ps)); }
static ct::Maybe<sy::Gate> inner(const ct::One<sy::Gate>& g) { return ct::Maybe<sy::Gate>{g.get_ptr()}; }
static ct::One<sy::AnnotationData> ann(std::initializer_list<Ex> es) { return ct::make<sy::AnnotationData>(ident("i"), ident("o"), exlist(es)); }
static Ex bin(Ex a, Ex b) { return ct::make<sy::AdditionExpression>(a, b); }
static const char *MS = "a statement is located where it is written", *MV = "a variable is located at its name", *MG = "a gate is located where it is written", *MP = "a value is located at its expression", *MI = "an index is located at its item or range", *MA = "an annotation is located where it is written", *MB = "the block spans its statements", *MW = "the version is located where it is written";
extern "C" void vp_main() {
  unsigned part = vp_param("PART", 0); withfile = vp_param("FILE", 0); unsigned skip = choose("without", 3);   // some kinds of nodes may have no location
  auto some = [&](ct::Annotatable& n, unsigned kind) { return kind == skip ? 0u : mark(n); };
  auto p = program(); unsigned wv = some(*p->version, 1); auto& st = p->block->statements; declare_all(p); unsigned nv = 6; std::vector<unsigned> vl; for (unsigned i = 0; i < nv; i++) { auto v = st[i]->as_variable(); mark(*v); vl.push_back(some(*v->name, 2)); mark(*v->typ); }
  if (part == 0) { // gates: modifiers, parameters, operands
    Ex a = lit((i64)vp_sym("k", 8)), b = ident("q"), e = lit((i64)3); unsigned la = some(*a, 1), lb = some(*b, 2); auto g0 = gnode("Rx", {a}); unsigned lg0 = some(*g0, 1); auto g1 = gnode("pow", {e}, inner(g0)); unsigned le = mark(*e), lg1 = some(*g1, 2); auto g2 = gnode("inv", {}, inner(g1)); unsigned lg2 = mark(*g2);
    auto s = ct::make<sy::GateInstruction>(g2, exlist({b})); unsigned ls = some(*s, 2); mark(*s->operands); mark(*g0->name); st.add(s); auto r = analyse(p); vp_check(r.errors.empty() && one_statement(r), "the program is good"); if (!one_statement(r)) return;
    auto x = r.root->block->statements[0]->as_gate_instruction(); vp_check(x != nullptr, "the program is good"); if (!x) return; where(*x, ls, MS); where(*x->gate, lg2, MG); where(*x->gate->gate, lg1, MG); where(*x->gate->gate->gate, lg0, MG); where(*x->gate->gate->parameters[0], le, MP); where(*x->gate->gate->gate->parameters[0], la, MP); where(*x->operands[0], lb, MP); where(*r.root->block, ls, MB); where(*r.root->version, wv, MW); for (unsigned i = 0; i < nv; i++) where(*r.root->variables[i], vl[i], MV); vp_reach("gate"); return; }
  if (part == 1) { // measure: indices, parameters
    auto i0 = ct::make<sy::IndexItem>(lit((i64)2)); auto i1 = ct::make<sy::IndexRange>(lit((i64)0), lit((i64)1)); mark(*i0->index); mark(*i1->first); mark(*i1->last); unsigned l0 = some(*i0, 1), l1 = some(*i1, 2); auto il = ct::make<sy::IndexList>(); il->items.add(i0); il->items.add(i1); mark(*il); auto xb = ct::make<sy::Index>(ident("bs"), il); unsigned lb = some(*xb, 1); mark(*xb->expr); Ex q = ident("rs"); unsigned lq = some(*q, 2);
    Ex p0 = lit((i64)vp_sym("k", 8)), p1 = ident("pi"), p2 = bin(lit((i64)1), lit(2.5)); unsigned lp[3] = {some(*p0, 1), some(*p1, 2), mark(*p2)}; auto s = ct::make<sy::NonGateInstruction>(ct::make<sy::Keyword>(std::string("measure")), exlist({Ex(xb), q}), exlist({p0, p1, p2})); mark(*s->name); unsigned ls = some(*s, 2); st.add(s); auto r = analyse(p); vp_check(r.errors.empty() && one_statement(r), "the program is good"); if (!one_statement(r)) return;
    auto x = r.root->block->statements[0]->as_non_gate_instruction(); vp_check(x != nullptr && x->operands.size() == 2 && x->parameters.size() == 3, "the program is good"); if (!x) return; where(*x, ls, MS); where(*x->operands[0], lb, MP); where(*x->operands[1], lq, MP); for (unsigned i = 0; i < 3; i++) where(*x->parameters[i], lp[i], MP);
    auto ir = x->operands[0]->as_index_ref(); vp_check(ir && ir->indices.size() == 3, "the program is good"); if (!ir) return; where(*ir->indices[0], l0, MI); where(*ir->indices[1], l1, MI); where(*ir->indices[2], l1, MI); vp_reach("measure"); return; }
  if (part == 2) { // constants, variables and folded values written several times, and analysed again
    static const char* C[] = {"pi", "true", "eu", "tau", "false"}; const char* c = C[choose("constant", 5)]; Ex a[5] = {ident(c), ident(c), bin(ident(c), lit((i64)1)), call("sin", {ident(c)}), ct::make<sy::UnaryMinusExpression>(ident("pi"))}; unsigned l[5]; for (unsigned i = 0; i < 5; i++) l[i] = some(*a[i], i % 2 ? 1 : i == 2 ? 2 : 0); Ex o[2] = {ident("q"), ident("q")}; unsigned lo[2] = {mark(*o[0]), some(*o[1], 1)};
    mark(*a[2]->as_addition_expression()->lhs); mark(*a[2]->as_addition_expression()->rhs); mark(*a[3]->as_function_call()->arguments->items[0]); bool bo = c[0] == 't' ? c[1] == 'r' : c[0] == 'f'; Ex none = ident(bo ? "pi" : c);
    st.add(gate("U", {bo ? none : a[0], bo ? none : a[1], bo ? none : a[2]}, {o[0]})); st.add(gate("U", {bo ? none : a[3], a[4], lit((i64)1)}, {o[1]})); values::Value own = ct::make<values::ConstInt>((i64)5);  if (symb("own_located")) own->set_annotation<SL>(place(55, 5, 6)); auto an = default_analyzer("3.0"); an.register_variable("own", own); Ex o3 = ident("own"); unsigned l3 = mark(*o3); st.add(gate("Rx", {o3}, {ident("q")})); auto r1 = an.analyze(*p);
    auto see = [&](Result& r) { vp_check(r.errors.empty() && !r.root.empty() && r.root->block->statements.size() == 3, "the program is good"); if (r.root.empty() || r.root->block->statements.size() != 3) return; if (auto z = r.root->block->statements[2]->as_gate_instruction()) where(*z->gate->parameters[0], l3, MP); auto x = r.root->block->statements[0]->as_gate_instruction(); auto y = r.root->block->statements[1]->as_gate_instruction(); if (!x || !y) { vp_fail("the program is good"); return; } where(*x->operands[0], lo[0], MP); where(*y->operands[0], lo[1], MP); if (!bo) { for (unsigned i = 0; i < 3; i++) where(*x->gate->parameters[i], l[i], MP); where(*y->gate->parameters[0], l[3], MP); } where(*y->gate->parameters[1], l[4], MP); };
    see(r1); // another program, analysed by the same analyser
    auto p2 = program(); declare_all(p2); Ex b = ident(bo ? "pi" : c), b2 = ident("q"); SL n = place(77, 7, 8); b->set_annotation<SL>(n); b2->set_annotation<SL>(n); p2->block->statements.add(gate("Rx", {b}, {b2})); auto r2 = an.analyze(*p2); vp_check(r2.errors.empty(), "the program is good"); see(r1); auto r3 = an.analyze(*p); see(r3); see(r1); vp_reach("again"); return; }
  if (part == 3) { // the block spans its statements
    unsigned n = vp_param("STATEMENTS", 2); std::vector<unsigned> l; for (unsigned i = 0; i < n; i++) { ct::One<sy::Statement> s; unsigned k = choose("statement", 4); if (k == 0) s = gate("X", {}, {ident("q")}); else if (k == 1) s = ct::make<sy::NonGateInstruction>(ct::make<sy::Keyword>(std::string("reset")), exlist({ident("q")}), exlist()); else if (k == 2) s = ct::make<sy::AsmDeclaration>(ident("be"), std::string("code")); else { s = gate("nope", {}, {ident("q")}); mark(*s); st.add(s); continue; }
      bool has = i != skip; if (has) { unsigned m = mark(*s); SL& w = locs[m]; auto &f = w.range.first, &e = w.range.last; vp_assume((f.line < e.line) | ((f.line == e.line) & (f.column <= e.column))); l.push_back(m); } st.add(s); }
    auto r = analyse(p); vp_check(!r.root.empty(), "there is a tree"); if (r.root.empty()) return; auto a = r.root->block->get_annotation_ptr<SL>(); vp_check((a != nullptr) == !l.empty(), MB); if (!a || l.empty()) { vp_reach("no location"); return; }
    auto key = [](const SL::Index& x) { return (u64)x.line << 32 | x.column; }; u64 lo = key(locs[l[0]].range.first), hi = key(locs[l[0]].range.last); for (unsigned k : l) { u64 f = key(locs[k].range.first), e = key(locs[k].range.last); lo = f < lo ? f : lo; hi = e > hi ? e : hi; } vp_check(key(a->range.first) == lo, MB); vp_check(key(a->range.last) == hi, MB); vp_reach(l.size() == 1 ? "one" : "several"); return; }
  // annotations of every kind of annotated node
  unsigned k = choose("node", 6); ct::One<sy::Statement> s; auto g = gnode("X", {}); if (k >= 4) { auto m = gnode("inv", {}, inner(g)); s = ct::make<sy::GateInstruction>(m, exlist({ident("q")})); if (k == 5) g = m; } else if (k == 0 || k == 3) s = ct::make<sy::GateInstruction>(g, exlist({ident("q")})); else if (k == 1) s = ct::make<sy::AsmDeclaration>(ident("be"), std::string("code")); else s = ct::make<sy::Variable>(ident("w"), ct::make<sy::Type>(ct::make<sy::Keyword>(std::string("bit")), ct::Maybe<sy::IntegerLiteral>{}));
  auto a0 = ann({lit((i64)1)}), a1 = ann({ident("pi"), ident("pi")}); unsigned l0 = some(*a0, 1), l1 = some(*a1, 2), ls = mark(*s), ln = k == 2 ? some(*s->as_variable()->name, 1) : 0; auto& an = k >= 3 ? g->annotations : s->annotations; an.add(a0); an.add(a1); st.add(s); auto r = analyse(p); vp_check(r.errors.empty() && !r.root.empty(), "the program is good"); if (r.root.empty()) return;
  semantic::Annotated* x = k == 2 ? (r.root->variables.size() == nv + 1 ? static_cast<semantic::Annotated*>(&*r.root->variables[nv]) : nullptr) : one_statement(r) ? static_cast<semantic::Annotated*>(&*r.root->block->statements[0]) : nullptr; vp_check(x != nullptr, "the program is good"); if (!x) return; where(*x, k == 2 ? ln : ls, k == 2 ? MV : MS); if (k >= 3) { auto gi = r.root->block->statements[0]->as_gate_instruction(); if (!gi) return; vp_check(gi->annotations.empty(), MA); x = &*gi->gate; if (k >= 4) { if (gi->gate->gate.empty()) { vp_fail("the program is good"); return; } semantic::Annotated* o = &*gi->gate->gate; if (k == 4) std::swap(x, o); vp_check(o->annotations.empty(), MA); } }
  vp_check(x->annotations.size() == 2, "annotations are kept"); if (x->annotations.size() == 2) { where(*x->annotations[0], l0, MA); where(*x->annotations[1], l1, MA); } vp_reach("annotation"); }
