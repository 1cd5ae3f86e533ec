// Variable declarations: a sequence of them, then references to every name.
#define NOPARSE
#include "instr.h"
enum { NAMESYM = 0, NAMETAB = 1 };
struct Decl { std::string name; unsigned type; bool sized; i64 size; u32 line; bool ok = false; };
extern "C" void vp_main() {
  unsigned n = vp_param("DECLS", 2), names = vp_param("NAMES", NAMETAB), len = vp_param("LEN", 1), types_ = vp_param("TYPES", 3), sizes = vp_param("SIZES", 2), refs = vp_param("REFS", 1), before = vp_param("BEFORE", 0);
  static const char* TAB[] = {"a", "b", "A", "pi", "true", "X", "sin", "qubit"}; unsigned ntab = vp_param("TAB", 8); static const char* TY[] = {"qubit", "bit", "qbit", "Qubit", "bits", "int"};
  auto p = program(); auto& st = p->block->statements; std::vector<Decl> ds; static const char* PRE[] = {"true", "false", "pi", "eu", "tau"};
  std::vector<u32> errlines; std::vector<std::size_t> good; u32 prev = 0;
  auto lookup = [&](const std::string& nm, std::size_t upto) -> int { for (auto x : PRE) if (vp_fork(same(nm, x))) return -2; for (std::size_t k = 0; k < upto; k++) if (ds[k].ok && vp_fork(same(nm, ds[k].name))) return (int)k; return -1; };
  auto asmref = [&](std::initializer_list<Ex> es, u32 line) { auto a = ct::make<sy::AsmDeclaration>(ident("be"), std::string("code")); auto d = ct::make<sy::AnnotationData>(ident("i"), ident("o"), exlist(es)); at(*d, line, 30, 40); a->annotations.add(d); st.add(a); };
  for (unsigned i = 0; i < n; i++) {
    Decl d; if (names == NAMESYM) { d.name = symstr("name", len); for (char& c : d.name) vp_assume(is_alpha((u8)c) | (c == '_')); } else d.name = TAB[choose("name", ntab)];
    d.type = choose("type", types_); d.sized = sizes == 2 ? symb("sized") : sizes != 0; d.size = d.sized ? (i64)sym64("size") : 1; d.line = digit("line");
    if (before && i == 0) { u32 l = digit("line"); int k = lookup(d.name, 0); asmref({ident(d.name)}, l); if (k == -1) errlines.push_back(l + 100); }   // used before it is declared
    auto v = d.sized ? declare(d.name, TY[d.type], d.size) : declare(d.name, TY[d.type]); at(*v, d.line, 1, 20); at(*v->name, d.line, 12, 12 + (u32)d.name.size()); st.add(v);
    bool ok = d.type < 2 && (!d.sized || vp_fork(d.size > 0)); if (ok) ok = lookup(d.name, i) == -1;
    d.ok = ok; ds.push_back(d); if (ok) good.push_back(i); else errlines.push_back(d.line);
  }
  std::vector<int> want;
  if (refs) for (unsigned i = 0; i < n; i++) { u32 l = digit("line"); int k = lookup(ds[i].name, n); want.push_back(k); asmref({ident(ds[i].name)}, l); if (k == -1) errlines.push_back(l + 100); }
  Result r = analyse(p); vp_observe("errors", r.errors.size()); vp_observe("variables", r.root.empty() ? 99 : r.root->variables.size());
  vp_check(r.errors.size() == errlines.size(), "one error for each non-positive size, unknown type, name in use or reference to an undeclared name");
  if (r.errors.size() == errlines.size()) for (std::size_t i = 0; i < errlines.size(); i++) { SL w = errlines[i] > 100 ? place(errlines[i] - 100, 30, 40) : place(errlines[i], 1, 20); check_at(r.errors[i], &w, "the error is located at the declaration or the use"); }
  vp_check(!r.root.empty(), "there is a tree"); if (r.root.empty()) return;
  vp_check(r.root->variables.size() == good.size(), "accepted variables, and only these, are in the tree"); if (r.root->variables.size() != good.size()) return;
  if (good.size() < n) vp_reach("rejected"); if (good.size() == n) vp_reach("all accepted");
  for (std::size_t k = 0; k < good.size(); k++) {
    Decl& d = ds[good[k]]; auto& v = *r.root->variables[k]; check_same(v.name, d.name, "variables are recorded in order with their names"); vp_check(!v.typ.empty(), "a variable has a type"); if (v.typ.empty()) continue;
    auto q = v.typ->as_qubit(); auto b = v.typ->as_bit(); auto qa = v.typ->as_qubit_array(); auto ba = v.typ->as_bit_array();
    vp_check((q != nullptr) == (d.type == 0 && !d.sized) && (b != nullptr) == (d.type == 1 && !d.sized) && (qa != nullptr) == (d.type == 0 && d.sized) && (ba != nullptr) == (d.type == 1 && d.sized), "a variable has the declared type");
    i64 sz = q ? q->size : b ? b->size : qa ? qa->size : ba ? ba->size : 0; vp_check(sz == d.size, "a variable has the declared size, a scalar size one"); if (d.sized) vp_reach("array");
    auto sl = v.get_annotation_ptr<SL>(); vp_check(sl != nullptr, "a variable is located at its name"); if (sl) vp_check((sl->range.first.line == d.line) & (sl->range.first.column == 12) & (sl->range.last.line == d.line) & (sl->range.last.column == 12 + d.name.size()), "a variable is located at its name");
  }
  if (!refs) return;
  auto& ss = r.root->block->statements; unsigned off = before ? 1 : 0; vp_check(ss.size() == n + off, "the other statements are in the tree"); if (ss.size() != n + off) return;
  for (unsigned i = 0; i < n; i++) {
    auto& an = ss[i + off]->annotations; vp_check(an.size() == 1, "the annotation is recorded"); if (an.size() != 1) continue; vp_check(an[0]->operands.size() == (want[i] == -1 ? 0u : 1u), "the reference is recorded"); if (an[0]->operands.size() != 1) continue;
    auto v = std::dynamic_pointer_cast<values::ValueBase>(an[0]->operands[0].get_ptr()); vp_check(v != nullptr, "the operand is a value"); if (!v) continue;
    if (want[i] == -2) { vp_reach("predefined"); vp_check(v->as_const_bool() || v->as_const_float(), "a predefined name keeps its meaning"); continue; }
    auto ref = v->as_variable_ref(); vp_check(ref != nullptr, "a reference is a variable reference"); if (!ref) continue; std::size_t pos = 0; while (good[pos] != (std::size_t)want[i]) pos++;
    vp_check(ref->variable.get_ptr() == r.root->variables[pos].get_ptr(), "a reference denotes the declared variable"); vp_reach("reference");
  }
}
