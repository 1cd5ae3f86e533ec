// Sizes of the operands of gates and measurements.
#define NOPARSE
#include "instr.h"
struct O { Ex e; u64 size; bool qubit; };
static O pick(const char* n, const u64* sz, unsigned maxidx, bool bitside) {
  unsigned k = choose(n, 4); const char* arr = bitside ? "bs" : n[1] == '0' ? "qs" : "rs"; u64 s = bitside ? sz[2] : n[1] == '0' ? sz[0] : sz[1];
  if (k == 0) return {ident(bitside ? "b" : n[1] == '0' ? "q" : "r"), 1, !bitside};
  if (k == 1) return {ident(arr), s, !bitside};
  if (k == 2) { unsigned m = 1 + choose("indices", maxidx); std::vector<i64> ix; for (unsigned i = 0; i < m; i++) { i64 x = (i64)vp_sym("index", 4); vp_assume(x < 4); ix.push_back(x); } return {index_of(arr, ix), m, !bitside}; }
  auto l = ct::make<sy::IndexList>(); unsigned m = 1 + choose("width", maxidx); i64 f = 3 - (i64)m + 1; if (f < 0) f = 0; m = (unsigned)(3 - f + 1); l->items.add(ct::make<sy::IndexRange>(lit(f), lit((i64)3))); bool more = symb("more"); if (more) { i64 x = (i64)vp_sym("further", 4); vp_assume(x < 4); l->items.add(ct::make<sy::IndexItem>(lit(x))); }
  return {ct::make<sy::Index>(ident(arr), l), m + (more ? 1u : 0u), !bitside};
}
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0), mi = vp_param("INDICES", 2); u64 sz[3]; static const char* N[] = {"qs", "rs", "bs"}; for (int i = 0; i < 3; i++) { sz[i] = sym64(N[i]); vp_assume((i64)sz[i] >= 4); }
  auto p = program(); declare_all(p, (i64)sz[0], (i64)sz[1], (i64)sz[2]); auto& st = p->block->statements;
  O a = pick(mode >= 2 ? "bits" : "o0", sz, mi, mode >= 2), b = pick("o1", sz, mi, false); bool ok = vp_fork(a.size == b.size);
  if (mode == 0) st.add(gate("CNOT", {}, {a.e, b.e}));
  else if (mode == 1) { auto g = ct::make<sy::Gate>(ident("ctrl"), ct::Maybe<sy::Gate>{ct::make<sy::Gate>(ident("X"), ct::Maybe<sy::Gate>{}, exlist()).get_ptr()}, exlist()); st.add(ct::make<sy::GateInstruction>(g, exlist({a.e, b.e}))); }
  else st.add(ct::make<sy::NonGateInstruction>(ct::make<sy::Keyword>("measure"), exlist({a.e, b.e}), mode == 3 ? exlist({lit(1.0), lit(0.0), lit(0.5)}) : exlist()));
  Result r = analyse(p); vp_observe("errors", r.errors.size()); vp_reach(ok ? (mode >= 2 ? "measured" : "gate") : "different sizes");
  bool acc = r.errors.empty(); vp_check(acc == ok, ok ? "operands of equal size are accepted" : "operands of different sizes are rejected"); vp_check(one_statement(r) == ok, "exactly accepted instructions are in the tree"); vp_check(r.errors.size() <= 1, "one error");
  vp_check(acc == (a.size == b.size), "in accepted instructions the sizes are equal");
}
