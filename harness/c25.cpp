// Indices of index references.
#define NOPARSE
#include "instr.h"
enum { IDXINT, IDXBOOL, IDXFLOAT, IDXBIT, IDXUNDEF, IDXSUM, NIDX };
struct Item { Ex e; i64 v; int bad; };   // bad: not a constant integer
static Item item(const char* n, unsigned nk) {
  unsigned k = choose("index", nk);
  if (k == IDXINT) { i64 v = (i64)sym64(n); return {lit(v), v, 0}; }
  if (k == IDXBOOL) { bool v = symb(n); return {lit(v), v ? 1 : 0, 0}; }
  if (k == IDXFLOAT) return {lit(asdouble(sym64(n))), 0, 1};
  if (k == IDXBIT) return {ident("b"), 0, 1};
  if (k == IDXUNDEF) return {ident("undeclared"), 0, 1};
  i64 v = (i64)sym64(n); return {ct::make<sy::AdditionExpression>(lit(v), lit((i64)1)), (i64)((u64)v + 1), 0};
}
// The message of a rejected index spells out sizes and indices: bounds their numbers of digits, class by class.
static void bound_digits(i64 size, i64 v, i64 w, unsigned classes) {
  unsigned k = choose("magnitude", classes); const i64 big = 1000000000000000000;
  auto small = [](i64 x) { vp_assume((x > -10) & (x < 10)); };
  if (k == 3 || k == 4) vp_assume(size >= big); else vp_assume(size < 10);
  switch (k) { case 1: vp_assume(w >= big); small(v); break; case 2: vp_assume(v <= -big); small(w); break; case 3: vp_assume((v >= big) & (w >= big)); break; case 5: vp_assume((v >= 10000) & (v < 100000) & (w > -100000) & (w <= -10000)); break; default: small(v); small(w); }
}
static void bound_digits(i64 size, i64 v, unsigned classes) {
  unsigned k = choose("magnitude", classes); const i64 big = 1000000000000000000;
  if (k == 3 || k == 4) vp_assume(size >= big); else vp_assume(size < 10);
  switch (k) { case 0: case 4: vp_assume((v > -10) & (v < 10)); break; case 1: case 3: vp_assume(v >= big); break; case 2: vp_assume(v <= -big); break; default: vp_assume((v > -100000) & (v <= -10000)); }
}
extern "C" void vp_main() {
  unsigned n = vp_param("ITEMS", 1), base = vp_param("BASE", 0), nk = vp_param("KINDS", NIDX), width = vp_param("WIDTH", 3), ranges = vp_param("RANGES", 2), classes = vp_param("CLASSES", 5);
  i64 size = (i64)sym64("size"); vp_assume(size > 0); static const char* B[] = {"qs", "bs", "q", "b", "pi", "undeclared", "true"}; if (vp_param("SMALL", 0)) vp_assume(size <= (i64)vp_param("SMALL", 0));
  auto p = program(); auto& st = p->block->statements; st.add(declare("q", "qubit")); st.add(declare("qs", "qubit", size)); st.add(declare("b", "bit")); st.add(declare("bs", "bit", size));
  auto l = ct::make<sy::IndexList>(); bool ok = base < 2; std::vector<i64> want;
  for (unsigned i = 0; i < n; i++) {
    bool range = ranges == 2 ? symb("range") : ranges != 0;
    if (!range) { Item x = item("i", nk); l->items.add(ct::make<sy::IndexItem>(x.e)); ok = ok && !x.bad; if (ok) { ok = vp_fork((x.v >= 0) & (x.v < size)); if (!ok) bound_digits(size, x.v, classes); } if (ok) want.push_back(x.v); }
    else { Item x = item("first", nk), y = item("last", nk); l->items.add(ct::make<sy::IndexRange>(x.e, y.e)); ok = ok && !x.bad && !y.bad; if (ok) { ok = vp_fork((x.v >= 0) & (x.v <= y.v) & (y.v < size)); if (!ok) { bound_digits(size, x.v, y.v, classes); } }
      if (ok) { vp_assume((u64)y.v - (u64)x.v < width); for (i64 k = 0; vp_fork(x.v + k <= y.v); k++) want.push_back(x.v + k); } }
  }
  Ex e = ct::make<sy::Index>(ident(B[base]), l); u32 line = digit("line"); vp_assume(line > 2); at(*e, line, 2, 5);
  bool asop = vp_param("ANNOTATION", 0) == 0 && base != 1;
  if (asop) st.add(gate("X", {}, {e})); else { auto x = gate("X", {}, {ident("q")}); x->annotations.add(ct::make<sy::AnnotationData>(ident("i"), ident("o"), exlist({e}))); st.add(x); }
  Result r = analyse(p); vp_observe("errors", r.errors.size()); SL where = place(line, 2, 5);
  vp_check(r.errors.empty() == ok, ok ? "indices inside the array are accepted" : "an index outside the array, an inverted range, a non-constant index or a base that is no array is an error");
  if (!ok) { vp_reach("rejected"); vp_check(r.errors.size() == 1, "one error"); if (r.errors.size() == 1 && !vp_param("ITEMLOC", 0)) check_at(r.errors[0], &where, "the error is located at the index expression"); return; }
  vp_reach("accepted"); bool rec = one_statement(r); vp_check(rec, "the statement is in the tree"); if (!rec) return;
  values::Value v; auto s = r.root->block->statements[0];
  if (asop) { auto g = s->as_gate_instruction(); if (g && g->operands.size() == 1) v = g->operands[0]; } else if (s->annotations.size() == 1 && s->annotations[0]->operands.size() == 1) v = values::Value(std::dynamic_pointer_cast<values::ValueBase>(s->annotations[0]->operands[0].get_ptr()));
  vp_check(!v.empty() && v->as_index_ref() != nullptr, "the operand is an index reference"); if (v.empty() || !v->as_index_ref()) return; auto ref = v->as_index_ref();
  vp_check(ref->variable->name == B[base], "the reference denotes the array"); vp_check(ref->indices.size() == want.size(), "the recorded indices are those written, ranges expanded inclusively"); if (ref->indices.size() != want.size()) return;
  for (std::size_t i = 0; i < want.size(); i++) { vp_check(ref->indices[i]->value == want[i], "the recorded indices are those written, in order"); vp_check((ref->indices[i]->value >= 0) & (ref->indices[i]->value < size), "every index is inside its array"); }
}
