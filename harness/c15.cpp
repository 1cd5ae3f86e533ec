// Types and sizes of values; type letters.
#include "val.h"
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0);
  if (mode == 0) {   // type letters: every character
    u8 c = sym8("letter"); int want = -1; for (int k = 0; k < NKIND; k++) if (vp_fork(c == (u8)KIND[k])) want = k;
    types::Type t; bool threw = false; try { t = types::from_spec((char)c); } catch (const std::invalid_argument&) { threw = true; }
    if (want < 0) { vp_reach("unknown letter"); vp_check(threw, "an unknown type letter is rejected"); return; }
    vp_reach("letter"); vp_check(!threw && kind_of(t) == want, "a type letter denotes its documented type"); return;
  }
  if (mode == 1) {   // texts of type letters
    std::string s = symstr("s", vp_param("LEN", 3)); bool bad = false; std::vector<int> want;
    for (char c : s) { int w = -1; for (int k = 0; k < NKIND; k++) if (vp_fork(c == KIND[k])) { w = k; break; } bad |= w < 0; want.push_back(w); }
    types::Types t; bool threw = false; try { t = types::from_spec(s); } catch (const std::invalid_argument&) { threw = true; }
    vp_check(threw == bad, "a text with an unknown type letter is rejected"); if (threw || bad) return;
    vp_reach("letters"); vp_check(t.size() == s.size(), "every type letter gives a type"); for (std::size_t i = 0; i < s.size() && i < t.size(); i++) vp_check(kind_of(t[i]) == want[i], "type letters denote their types in order");
    return;
  }
  unsigned k = choose("kind", NKIND); i64 size = (i64)sym64("size");
  if (mode == 2) {   // constants and variable references
    if (k <= KF) { Arg a = mkarg("x", k, false); vp_check(kind_of(values::type_of(a.v)) == (int)k, "a constant has its type"); vp_check(values::size_of(a.v) == 1, "a constant has size one"); vp_reach("constant"); return; }
    auto var = ct::make<semantic::Variable>(std::string("v"), mktype(k, size)); values::Value r = ct::make<values::VariableRef>(var);
    vp_check(kind_of(values::type_of(r)) == (int)k, "a reference has the type of its variable"); vp_check(values::size_of(r) == size, "the size of a reference is that of the variable"); vp_check(types::size_of(values::type_of(r)) == size, "the type of a reference carries the variable's size");
    vp_check(types::size_of(var->typ) == size, "the size of a type is its size"); vp_reach("reference");
    unsigned k2 = choose("kind2", NKIND); vp_check(types::type_check(mktype(k, size), mktype(k2, (i64)sym64("size2"))) == (k == k2), "types agree exactly when their kinds do");
    values::Values vs; vs.add(r); vs.add(mkarg("y", k2, false).v); auto ts = values::types_of(vs); vp_check(ts.size() == 2 && kind_of(ts[0]) == (int)k && kind_of(ts[1]) == (int)k2, "types of values are listed in order");
    return;
  }
  if (k < KBITS) return;
  unsigned n = 1 + choose("count", vp_param("COUNT", 4)); auto var = ct::make<semantic::Variable>(std::string("v"), mktype(k, size)); values::IndexRef* p; auto ix = ct::Many<values::ConstInt>();
  for (unsigned i = 0; i < n; i++) ix.add(ct::make<values::ConstInt>((i64)sym64("index")));
  values::Value r = ct::make<values::IndexRef>(var, ix);
  vp_check(values::size_of(r) == (i64)n, "the size of an index reference is the number of indices");
  int want = n == 1 ? (k == KQS ? KQ : KBIT) : (int)k; vp_check(kind_of(values::type_of(r)) == want, "one index denotes an element, several an array");
  vp_check(kind_of(values::element_type_of(mktype(k, size))) == (k == KQS ? KQ : KBIT), "the element type of an array"); vp_reach(n == 1 ? "element" : "slice");
  unsigned nk = choose("scalar", KBITS); bool threw = false; try { (void)values::element_type_of(mktype(nk)); } catch (const std::runtime_error&) { threw = true; } vp_check(threw, "only arrays have elements");
  values::Values cs; Arg c0 = mkarg("c", choose("ckind", 3), false); cs.add(c0.v); bool bad = symb("bad"); if (vp_fork(bad)) cs.add(r); threw = false; try { values::check_const(cs); } catch (const cqasm::error::AnalysisError&) { threw = true; } vp_check(threw == bad, "a list with a reference is not constant");
}
