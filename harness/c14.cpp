// Promotion of values and the promotability check on types.
#include "val.h"
extern "C" void vp_main() {
  unsigned from = choose("from", NKIND), to = choose("to", NKIND); Arg a = mkarg("x", from, symb("located")); bool ok = promotes(from, to); i64 size = (i64)sym64("size");
  types::Type want = mktype(to, size);
  values::Value v = values::promote(a.v, want);
  vp_check(!v.empty() == ok, "a value promotes exactly to its own type and along bool, int, float");
  if (ok && !v.empty()) { vp_reach(from == to ? "same type" : "widened"); check_promoted(v, a, to, "the promoted value is the original value"); vp_check(kind_of(values::type_of(v)) == (int)to, "the promoted value has the target type"); }
  else vp_reach("not promotable");
  vp_check(values::check_promote(mktype(from, (i64)sym64("fsize")), mktype(to, (i64)sym64("tsize"))) == ok, "the type check agrees with promotion");
  vp_check(values::check_promote(values::type_of(a.v), want) == ok, "the type check agrees with promotion");
  if (from == KI) vp_check((u64)a.v->as_const_int()->value == a.raw, "promotion leaves the original alone");
  if (from == KB) vp_check(a.v->as_const_bool()->value == (a.raw != 0), "promotion leaves the original alone");
  // twice in a row gives the same as once; along the chain as well
  if (ok && !v.empty()) { Arg b = a; auto w = values::promote(v, want); check_promoted(w, b, to, "promoting again changes nothing");
    if (from == KB && to == KF) { auto i = values::promote(a.v, mktype(KI)); vp_check(!i.empty(), "booleans promote to integers"); if (!i.empty()) check_promoted(values::promote(i, want), a, to, "promotion along the chain is promotion"); } }
  vp_observe("ok", ok); 
}
