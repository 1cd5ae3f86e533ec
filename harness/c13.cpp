// Overload resolution over symbolic names, constant values and types.
#include "val.h"
#include "libqasm/overload.hpp"
#include "libqasm/v3x/resolver.hpp"
using Table = resolver::OverloadedNameResolver<int>;
extern "C" void vp_main() {
  unsigned O = vp_param("OVERLOADS", 2), minar = vp_param("MINAR", 0), maxar = vp_param("MAXAR", 1), nk = vp_param("KINDS", 3); bool names = vp_param("NAMES", 0);
  Table t; struct Ov { std::string name; std::vector<unsigned> k; }; std::vector<Ov> ov;
  for (unsigned i = 0; i < O; i++) {
    Ov o; o.name = names ? symstr("name", 1 + i % 2) : std::string("f"); unsigned ar = minar + choose("arity", maxar - minar + 1); types::Types ty; std::string spec;
    for (unsigned k = 0; k < ar; k++) { o.k.push_back(choose("param", nk)); ty.add(mktype(o.k.back())); }
    t.add_overload(o.name, (int)(100 + i), ty); ov.push_back(o);
  }
  std::string call = names ? symstr("call", 1 + choose("calllen", 2)) : std::string("f"); unsigned ar = minar + choose("arity", maxar - minar + 1);
  std::vector<Arg> args; values::Values vals;
  for (unsigned k = 0; k < ar; k++) { args.push_back(mkarg("arg", choose("kind", nk), k == 0)); vals.add(args.back().v); }
  bool known = false; int want = -1;
  for (unsigned i = 0; i < O; i++) { if (!vp_fork(same(ov[i].name, call))) continue; known = true; bool ok = ov[i].k.size() == ar; for (unsigned k = 0; ok && k < ar; k++) ok = promotes(args[k].kind, ov[i].k[k]); if (ok) want = (int)i; }
  for (int round = 0; round < 2; round++) {   // asking again changes nothing
    int got = -1, fail = 0; values::Values res;
    try { auto [tag, v] = t.resolve(call, vals); got = tag - 100; res = v; } catch (const resolver::NameResolutionFailure& e) { fail = 1; if (!names) check_same(e.what(), "Error: failed to resolve 'f'", "an unknown name is named"); } catch (const resolver::OverloadResolutionFailure&) { fail = 2; }
    if (!known) { vp_reach("unknown name"); vp_check(fail == 1, "an unknown name is reported as unknown"); }
    else if (want < 0) { vp_reach("no overload"); vp_check(fail == 2, "a known name without applicable overload is reported as such"); }
    else {
      vp_reach("resolved"); vp_check(fail == 0, "a call with an applicable overload resolves"); if (fail) return;
      vp_check(got == want, "the last applicable overload is chosen");
      vp_check(res.size() == args.size(), "all arguments are returned"); if (got != want || res.size() != args.size()) return;
      for (unsigned k = 0; k < ar; k++) check_promoted(res[k], args[k], ov[want].k[k], "the arguments are promoted in order");
    }
    vp_observe("got", (u64)(got + 8 * fail + 1));
  }
  bool unchanged = vals.size() == args.size(); for (unsigned k = 0; unchanged && k < ar; k++) unchanged &= vals[k].get_ptr() == args[k].v.get_ptr();
  vp_check(unchanged, "resolution leaves the given arguments alone");
}
