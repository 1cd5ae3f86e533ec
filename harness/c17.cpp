// Evaluating constant expressions never crashes: the analyser compiled with traps on undefined arithmetic.
#define NOPARSE
#include "ops.h"
static Arg part(const char* n, unsigned nk) { static const unsigned KK[] = {KI, KB, KF}; return mkarg(n, KK[choose("kind", nk)], false); }
extern "C" void vp_main() {
  unsigned op = vp_param("OP", ADD), nk = vp_param("KINDS", 3), in = vp_param("INNER", NOP), side = vp_param("SIDE", 0); Ex e;
  if (op >= NOP) { Arg a = part("a", nk); Ex x = operand(a, ""); if (in < NOP) { Arg b = part("b", nk); x = expr(in, x, operand(b, ""), x); } e = call(FN[op - NOP], {x}); }
  else {
    unsigned arity = op <= LNOT ? 1 : op == TERN ? 3 : 2; Ex x[3]; static const char* n[] = {"a", "b", "c"};
    for (unsigned i = 0; i < arity; i++) { Arg a = part(n[i], nk); x[i] = operand(a, ""); }
    for (unsigned i = arity; i < 3; i++) x[i] = lit((i64)0);
    if (in < NOP) { Arg d = part("d", nk); Ex y = operand(d, ""); x[side % arity] = expr(in, x[side % arity], y, y); }
    e = expr(op, x[0], x[1], x[2]);
  }
  auto p = annotated(e); Result r = analyse(p);
  vp_observe("errors", r.errors.size()); vp_check(r.errors.size() <= 1, "one expression gives at most one error");
  if (!r.errors.empty()) { vp_reach("error"); vp_check(std::strlen(r.errors[0].what()) > 0, "an error says what is wrong"); return; }
  vp_reach("value"); values::Value v = recorded(r); vp_check(!v.empty() && v->as_constant() != nullptr, "an expression without error has a constant value");
  vp_check(symb("any") | !r.root.empty(), "there is a tree");
}
