// Constant folding: every operator over symbolic constants, through the analyser.
#define NOPARSE
#include <cmath>
#include "ops.h"
struct R { int kind = -1; u64 raw = 0; bool error = false; };   // kind -1: no such operator
static R rb(bool v) { return {KB, v}; } static R ri(u64 v) { return {KI, v}; } static R rf(double v) { return {KF, bits(v)}; }
// the language's definition: the narrowest of bool, int, float on which the operator exists and to which all operands promote
__attribute__((noinline, optnone)) static double power(double x, double y) { return std::pow(x, y); }
static R want(unsigned op, const Arg& a, const Arg& b, const Arg& c) {
  unsigned arity = op <= LNOT ? 1 : op == TERN ? 3 : 2, lo = KB, top = KB;
  const Arg* as[3] = {&a, &b, &c}; for (unsigned i = 0; i < arity; i++) { if (as[i]->kind > KF) return {}; if (op == TERN && i == 0) { if (as[i]->kind != KB) return {}; continue; } top = std::max(top, as[i]->kind); }
  bool B = op == LNOT || (op >= GT && op <= NE) || (op >= LAND && op <= LOR) || op == TERN, I = (op != LNOT && op != POW && !(op >= LAND && op <= LOR)), F = op == NEG || (op >= POW && op <= DIV) || op == ADD || op == SUB || (op >= GT && op <= NE) || op == TERN;
  bool has[3] = {B, I, F}; unsigned k = top; while (k <= KF && !has[k]) k++; (void)lo; if (k > KF) return {};
  if (k == KB) { bool x = a.raw, y = b.raw; switch (op) { case LNOT: return rb(!x); case GT: return rb(x & !y); case LT: return rb(!x & y); case GE: return rb(x | !y); case LE: return rb(!x | y); case EQ: return rb(x == y); case NE: case LXOR: return rb(x != y); case LAND: return rb(x & y); case LOR: return rb(x | y); default: return {KB, x ? b.raw : c.raw}; } }
  if (k == KI) {
    u64 x = a.raw, y = b.raw; i64 sx = (i64)x, sy = (i64)y;
    switch (op) { case NEG: return ri(0 - x); case BNOT: return ri(~x); case MUL: return ri(x * y); case ADD: return ri(x + y); case SUB: return ri(x - y); case BAND: return ri(x & y); case BOR: return ri(x | y); case BXOR: return ri(x ^ y);
      case DIV: case MOD: if (vp_fork(y == 0)) return {KI, 0, true}; if (vp_fork(sy == -1)) return ri(op == DIV ? 0 - x : 0); return ri(op == DIV ? (u64)(sx / sy) : (u64)(sx % sy));
      case SHL: case SHR: if (vp_fork(y > 63)) return {KI, 0, true}; return ri(op == SHL ? x << y : (u64)(sx >> y));
      case GT: return rb(sx > sy); case LT: return rb(sx < sy); case GE: return rb(sx >= sy); case LE: return rb(sx <= sy); case EQ: return rb(x == y); case NE: return rb(x != y); default: return ri(a.raw ? b.raw : c.raw); } }
  double x = op == TERN ? 0 : asdouble(todouble(a)), y = arity > 1 ? asdouble(todouble(b)) : 0;
  switch (op) { case NEG: return rf(-x); case POW: return rf(power(x, y)); case MUL: return rf(x * y); case DIV: return rf(x / y); case ADD: return rf(x + y); case SUB: return rf(x - y);
    case GT: return rb(x > y); case LT: return rb(x < y); case GE: return rb(x >= y); case LE: return rb(x <= y); case EQ: return rb(x == y); case NE: return rb(x != y); default: return {KF, a.raw ? todouble(b) : todouble(c)}; }
}
static bool expect(const values::Value& v, const R& w, const char* m) {
  bool ok = !v.empty() && kind_of(values::type_of(v)) == w.kind && v->as_constant() != nullptr; vp_check(ok, "the result has the type defined by the operand types"); if (!ok) return false;
  if (w.kind == KB) vp_check(v->as_const_bool()->value == (w.raw != 0), m); else if (w.kind == KI) vp_check((u64)v->as_const_int()->value == w.raw, m); else vp_check(bits(v->as_const_float()->value) == w.raw, m);
  return true;
}
extern "C" void vp_main() {
  unsigned op = vp_param("OP", ADD), nk = vp_param("KINDS", 4), arity = op <= LNOT ? 1 : op == TERN ? 3 : 2; Arg a[3]; static const char* n[] = {"a", "b", "c"};
  static const unsigned KK[] = {KB, KI, KF, KQ, KBIT, KQS, KBITS}; static const char* V[] = {"", "", "", "bt", "qu", "bits", "qs"};
  for (unsigned i = 0; i < 3; i++) { if (i < arity) a[i] = mkarg(n[i], KK[choose("kind", nk)], false); else { a[i].kind = KB; a[i].raw = 0; a[i].located = false; }
    if (op == POW && a[i].kind == KB) a[i].raw = vp_concretize(a[i].raw); }   // both sides apply pow to the same constants
  Ex e = expr(op, operand(a[0], V[a[0].kind]), operand(a[1], V[a[1].kind]), operand(a[2], V[a[2].kind]));
  auto p = annotated(e);
  Result r = analyse(p); R w = want(op, a[0], a[1], a[2]);
  vp_observe("errors", r.errors.size());
  if (w.kind < 0 || w.error) { vp_reach(w.error ? "undefined result" : "no such operator"); vp_check(!r.errors.empty(), w.error ? "an expression without a value is reported as an error" : "operands without a defined operator are rejected"); return; }
  vp_reach("folded"); vp_check(r.errors.empty(), "a defined constant expression is accepted"); if (!r.errors.empty()) return;
  values::Value v = recorded(r); vp_check(!v.empty(), "the operand is recorded as a value"); if (v.empty()) return;
  expect(v, w, "a constant expression folds to the value defined by the language");
}
