// Gate modifiers.
#define NOPARSE
#include "instr.h"
extern "C" void vp_main() {
  unsigned depth = vp_param("DEPTH", 1), G = vp_param("G", 14), nk = vp_param("OPERANDS", 2), mask = vp_param("MASK", 0xfff), pk = vp_param("PKINDS", 1); auto p = program(); declare_all(p); auto& st = p->block->statements;
  // innermost gate
  std::string name, want; bool ok = true; unsigned qubits = 1;
  if (G < NGATES) { name = GATES[G].name; want = GATES[G].params; qubits = GATES[G].qubits; } else { name = "nope"; ok = false; }
  std::vector<Arg> as; static const unsigned KK[] = {KF, KI, KB, KQ, KBIT}; std::vector<Ex> pe; for (char c : want) { as.push_back(mkarg("p", c == 'f' ? KF : KI, false)); pe.push_back(param_ex(as.back())); }
  auto g = ct::make<sy::Gate>(ident(name), ct::Maybe<sy::Gate>{}, list_of(pe));
  std::vector<unsigned> mods; std::vector<Arg> ex;   // from the inside
  for (unsigned i = 0; i < depth; i++) {
    unsigned m = choose("modifier", 3); if (qubits != 1) ok = false; if (m == 2) qubits = 2; mods.push_back(m); Arg x; auto l = exlist();
    if (m == 1) { x = mkarg("e", KK[choose("exponent", pk)], false); l = list_of({param_ex(x)}); ok = ok && promotes(x.kind, KF); } ex.push_back(x);
    g = ct::make<sy::Gate>(ident(MODS[m]), ct::Maybe<sy::Gate>{g.get_ptr()}, l); }
  std::vector<Opd> os; unsigned n = 1 + choose("noperands", vp_param("MAXOPS", 3)); std::vector<Ex> oe; u64 q = 0;
  for (unsigned i = 0; i < n; i++) { unsigned k = choose("operand", nk); vp_assume(mask >> k & 1); os.push_back(opd(k, i)); oe.push_back(opd_ex(os.back())); q += os.back().qubit; }
  ok = ok && n == qubits && q == n; for (auto& o : os) ok = ok && o.size == os[0].size;
  st.add(ct::make<sy::GateInstruction>(g, list_of(oe))); Result r = analyse(p); vp_observe("errors", r.errors.size());
  vp_check(r.errors.empty() == ok, ok ? "modifiers over a single-qubit gate are accepted" : "modifiers over anything but a single-qubit gate, a wrong exponent or wrong operands are an error"); vp_check(r.errors.size() <= 1, "one error"); bool rec = one_statement(r); vp_check(rec == ok, "exactly accepted instructions are in the tree");
  if (!ok) { vp_reach("rejected"); return; } if (!rec) return; vp_reach(qubits == 2 ? "controlled" : "single");
  auto s = r.root->block->statements[0]->as_gate_instruction(); vp_check(s != nullptr, "the statement is a gate"); if (!s) return; const semantic::Gate* c = &*s->gate;
  for (unsigned i = depth; i-- > 0;) { vp_check(c->name == MODS[mods[i]], "modifiers are recorded in source order"); if (mods[i] == 1) { vp_check(c->parameters.size() == 1, "the exponent is recorded"); if (c->parameters.size() == 1) check_promoted(c->parameters[0], ex[i], KF, "the exponent is recorded as a float"); } else vp_check(c->parameters.size() == 0, "inverse and control have no parameters"); vp_check(!c->gate.empty(), "the modified gate is recorded"); if (c->gate.empty()) return; c = &*c->gate; }
  vp_check(c->name == name && c->gate.empty(), "the innermost gate is recorded"); check_params(c->parameters, as, want, "the gate's parameters are recorded");
  vp_check(s->operands.size() == n, "all operands are recorded"); if (s->operands.size() == n) for (unsigned i = 0; i < n; i++) check_operand(s->operands[i], os[i], r, "operands are recorded in order"); vp_check(symb("any") | ok, "reached");
}
