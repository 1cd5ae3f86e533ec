// Which instructions are accepted, and what is recorded.
#define NOPARSE
#include "instr.h"
static std::vector<Opd> operands(unsigned lo, unsigned hi, unsigned nk, unsigned mask) {
  std::vector<Opd> os; unsigned n = lo + choose("noperands", hi - lo + 1); for (unsigned i = 0; i < n; i++) { unsigned k = choose("operand", nk); vp_assume(mask >> k & 1); i64 w = vp_param("ARR", 3); os.push_back(opd(k, i, (u64)w, (u64)w)); } return os; }
static std::vector<Arg> params(unsigned lo, unsigned hi, unsigned nk, const std::string& want, bool varyall) {
  static const unsigned KK[] = {KF, KI, KB, KQ, KBIT, KQS, KBITS}; static const char* N[] = {"p0", "p1", "p2", "p3", "p4", "p5"};
  std::vector<Arg> as; unsigned n = lo + choose("nparams", hi - lo + 1); unsigned odd = n && !varyall ? choose("odd", n) : 0;
  for (unsigned i = 0; i < n; i++) as.push_back(mkarg(N[i], varyall || i == odd ? KK[choose("pkind", nk)] : KF, false)); return as; }
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0), nk = vp_param("OPERANDS", NOPD), pk = vp_param("PKINDS", 3), mask = vp_param("MASK", 0xfff); auto p = program(); i64 w = vp_param("ARR", 3); declare_all(p, w, w, w); auto& st = p->block->statements;
  std::string name, want; std::vector<Opd> os; std::vector<Arg> as; unsigned qubits = 0; bool known = true, non = mode >= 3;
  if (mode <= 1) { unsigned g = vp_param("G", 0); if (g < NGATES) { name = GATES[g].name; want = GATES[g].params; qubits = GATES[g].qubits; } else { name = UNKNOWN[choose("unknown", NUNKNOWN)]; known = false; qubits = 1; } }
  if (mode == 0) { // operands of every kind, the right parameters
    os = operands(vp_param("MINOPS", 0), vp_param("MAXOPS", 2), nk, mask); for (char c : want) as.push_back(mkarg("p", c == 'f' ? KF : KI, false));
  } else if (mode == 1) { // parameters of every kind, right operands
    for (unsigned i = 0; i < qubits; i++) os.push_back(opd(OQ, i)); unsigned n = want.size(); as = params(n ? n - 1 : 0, n + 1, pk, want, n < 2);
  } else if (mode == 2) { // all names
    name = symstr("name", vp_param("LEN", 2)); for (std::size_t i = 0; i < name.size(); i++) { u8 c = (u8)name[i]; vp_assume(is_alpha(c) | (c == '_') | (is_digit(c) & (i > 0))); }
    for (auto w : MODS) vp_assume(!(name == w)); for (auto w : NONGATES) vp_assume(!(name == w));
    const Sig* s = gate_sig(name); known = s != nullptr; if (s) { want = s->params; qubits = s->qubits; } os = operands(1, 2, 1, 1);
  } else { // instructions that are not gates: the grammar gives reset, init, barrier one operand, wait one parameter and one operand, measure two operands
    unsigned k = vp_param("NON", 0); name = NONGATES[k]; unsigned n = k == 0 ? 2 : 1; os = mode == 3 ? operands(n, n, nk, mask) : k == 0 ? std::vector<Opd>{opd(OB, 0), opd(OQ, 0)} : std::vector<Opd>{opd(OQ, 0)};
    if (mode == 3) { if (k == 4) { want = "i"; as.push_back(mkarg("p", KI, false)); } else if (k == 0 && symb("params")) { want = "fff"; for (int i = 0; i < 3; i++) as.push_back(mkarg("p", KF, false)); } }
    else if (k == 4) { want = "i"; as = params(1, 1, pk, want, true); } else if (k == 0) { as = params(0, 4, pk, want, false); want = as.empty() ? "" : "fff"; } }
  // the oracle
  bool ok = known && params_ok(as, want); u64 q = 0; for (auto& o : os) q += o.qubit;
  if (!non) { ok = ok && os.size() == qubits && q == qubits; for (auto& o : os) ok = ok && o.size == os[0].size; }
  else if (name == "measure") ok = ok && os[0].bit && os[1].qubit && os[0].size == os[1].size; else ok = ok && os[0].qubit;
  std::vector<Ex> pe, oe; for (auto& a : as) pe.push_back(param_ex(a)); for (auto& o : os) oe.push_back(opd_ex(o));
  if (non) st.add(ct::make<sy::NonGateInstruction>(ct::make<sy::Keyword>(name), list_of(oe), list_of(pe))); else st.add(ct::make<sy::GateInstruction>(ct::make<sy::Gate>(ident(name), ct::Maybe<sy::Gate>{}, list_of(pe)), list_of(oe)));
  Result r = analyse(p); vp_observe("errors", r.errors.size());
  vp_check(r.errors.empty() == ok, ok ? "an instruction of the instruction set is accepted" : "anything the instruction set does not list is an error");
  vp_check(r.errors.size() <= 1, "an instruction gives at most one error"); bool rec = one_statement(r); vp_check(rec == ok, ok ? "an accepted instruction is in the tree" : "a rejected instruction is not in the tree");
  if (!ok) { vp_reach("rejected"); return; } if (!rec) return; vp_reach(non ? "non-gate accepted" : "gate accepted");
  auto s = r.root->block->statements[0];
  if (non) { auto n = s->as_non_gate_instruction(); vp_check(n != nullptr, "the statement is a non-gate instruction"); if (!n) return; check_same(n->name, name, "the name is recorded"); vp_check(!n->instruction_ref.empty() && n->instruction_ref->name == name, "the instruction is the one named"); check_params(n->parameters, as, want, "parameters are recorded promoted and in order"); vp_check(n->operands.size() == os.size(), "all operands are recorded"); if (n->operands.size() == os.size()) for (std::size_t i = 0; i < os.size(); i++) check_operand(n->operands[i], os[i], r, "operands are recorded in order"); }
  else { auto n = s->as_gate_instruction(); vp_check(n != nullptr, "the statement is a gate"); if (!n) return; check_same(n->gate->name, name, "the name is recorded"); vp_check(n->gate->gate.empty(), "a gate without modifier has none"); vp_check(!n->instruction_ref.empty() && n->instruction_ref->name == name, "the instruction is the one named"); check_params(n->gate->parameters, as, want, "parameters are recorded promoted and in order"); vp_check(n->operands.size() == os.size(), "all operands are recorded"); if (n->operands.size() == os.size()) for (std::size_t i = 0; i < os.size(); i++) check_operand(n->operands[i], os[i], r, "operands are recorded in order"); }
  vp_check(symb("any") | ok, "reached");
}
