// Classification of instruction names.
#include "h.h"
#include <set>
#include "libqasm/error.hpp"
#include "libqasm/v3x/instruction_set.hpp"
using cqasm::v3x::instruction::InstructionSet;
struct Sig { const char* name; const char* params; unsigned qubits; };
static const Sig G[] = {{"H", "", 1}, {"I", "", 1}, {"mX90", "", 1}, {"mY90", "", 1}, {"mZ90", "", 1}, {"Rn", "fffff", 1}, {"Rx", "f", 1}, {"Ry", "f", 1}, {"Rz", "f", 1}, {"S", "", 1}, {"Sdag", "", 1}, {"T", "", 1}, {"Tdag", "", 1}, {"U", "fff", 1}, {"X", "", 1}, {"X90", "", 1}, {"Y", "", 1}, {"Y90", "", 1}, {"Z", "", 1}, {"Z90", "", 1}, {"CNOT", "", 2}, {"CR", "f", 2}, {"CRk", "i", 2}, {"CZ", "", 2}, {"SWAP", "", 2}};
static const char* const N[] = {"measure", "reset", "init", "barrier", "wait"}; static const char* const M[] = {"inv", "pow", "ctrl"};
template <typename F> static int ask(F f, std::string& out) { try { auto p = f(); if (p.has_value()) { out = *p; return 1; } return 0; } catch (const cqasm::error::AnalysisError&) { return -1; } }
extern "C" void vp_main() {
  const InstructionSet& s = InstructionSet::get_instance(); unsigned mode = vp_param("MODE", 0);
  if (mode == 1) { // the tables agree with the lists
    std::set<std::string> seen; for (auto& [n, pr] : s.get_named_gate_map()) { seen.insert(n); unsigned q = 0; bool good = pr.second.has_value(); if (good) for (char c : *pr.second) { q++; good = good && (c == 'Q' || c == 'V'); } vp_check(good, "gates take qubit operands"); vp_check(s.is_single_qubit_named_gate(n) == (q == 1) && s.is_two_qubit_named_gate(n) == (q == 2) && s.is_named_gate(n) && !s.is_non_gate(n) && !s.is_gate_modifier(n), "the classification of a gate agrees with its number of qubit operands"); }
    for (auto& n : s.get_single_qubit_named_gate_list()) vp_check(seen.count(n) == 1, "every listed gate is in the table"); for (auto& n : s.get_two_qubit_named_gate_list()) vp_check(seen.count(n) == 1, "every listed gate is in the table");
    vp_check(seen.size() == s.get_single_qubit_named_gate_list().size() + s.get_two_qubit_named_gate_list().size(), "every gate of the table is classified");
    std::set<std::string> ng; for (auto& [n, pr] : s.get_non_gate_map()) { ng.insert(n); vp_check(s.is_non_gate(n) && !s.is_gate(n) && !s.is_gate_modifier(n), "non-gate instructions are classified as such"); } for (auto& n : s.get_non_gate_list()) vp_check(ng.count(n) == 1, "every listed instruction is in the table"); vp_check(ng.size() == s.get_non_gate_list().size(), "every instruction of the table is classified");
    for (auto& [n, pr] : s.get_gate_modifier_map()) vp_check(s.is_gate_modifier(n) && !s.is_gate(n) && !s.is_non_gate(n), "modifiers are classified as such"); vp_reach("tables");
    for (auto& g : G) { bool in = s.is_named_gate(g.name); vp_check(in, "every documented gate is known"); } for (auto n : N) { bool in = s.is_non_gate(n); vp_check(in, "every documented instruction is known"); } for (auto n : M) { bool in = s.is_gate_modifier(n); vp_check(in, "every documented modifier is known"); } return; }
  std::string n = symstr("name", vp_param("LEN", 2)); if (mode == 2) { n = (symb("two") ? "2q_" : "1q_") + n; }
  const Sig* g = nullptr; for (auto& x : G) if (n == x.name) { g = &x; break; } bool ng = false, mod = false; for (auto x : N) if (n == x) { ng = true; break; } for (auto x : M) if (n == x) { mod = true; break; }
  bool c1 = mode == 2 && n[0] == '1', c2 = mode == 2 && n[0] == '2', p1 = s.is_single_qubit_gate_composition(n), p2 = s.is_two_qubit_gate_composition(n); if (mode == 2) vp_check(p1 == c1 && p2 == c2, "compositions are classified by their prefix");
  bool g1 = g && g->qubits == 1, g2 = g && g->qubits == 2; vp_reach(g1 ? "single-qubit gate" : g2 ? "two-qubit gate" : ng ? "non-gate" : mod ? "modifier" : "other"); vp_observe("class", g1 + 2 * g2 + 4 * ng + 8 * mod);
  vp_check(s.is_single_qubit_named_gate(n) == g1 && s.is_two_qubit_named_gate(n) == g2 && s.is_named_gate(n) == (g1 || g2), "a name is a gate exactly when it is documented as one");
  vp_check(s.is_non_gate(n) == ng && s.is_gate_modifier(n) == mod, "a name is a non-gate instruction or modifier exactly when it is documented as one");
  vp_check(s.is_single_qubit_gate(n) == (g1 || p1) && s.is_two_qubit_gate(n) == (g2 || p2) && s.is_gate(n) == (g1 || g2 || p1 || p2), "gates are named gates and compositions"); vp_check(s.is_gate_composition(n) == (p1 || p2), "compositions are of one of two kinds");
  vp_check((int)s.is_single_qubit_gate(n) + (int)s.is_two_qubit_gate(n) + (int)s.is_non_gate(n) + (int)s.is_gate_modifier(n) <= 1, "a name has at most one classification");
  vp_check(s.is_measure(n) == (n == "measure") && s.is_reset(n) == (n == "reset") && s.is_init(n) == (n == "init") && s.is_barrier(n) == (n == "barrier") && s.is_wait(n) == (n == "wait"), "each instruction is itself"); vp_check(s.is_inv_gate_modifier(n) == (n == "inv") && s.is_pow_gate_modifier(n) == (n == "pow") && s.is_ctrl_gate_modifier(n) == (n == "ctrl") && s.is_single_qubit_gate_modifier(n) == (n == "inv" || n == "pow") && s.is_two_qubit_gate_modifier(n) == (n == "ctrl"), "each modifier is itself");
  std::string p; int a = ask([&] { return s.get_named_gate_param_types(n); }, p); vp_check(a == (!g ? -1 : g->params[0] ? 1 : 0) && (a != 1 || p == g->params), "parameter types are answered for exactly the listed gates");
  a = ask([&] { return s.get_non_gate_param_types(n); }, p); vp_check((a >= 0) == ng, "parameter types are answered for exactly the listed instructions"); a = ask([&] { return s.get_gate_modifier_param_types(n); }, p); vp_check(a == (!mod ? -1 : n == "pow" ? 1 : 0) && (a != 1 || p == "f"), "parameter types are answered for exactly the listed modifiers");
  a = ask([&] { return s.get_instruction_param_types(n); }, p); vp_check((a >= 0) == (g || ng || mod), "parameter types are answered for exactly the listed names"); if (g) vp_check(a == (g->params[0] ? 1 : 0) && (a != 1 || p == g->params), "parameter types of a gate are its own");
  for (unsigned k = 0; k < 5; k++) { int b = ask([&] { return s.get_non_gate_param_types_with_param_count(n, k); }, p); bool has = (n == "measure" && k == 3) || (n == "wait" && k == 1); vp_check((b == 1) == has && (b != 1 || p == (k == 3 ? "fff" : "i")), "parameter types by count are those listed"); }
  vp_check(symb("any") | (s.is_gate(n) == (g1 || g2 || p1 || p2)), "reached");
}
