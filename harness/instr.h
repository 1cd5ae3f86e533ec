// The instruction set as documented, operands of every kind, and what an accepted instruction has to record.
#pragma once
#include "ast.h"
struct Sig { const char* name; const char* params; unsigned qubits; };   // parameter kinds, number of qubit operands
static const Sig GATES[] = {{"H", "", 1}, {"I", "", 1}, {"mX90", "", 1}, {"mY90", "", 1}, {"mZ90", "", 1}, {"Rn", "fffff", 1}, {"Rx", "f", 1}, {"Ry", "f", 1}, {"Rz", "f", 1}, {"S", "", 1}, {"Sdag", "", 1}, {"T", "", 1}, {"Tdag", "", 1}, {"U", "fff", 1}, {"X", "", 1}, {"X90", "", 1}, {"Y", "", 1}, {"Y90", "", 1}, {"Z", "", 1}, {"Z90", "", 1},
  {"CNOT", "", 2}, {"CR", "f", 2}, {"CRk", "i", 2}, {"CZ", "", 2}, {"SWAP", "", 2}};
enum { NGATES = 25, NSINGLE = 20 };
static const char* const NONGATES[] = {"measure", "reset", "init", "barrier", "wait"}; enum { NNON = 5 };
static const char* const MODS[] = {"inv", "pow", "ctrl"};
static const char* const UNKNOWN[] = {"nope", "x", "cnot", "Cnot", "CNOTs", "RX", "rn", "_H", "XX"}; enum { NUNKNOWN = 9 };
inline const Sig* gate_sig(const std::string& n) { for (auto& g : GATES) if (n == g.name) return &g; return nullptr; }
// operands: variables and index references; the declarations are q, r: qubits; qs, rs: qubit arrays; b: bit; bs: bit array
enum OpdKind { OQ, OV, OQ1, OV2, OB, OW, OB1, OW2, OI, OF, OBOOL, OUNDEF, NOPD };
struct Opd { unsigned kind; const char* var; bool qubit = false, bit = false; u64 size = 0; std::vector<i64> idx; Arg c; };
inline Ex index_of(const char* v, const std::vector<i64>& idx) { auto l = ct::make<sy::IndexList>(); for (i64 i : idx) l->items.add(ct::make<sy::IndexItem>(lit(i))); return ct::make<sy::Index>(ident(v), l); }
inline Opd opd(unsigned k, unsigned which, u64 qsize = 3, u64 bsize = 3) {
  Opd o; o.kind = k; static const char* q[] = {"q", "r", "q"}; static const char* v[] = {"qs", "rs", "qs"};
  switch (k) {
    case OQ: o.var = q[which]; o.qubit = true; o.size = 1; break; case OV: o.var = v[which]; o.qubit = true; o.size = qsize; break;
    case OQ1: o.var = v[which]; o.qubit = true; o.size = 1; o.idx = {(i64)which}; break; case OV2: o.var = v[which]; o.qubit = true; o.size = 2; o.idx = {1, (i64)(which ? 0 : 2)}; break;
    case OB: o.var = "b"; o.bit = true; o.size = 1; break; case OW: o.var = "bs"; o.bit = true; o.size = bsize; break;
    case OB1: o.var = "bs"; o.bit = true; o.size = 1; o.idx = {2}; break; case OW2: o.var = "bs"; o.bit = true; o.size = 2; o.idx = {0, 1}; break;
    case OI: o.c = mkarg("oi", KI, false); o.var = ""; break; case OF: o.c = mkarg("of", KF, false); o.var = ""; break; case OBOOL: o.c = mkarg("ob", KB, false); o.var = ""; break;
    default: o.var = "undeclared"; }
  return o; }
inline Ex opd_ex(const Opd& o) { if (o.kind == OI || o.kind == OF || o.kind == OBOOL) return operand(o.c, ""); if (!o.idx.empty()) return index_of(o.var, o.idx); return ident(o.var); }
inline void declare_all(ct::One<sy::Program>& p, i64 qs = 3, i64 rs = 3, i64 bs = 3) { auto& s = p->block->statements; s.add(declare("q", "qubit")); s.add(declare("qs", "qubit", qs)); s.add(declare("b", "bit")); s.add(declare("bs", "bit", bs)); s.add(declare("r", "qubit")); s.add(declare("rs", "qubit", rs)); }
inline void check_operand(const values::Value& v, const Opd& o, const Result& r, const char* m) {
  vp_check(!v.empty(), m); if (v.empty()) return;
  if (o.idx.empty()) { auto p = v->as_variable_ref(); vp_check(p != nullptr, m); if (!p) return; vp_check(p->variable->name == o.var, m); bool in = false; for (auto& x : r.root->variables) in |= x.get_ptr() == p->variable.get_ptr(); vp_check(in, "operands denote the declared variables"); return; }
  auto p = v->as_index_ref(); vp_check(p != nullptr, m); if (!p) return; vp_check(p->variable->name == o.var && p->indices.size() == o.idx.size(), m); if (p->indices.size() == o.idx.size()) for (std::size_t i = 0; i < o.idx.size(); i++) vp_check(p->indices[i]->value == o.idx[i], m);
}
// parameters of some kinds against the kinds wanted
inline bool params_ok(const std::vector<Arg>& a, const std::string& want) { if (a.size() != want.size()) return false; for (std::size_t i = 0; i < a.size(); i++) if (!promotes(a[i].kind, want[i] == 'f' ? KF : KI)) return false; return true; }
inline void check_params(const values::Values& got, const std::vector<Arg>& a, const std::string& want, const char* m) { vp_check(got.size() == a.size(), m); if (got.size() == a.size()) for (std::size_t i = 0; i < a.size(); i++) check_promoted(got[i], a[i], want[i] == 'f' ? KF : KI, m); }
inline Ex param_ex(const Arg& a) { return operand(a, a.kind == KQ ? "q" : a.kind == KBIT ? "b" : a.kind == KQS ? "qs" : "bs"); }
inline ct::One<sy::ExpressionList> list_of(const std::vector<Ex>& v) { auto l = ct::make<sy::ExpressionList>(); for (auto& e : v) l->items.add(e); return l; }
inline bool one_statement(const Result& r) { return !r.root.empty() && !r.root->block.empty() && r.root->block->statements.size() == 1; }
