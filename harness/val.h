// Symbolic constants and references of the value and type trees, and the language's promotion rules as oracle.
#pragma once
#include "h.h"
#include "libqasm/annotations.hpp"
#include "libqasm/v3x/semantic.hpp"
#include "libqasm/v3x/types.hpp"
#include "libqasm/v3x/values.hpp"
namespace ct = cqasm::tree; using namespace cqasm::v3x; using SL = cqasm::annotations::SourceLocation;
enum Kind { KB, KI, KF, KBIT, KQ, KBITS, KQS, NKIND };   // bool, int, float, bit, qubit, bit array, qubit array
static const char KIND[] = "bifBQWV";
inline types::Type mktype(unsigned k, i64 size = 1) {
  types::Type t;
  switch (k) { case KB: t = ct::make<types::Bool>(); break; case KI: t = ct::make<types::Int>(); break; case KF: t = ct::make<types::Float>(); break; case KBIT: t = ct::make<types::Bit>(); break; case KQ: t = ct::make<types::Qubit>(); break; case KBITS: t = ct::make<types::BitArray>(); break; default: t = ct::make<types::QubitArray>(); }
  t->size = size; return t;
}
inline int kind_of(const types::Type& t) { if (t.empty()) return -1; return t->as_bool() ? KB : t->as_int() ? KI : t->as_float() ? KF : t->as_bit() ? KBIT : t->as_qubit() ? KQ : t->as_bit_array() ? KBITS : t->as_qubit_array() ? KQS : -1; }
inline double asdouble(u64 b) { double d; std::memcpy(&d, &b, 8); return d; }
inline u64 bits(double d) { u64 b; std::memcpy(&b, &d, 8); return b; }
struct Arg { unsigned kind; u64 raw; values::Value v; SL loc; bool located; };
inline Arg mkarg(const char* n, unsigned kind, bool locate, u64 size = 3) {
  Arg a; a.kind = kind; a.raw = 0; a.located = locate;
  if (kind == KB) { a.raw = vp_sym(n, 1); a.v = ct::make<values::ConstBool>(a.raw != 0); }
  else if (kind == KI) { a.raw = sym64(n); a.v = ct::make<values::ConstInt>((i64)a.raw); }
  else if (kind == KF) { a.raw = sym64(n); a.v = ct::make<values::ConstFloat>(asdouble(a.raw)); }
  else { static std::vector<ct::One<semantic::Variable>> keep; auto var = ct::make<semantic::Variable>(std::string(n), mktype(kind, kind >= KBITS ? (i64)size : 1)); keep.push_back(var); a.v = ct::make<values::VariableRef>(var); }
  if (locate) { a.loc.range.first.line = sym32("line"); a.loc.range.first.column = sym32("column"); a.loc.range.last = a.loc.range.first; a.v->set_annotation<SL>(a.loc); }
  return a;
}
inline bool promotes(unsigned from, unsigned to) { return from == to || (from == KB && (to == KI || to == KF)) || (from == KI && to == KF); }
inline u64 toint(const Arg& a) { return a.raw; }
inline u64 todouble(const Arg& a) { return a.kind == KF ? a.raw : a.kind == KB ? (a.raw ? 0x3ff0000000000000ull : 0) : bits((double)(i64)a.raw); }
// the value is the argument promoted to the type
inline void check_promoted(const values::Value& v, const Arg& a, unsigned to, const char* m) {
  vp_check(!v.empty(), m); if (v.empty()) return;
  if (a.kind == to && to >= KBIT) { vp_check(v->as_variable_ref() != nullptr && v->as_variable_ref()->variable.get_ptr() == a.v->as_variable_ref()->variable.get_ptr(), m); }
  else if (to == KB) { auto p = v->as_const_bool(); vp_check(p != nullptr, m); if (p) vp_check(p->value == (a.raw != 0), m); }
  else if (to == KI) { auto p = v->as_const_int(); vp_check(p != nullptr, m); if (p) vp_check((u64)p->value == toint(a), m); }
  else { auto p = v->as_const_float(); vp_check(p != nullptr, m); if (p) vp_check(bits(p->value) == todouble(a), m); }
  const SL* l = v->get_annotation_ptr<SL>(); vp_check((l != nullptr) == a.located, "a promoted value keeps the source location"); if (l && a.located) vp_check((l->range.first.line == a.loc.range.first.line) & (l->range.first.column == a.loc.range.first.column), "a promoted value keeps the source location");
}
