// Parsing texts; rendering syntax trees as s-expressions.
#pragma once
#include "val.h"
#include "loc.h"
#include "libqasm/error.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "libqasm/v3x/parse_result.hpp"
#include "libqasm/v3x/syntactic.hpp"
namespace sy = cqasm::v3x::syntactic; namespace pa = cqasm::v3x::parser; using cqasm::error::Error;
typedef std::optional<std::string> FileName;
inline std::vector<i64> sx_ints;   // the symbolic integers met, printed as #int
inline std::string sx_int(i64 v) { if (!vp_is_sym((u64)v)) return sdec(v); sx_ints.push_back(v); return "int"; }
inline std::string sx(sy::Expression& e);
inline std::string sx(sy::ExpressionList& l) { std::string r; for (auto& x : l.items) r += " " + sx(*x); return r; }
inline std::string sx_index(sy::IndexList& l) { std::string r; for (auto& x : l.items) { if (auto i = x->as_index_item()) r += " " + sx(*i->index); else if (auto g = x->as_index_range()) r += " (: " + sx(*g->first) + " " + sx(*g->last) + ")"; else r += " ?"; } return r; }
template <class T> inline std::string sx2(const char* n, T* e) { return "(" + std::string(n) + " " + sx(*e->lhs) + " " + sx(*e->rhs) + ")"; }
inline std::string sx(sy::Expression& e) {
  if (auto x = e.as_identifier()) return x->name; if (auto x = e.as_boolean_literal()) return x->value ? "#t" : "#f"; if (auto x = e.as_integer_literal()) return "#" + sx_int(x->value); if (e.as_float_literal()) return "#float";
  if (auto x = e.as_unary_minus_expression()) return "(neg " + sx(*x->expr) + ")"; if (auto x = e.as_bitwise_not_expression()) return "(~ " + sx(*x->expr) + ")"; if (auto x = e.as_logical_not_expression()) return "(! " + sx(*x->expr) + ")";
  if (auto x = e.as_power_expression()) return sx2("**", x); if (auto x = e.as_product_expression()) return sx2("*", x); if (auto x = e.as_division_expression()) return sx2("/", x); if (auto x = e.as_modulo_expression()) return sx2("%", x);
  if (auto x = e.as_addition_expression()) return sx2("+", x); if (auto x = e.as_subtraction_expression()) return sx2("-", x); if (auto x = e.as_shift_left_expression()) return sx2("<<", x); if (auto x = e.as_shift_right_expression()) return sx2(">>", x);
  if (auto x = e.as_cmp_gt_expression()) return sx2(">", x); if (auto x = e.as_cmp_lt_expression()) return sx2("<", x); if (auto x = e.as_cmp_ge_expression()) return sx2(">=", x); if (auto x = e.as_cmp_le_expression()) return sx2("<=", x); if (auto x = e.as_cmp_eq_expression()) return sx2("==", x); if (auto x = e.as_cmp_ne_expression()) return sx2("!=", x);
  if (auto x = e.as_bitwise_and_expression()) return sx2("&", x); if (auto x = e.as_bitwise_xor_expression()) return sx2("^", x); if (auto x = e.as_bitwise_or_expression()) return sx2("|", x); if (auto x = e.as_logical_and_expression()) return sx2("&&", x); if (auto x = e.as_logical_xor_expression()) return sx2("^^", x); if (auto x = e.as_logical_or_expression()) return sx2("||", x);
  if (auto x = e.as_ternary_conditional_expression()) return "(? " + sx(*x->cond) + " " + sx(*x->if_true) + " " + sx(*x->if_false) + ")";
  if (auto x = e.as_function_call()) return "(call " + x->name->name + (x->arguments.empty() ? std::string() : sx(*x->arguments)) + ")"; if (auto x = e.as_index()) return "(index " + sx(*x->expr) + sx_index(*x->indices) + ")";
  return "(unknown)"; }
inline std::string sx_gate(sy::Gate& g) { return "(" + g.name->name + "[" + sx(*g.parameters) + "]" + (g.gate.empty() ? std::string() : " " + sx_gate(*g.gate)) + ")"; }
inline std::string sx(sy::Statement& s) {
  if (auto v = s.as_variable()) return "(var " + v->typ->name->name + (v->typ->size.empty() ? std::string() : "[" + sx_int(v->typ->size->value) + "]") + " " + v->name->name + ")";
  if (auto g = s.as_gate_instruction()) return "(gate " + sx_gate(*g->gate) + sx(*g->operands) + ")";
  if (auto n = s.as_non_gate_instruction()) return "(non " + n->name->name + " [" + (n->parameters.empty() ? std::string() : sx(*n->parameters)) + "]" + sx(*n->operands) + ")";
  if (auto a = s.as_asm_declaration()) return "(asm " + a->backend_name->name + " <" + a->backend_code + ">)";
  return "(unknown)"; }
inline std::string sx(sy::Program& p) { std::string r = "v"; for (auto x : p.version->items) r += " " + (vp_is_sym((u64)x) ? std::string("#int") : sdec(x)); for (auto& s : p.block->statements) r += "\n" + sx(*s); return r; }
inline sy::Program* program_of(const pa::ParseResult& r) { return r.errors.empty() && !r.root.empty() ? r.root->as_program() : nullptr; }
inline std::string sx(const pa::ParseResult& r) { auto p = program_of(r); return p ? sx(*p) : std::string("error"); }
