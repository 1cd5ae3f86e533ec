// The operators and functions of constant expressions.
#pragma once
#include "ast.h"
enum Op { NEG, BNOT, LNOT, POW, MUL, DIV, MOD, ADD, SUB, SHL, SHR, GT, LT, GE, LE, EQ, NE, BAND, BXOR, BOR, LAND, LXOR, LOR, TERN, NOP };
inline Ex expr(unsigned op, Ex a, Ex b, Ex c) {
  switch (op) {
#define B(K, N) case K: return ct::make<sy::N##Expression>(a, b);
    case NEG: return ct::make<sy::UnaryMinusExpression>(a); case BNOT: return ct::make<sy::BitwiseNotExpression>(a); case LNOT: return ct::make<sy::LogicalNotExpression>(a);
    B(POW, Power) B(MUL, Product) B(DIV, Division) B(MOD, Modulo) B(ADD, Addition) B(SUB, Subtraction) B(SHL, ShiftLeft) B(SHR, ShiftRight) B(GT, CmpGt) B(LT, CmpLt) B(GE, CmpGe) B(LE, CmpLe) B(EQ, CmpEq) B(NE, CmpNe)
    B(BAND, BitwiseAnd) B(BXOR, BitwiseXor) B(BOR, BitwiseOr) B(LAND, LogicalAnd) B(LXOR, LogicalXor) B(LOR, LogicalOr)
    default: return ct::make<sy::TernaryConditionalExpression>(a, b, c);
  }
}
static const char* const FN[] = {"sqrt", "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan", "asinh", "acosh", "atanh", "abs"};
enum { NFN = 16, FABS = 15 };
// a program whose only statement is a gate with an annotation whose operand is the expression
inline ct::One<sy::Program> annotated(const Ex& e) {
  auto p = program(); auto& st = p->block->statements; st.add(declare("bt", "bit")); st.add(declare("qu", "qubit")); st.add(declare("qs", "qubit", 3)); st.add(declare("bits", "bit", 3));
  auto x = gate("X", {}, {ident("qu")}); x->annotations.add(ct::make<sy::AnnotationData>(ident("i"), ident("o"), exlist({e}))); st.add(x); return p;
}
// the value recorded for it, or empty
inline values::Value recorded(const Result& r) {
  if (r.root.empty() || r.root->block.empty() || r.root->block->statements.size() != 1 || r.root->block->statements[0]->annotations.size() != 1 || r.root->block->statements[0]->annotations[0]->operands.size() != 1) return {};
  auto o = r.root->block->statements[0]->annotations[0]->operands[0]; return values::Value(std::dynamic_pointer_cast<values::ValueBase>(o.get_ptr()));
}
