// Building syntax trees and analysing them with the default analyser.
#pragma once
#include "val.h"
#include "loc.h"
#include "libqasm/error.hpp"
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/syntactic.hpp"
namespace sy = cqasm::v3x::syntactic; using cqasm::error::Error; using Result = cqasm::v3x::analyzer::AnalysisResult;
using Ex = ct::One<sy::Expression>;
inline ct::One<sy::Identifier> ident(const std::string& n) { return ct::make<sy::Identifier>(n); }
inline Ex lit(bool v) { return ct::make<sy::BooleanLiteral>(v); }
inline Ex lit(i64 v) { return ct::make<sy::IntegerLiteral>(v); }
inline Ex lit(double v) { return ct::make<sy::FloatLiteral>(v); }
inline ct::One<sy::ExpressionList> exlist(std::initializer_list<Ex> es = {}) { auto l = ct::make<sy::ExpressionList>(); for (auto& e : es) l->items.add(e); return l; }
inline Ex call(const std::string& f, std::initializer_list<Ex> es) { auto c = ct::make<sy::FunctionCall>(ident(f), ct::Maybe<sy::ExpressionList>{exlist(es).get_ptr()}); return c; }
// operand of a given kind: constants as literals with symbolic value; anything else a reference to the declared variable
inline Ex operand(const Arg& a, const char* var) { return a.kind == KB ? lit(a.raw != 0) : a.kind == KI ? lit((i64)a.raw) : a.kind == KF ? lit(asdouble(a.raw)) : Ex(ident(var)); }
inline ct::One<sy::Program> program() { return ct::make<sy::Program>(ct::make<sy::Version>(primitives::Version("3.0")), ct::make<sy::GlobalBlock>()); }
inline ct::One<sy::Variable> declare(const std::string& name, const char* type) { return ct::make<sy::Variable>(ident(name), ct::make<sy::Type>(ct::make<sy::Keyword>(std::string(type)), ct::Maybe<sy::IntegerLiteral>{})); }
inline ct::One<sy::Variable> declare(const std::string& name, const char* type, i64 size) { return ct::make<sy::Variable>(ident(name), ct::make<sy::Type>(ct::make<sy::Keyword>(std::string(type)), ct::Maybe<sy::IntegerLiteral>{ct::make<sy::IntegerLiteral>(size).get_ptr()})); }
inline ct::One<sy::GateInstruction> gate(const std::string& name, std::initializer_list<Ex> params, std::initializer_list<Ex> ops) { return ct::make<sy::GateInstruction>(ct::make<sy::Gate>(ident(name), ct::Maybe<sy::Gate>{}, exlist(params)), exlist(ops)); }
inline void at(ct::Annotatable& n, u32 line, u32 c0 = 1, u32 c1 = 20) { SL l; l.range.first.line = l.range.last.line = line; l.range.first.column = c0; l.range.last.column = c1; n.set_annotation<SL>(l); }
// the error's text starts with exactly this location
inline void check_at(const Error& e, const SL* l, const char* m) { std::string t = e.what(), w = "Error" + (l ? " at " + loc_text(*l) : std::string()) + ": "; bool ok = t.size() >= w.size(); vp_check(ok, m); if (ok) check_same(t.substr(0, w.size()), w, m); }
inline u32 digit(const char* n) { u32 v = (u32)vp_sym(n, 4); vp_assume((v > 0) & (v < 10)); return v; }   // 1..9: one digit, no case split when printed
inline SL place(u32 line, u32 c0, u32 c1) { SL l; l.range.first.line = l.range.last.line = line; l.range.first.column = c0; l.range.last.column = c1; return l; }
inline Result analyse(ct::One<sy::Program>& p) { auto a = cqasm::v3x::default_analyzer("3.0"); return a.analyze(*p); }
#ifdef NOPARSE   // the parser is not part of this encoding
#include "libqasm/v3x/parse_helper.hpp"
namespace cqasm::v3x::parser {
ParseResult parse_file(const std::string&, const std::optional<std::string>&) { vp_fail("parser called"); return {}; }
ParseResult parse_string(const std::string&, const std::optional<std::string>&) { vp_fail("parser called"); return {}; }
}
#endif
