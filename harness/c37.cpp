// Scopes of an analyser: histories of pushing, popping and registering against a stack of maps.
#define NOPARSE
#include "instr.h"
struct Var { std::string name; i64 v; const void* decl = nullptr; }; struct Ins { std::string name; unsigned kind; unsigned id; }; struct Model { std::vector<Var> vars; std::vector<Ins> ins; };
struct Fun { std::string name; unsigned kind; i64 v; };
typedef std::vector<Model> Stack;   // back = innermost
static const unsigned KN[] = {KI, KF, KB}; static const char SPEC[] = "ifb";
static std::string letter(const char* n) { std::string s = symstr(n, 1); vp_assume((unsigned)((u8)s[0] - 'a') < 3u); return s; }
static void look(cqasm::v3x::analyzer::Analyzer& a, const Stack& st, const std::vector<Fun>& fs, unsigned what) {
  std::string q = letter("query");
  if (what == 0) { int found = 0; i64 want = 0; const void* decl = nullptr; for (std::size_t i = st.size(); i-- && !found;) for (auto& v : st[i].vars) if (vp_fork(v.name[0] == q[0])) { found = 1; want = v.v; decl = v.decl; break; }
    for (int round = 0; round < 2; round++) { int got = 0; i64 v = 0; std::string msg; try { auto r = a.resolve_variable(q); got = 1; if (found && decl) { auto d = r->as_variable_ref(); vp_check(d && d->variable.get_ptr().get() == decl, "the innermost variable of a name is found"); vp_reach("declared variable"); continue; } auto c = r->as_const_int(); vp_check(c != nullptr, "the registered value is found"); if (c) { v = c->value; c->value = ~c->value; } } catch (const resolver::NameResolutionFailure& e) { got = 0; msg = e.what(); }
      vp_check(got == found, "a variable is visible in its scope and the scopes inside it, and nowhere else"); if (got && found) vp_check(v == want, "the innermost variable of a name is found"); if (!got) check_same(msg, "Error: failed to resolve variable '" + q + "'", "an unknown variable is named"); vp_reach(found ? "variable" : "no variable"); } return; }
  unsigned k = choose("argument", 3); Arg arg = mkarg("arg", KN[k], false); values::Values args; args.add(arg.v);
  if (what == 1) { int want = -1; unsigned wk = 0; for (std::size_t i = st.size(); i-- && want < 0;) for (std::size_t j = st[i].ins.size(); j-- && want < 0;) { auto& x = st[i].ins[j]; if (promotes(KN[k], KN[x.kind]) && vp_fork(x.name[0] == q[0])) { want = (int)x.id; wk = x.kind; } }
    bool got = false; std::string name; try { ct::One<semantic::Instruction> r; bool asgate = false; if (vp_fork(symb("gate"))) { asgate = true; auto g = ct::make<semantic::Gate>(std::string("g")); r = a.resolve_instruction(q, g, args); } else r = a.resolve_instruction(q, args); got = true; auto gi = r->as_gate_instruction(); auto ni = r->as_non_gate_instruction(); vp_check((gi != nullptr) == asgate && (ni != nullptr) != asgate, "gates and other instructions are told apart"); auto& ref = gi ? gi->instruction_ref : ni->instruction_ref; auto& ops = gi ? gi->operands : ni->operands; vp_check(!ref.empty(), "an instruction is found"); vp_check(ref->name == q && ref->operand_types.size() == 1, "the innermost applicable instruction of a name is found"); if (want >= 0 && ref->operand_types.size() == 1) { auto& t = *ref->operand_types[0]; vp_check((wk == 0 ? t.as_int() != nullptr : wk == 1 ? t.as_float() != nullptr : t.as_bool() != nullptr), "the innermost applicable instruction of a name is found"); vp_check(ops.size() == 1, "the operands are kept"); if (ops.size() == 1) check_promoted(ops[0], arg, KN[wk], "the operands are promoted"); } } catch (const resolver::ResolutionFailure&) { got = false; }
    vp_check(got == (want >= 0), "an instruction is visible in its scope and the scopes inside it, and nowhere else"); vp_reach(got ? "instruction" : "no instruction"); return; }
  bool any = false; int want = -1; for (std::size_t j = fs.size(); j-- && want < 0;) if (vp_fork(fs[j].name[0] == q[0])) { any = true; if (promotes(KN[k], KN[fs[j].kind])) want = (int)j; } (void)any;
  int got = 0; i64 v = 0; try { auto r = a.resolve_function(q, args); got = 1; if (auto c = r->as_const_int()) v = c->value; } catch (const resolver::NameResolutionFailure&) { got = 2; } catch (const resolver::OverloadResolutionFailure&) { got = 3; }
  vp_check((got == 1) == (want >= 0), "functions are found from every scope"); if (got == 1 && want >= 0) vp_check(v == fs[want].v, "the last applicable function is called"); if (got != 1 && want < 0) vp_check((got == 3) == any, "an unknown function and one that is not applicable are told apart"); vp_reach(got == 1 ? "function" : "no function"); }
extern "C" void vp_main() {
  unsigned steps = vp_param("STEPS", 4), what = vp_param("WHAT", 0), part = vp_param("PART", 0);
  if (part == 1) { // a program analysed in an inner scope
    auto a = default_analyzer("3.0"); unsigned depth = choose("depth", 3); static const char* N[] = {"pi", "true", "q", "tau"}; i64 outer = (i64)sym64("outer"); for (unsigned i = 0; i < depth; i++) { if (i == 0) a.register_variable("q", ct::make<values::ConstInt>(outer)); a.push_scope(); } unsigned k = choose("name", 4); std::string n = N[k]; bool clash = depth ? false : k != 2;
    auto p = program(); p->block->statements.add(declare(n, "qubit")); p->block->statements.add(gate("X", {}, {ident(n)})); Ex par = lit((i64)outer); if (depth && k != 2) par = ident("q"); p->block->statements.add(gate("Rx", {par}, {ident(n)})); auto r = a.analyze(*p); vp_check(r.errors.empty() == !clash, "a name of an outer scope may be declared again"); if (r.root.empty()) { vp_fail("there is a tree"); return; }
    if (clash) { vp_check(r.errors.size() == 3 && r.root->variables.empty(), "a name is declared once in its scope"); vp_reach("redeclared"); return; } vp_check(r.root->variables.size() == 1 && r.root->block->statements.size() == 2, "the program is kept"); if (r.root->variables.size() != 1 || r.root->block->statements.size() != 2) return; vp_check(r.root->variables[0]->name == n, "the program is kept"); for (unsigned i = 0; i < 2; i++) { auto g = r.root->block->statements[i]->as_gate_instruction(); auto v = g && g->operands.size() == 1 ? g->operands[0]->as_variable_ref() : nullptr; vp_check(v && v->variable.get_ptr() == r.root->variables[0].get_ptr(), "the innermost variable of a name is meant"); if (i && g && g->gate->parameters.size() == 1) { auto f = g->gate->parameters[0]->as_const_float(); vp_check(f && f->value == (double)outer, "an outer variable is visible inside"); } } auto again = a.analyze(*p); vp_check(again.errors.empty() && !again.root.empty() && again.root->variables.size() == 1, "analysing leaves the scopes alone");
    for (unsigned i = 0; i < depth; i++) a.pop_scope(); auto v = a.resolve_variable("pi"); vp_check(v->as_const_float() != nullptr, "leaving a scope brings back what was visible before"); vp_reach("inner program"); return; }
  cqasm::v3x::analyzer::Analyzer a; Stack st(1); std::vector<ct::One<semantic::Variable>> kept; std::vector<Fun> fs;
  for (unsigned i = 0; i < steps; i++) {
    unsigned op = choose("operation", 4);
    if (op == 0) { a.push_scope(); st.push_back({}); } else if (op == 1) { if (st.size() < 2) return; a.pop_scope(); st.pop_back(); }
    else if (op == 2) { cqasm::v3x::analyzer::Analyzer b = a; a = b; std::string n = letter("copied"); b.register_variable(n + "x", ct::make<values::ConstInt>(1)); if (what == 0) try { b.register_variable(n, ct::make<values::ConstInt>(2)); } catch (const resolver::NameResolutionFailure&) { } b.push_scope(); vp_reach("copy"); }   // what happens to a copy is of no concern
    else { std::string n = letter("name");
      if (what == 0) { bool dup = false; for (auto& v : st.back().vars) if (vp_fork(v.name[0] == n[0])) dup = true; i64 v = (i64)sym64("value"); bool threw = false; std::string msg; ct::One<semantic::Variable> decl; if (vp_param("DECLARED", 0) && vp_fork(symb("declared"))) { decl = ct::make<semantic::Variable>(n, ct::make<types::Qubit>()); kept.push_back(decl); }
        try { if (decl.empty()) a.register_variable(n, ct::make<values::ConstInt>(v)); else { a.register_variable(n, ct::make<values::VariableRef>(decl)); a.add_variable_to_current_scope(decl); } } catch (const resolver::NameResolutionFailure& e) { threw = true; msg = e.what(); } vp_check(threw == dup, "a name is declared once in its scope"); if (threw) { check_same(msg, "Error: trying to redeclare variable '" + n + "'", "the redeclared variable is named"); vp_reach("redeclared"); } if (!dup) st.back().vars.push_back({n, v, decl.empty() ? nullptr : decl.get_ptr().get()}); }
      else if (what == 1) { unsigned k = choose("operand", 3); a.register_instruction(n, std::string(1, SPEC[k])); st.back().ins.push_back({n, k, i}); }
      else { unsigned k = choose("parameter", 3); i64 v = (i64)sym64("value"); a.register_consteval_core_function(n, std::string(1, SPEC[k]), [v](const values::Values&) -> values::Value { return ct::make<values::ConstInt>(v); }); fs.push_back({n, k, v}); } } }
  look(a, st, fs, what); }
