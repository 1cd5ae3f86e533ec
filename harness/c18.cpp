// Predefined names and functions.
#define NOPARSE
#include <cmath>
#include "ops.h"
#define F1(N) __attribute__((noinline, optnone)) static double m_##N(double x) { return std::N(x); }
F1(sqrt) F1(exp) F1(log) F1(sin) F1(cos) F1(tan) F1(sinh) F1(cosh) F1(tanh) F1(asin) F1(acos) F1(atan) F1(asinh) F1(acosh) F1(atanh)
static u64 want(unsigned f, u64 raw) { double x = asdouble(raw);
  switch (f) {
#define C(K, N) case K: return bits(m_##N(x));
    C(0, sqrt) C(1, exp) C(2, log) C(3, sin) C(4, cos) C(5, tan) C(6, sinh) C(7, cosh) C(8, tanh) C(9, asin) C(10, acos) C(11, atan) C(12, asinh) C(13, acosh) C(14, atanh)
    default: return raw & 0x7fffffffffffffffull; } }
static const char* const PRE[] = {"true", "false", "pi", "eu", "tau"};
static const u64 PREV[] = {1, 0, 0x400921fb54442d18ull, 0x4005bf0a8b145769ull, 0x401921fb54442d18ull};
static int known(const std::string& s) { for (int i = 0; i < 5; i++) if (s.size() == std::strlen(PRE[i]) && s == PRE[i]) return i; return -1; }
static int fn(const std::string& s) { for (int i = 0; i < NFN; i++) if (s == FN[i]) return i; return -1; }
static void check_text(const Result& r, const std::string& name) { vp_check(r.errors.size() == 1, "an unknown name is one error"); if (r.errors.size() == 1) vp_check(std::string(r.errors[0].what()).find(name) != std::string::npos, "the error names what is unknown"); }
static void is_pre(const values::Value& v, int k) {
  vp_check(!v.empty() && kind_of(values::type_of(v)) == (k < 2 ? KB : KF), "a predefined name has its documented type"); if (v.empty()) return;
  if (k < 2) { auto b = v->as_const_bool(); if (b) vp_check(b->value == (PREV[k] != 0), "true and false denote the truth values"); } else { auto f = v->as_const_float(); if (f) vp_check(bits(f->value) == PREV[k], "pi, eu and tau denote their mathematical values"); } }
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0);
  if (mode == 0) { // a function of a constant
    unsigned f = vp_param("F", 0); static const unsigned KK[] = {KF, KI, KB}; Arg a = mkarg("x", KK[choose("kind", 3)], false);
    if (a.kind == KB) a.raw = vp_concretize(a.raw);   // both sides apply the function to the same constant
    auto p = annotated(call(FN[f], {operand(a, "")})); Result r = analyse(p); vp_observe("errors", r.errors.size());
    vp_check(r.errors.empty(), "a function of a constant has a value"); values::Value v = recorded(r); vp_check(!v.empty(), "the value is recorded"); if (v.empty()) return;
    if (f == FABS && a.kind != KF) { vp_reach("integer abs"); auto i = v->as_const_int(); vp_check(i != nullptr, "the absolute value of an integer is an integer"); if (i) vp_check((u64)i->value == ((i64)a.raw < 0 && a.kind == KI ? 0 - a.raw : a.raw), "the absolute value is the argument without its sign"); return; }
    vp_reach("function"); auto d = v->as_const_float(); vp_check(d != nullptr, "a mathematical function gives a float"); if (d) vp_check(bits(d->value) == want(f, todouble(a)), "a function denotes the mathematical function of its name");
  } else if (mode == 1) { // a variable name of arbitrary letters
    std::string n = symstr("name", vp_param("LEN", 3)); for (char c : n) vp_assume(is_alpha((u8)c)); int k = known(n);
    auto p = annotated(ident(n)); Result r = analyse(p); vp_observe("errors", r.errors.size());
    if (k >= 0) { vp_reach("predefined"); vp_check(r.errors.empty(), "a predefined name is known"); is_pre(recorded(r), k); }
    else if (n == "bt" || n == "qu" || n == "qs" || n == "bits") { vp_reach("declared"); vp_check(r.errors.empty(), "a declared name is known"); auto v = recorded(r); vp_check(!v.empty() && v->as_variable_ref() && v->as_variable_ref()->variable->name == n, "a declared name denotes its variable"); }
    else { vp_reach("unknown variable"); check_text(r, n); }
  } else if (mode == 2) { // a function name of arbitrary letters
    std::string n = symstr("name", vp_param("LEN", 3)); for (char c : n) vp_assume(is_alpha((u8)c)); int k = fn(n);
    auto p = annotated(call(n, {lit(0.5)})); Result r = analyse(p); vp_observe("errors", r.errors.size());
    if (k >= 0) { vp_reach("known function"); vp_check(r.errors.empty(), "a predefined function is known"); } else { vp_reach("unknown function"); check_text(r, n); }
  } else if (mode == 3) { // predefined names stay what they are
    unsigned k = choose("which", 5), t = choose("type", 2); auto p = program(); p->block->statements.add(declare(PRE[k], t ? "bit" : "qubit")); p->block->statements.add(declare("qu", "qubit"));
    auto x = gate("X", {}, {ident("qu")}); x->annotations.add(ct::make<sy::AnnotationData>(ident("i"), ident("o"), exlist({ident(PRE[k])}))); p->block->statements.add(x);
    Result r = analyse(p); vp_reach("redeclared"); vp_check(r.errors.size() == 1, "a predefined name cannot be declared"); is_pre(recorded(r), (int)k); vp_check(symb("any") | !r.errors.empty(), "a predefined name cannot be declared");
  } else { // number of arguments
    unsigned f = choose("f", NFN), n = choose("args", 4); Ex a[3] = {lit(0.5), lit(0.25), lit((i64)2)}; auto c = n == 0 ? call(FN[f], {}) : n == 1 ? call(FN[f], {a[0]}) : n == 2 ? call(FN[f], {a[0], a[1]}) : call(FN[f], {a[0], a[1], a[2]});
    auto p = annotated(c); Result r = analyse(p); vp_observe("errors", r.errors.size()); vp_reach("arity"); vp_check(r.errors.empty() == (n == 1), "a mathematical function takes one argument"); vp_check(symb("any") | (r.errors.size() <= 1), "one error");
  }
}
