// Literals in programs: values kept, or reported out of range.
#include "text.h"
#include <cstdlib>
__attribute__((noinline, optnone)) static double reference(const char* s) { return std::strtod(s, nullptr); }
extern "C" void vp_main() {
  unsigned kind = vp_param("KIND", 0), where = vp_param("WHERE", 0), len = vp_param("LEN", 3), nsym = vp_param("SYM", 99), ind = vp_param("INDENT", 0);
  std::string lit, pre, post; unsigned __int128 v = 0; bool over = false, truth = false;
  if (kind == 0) { // integers
    for (unsigned i = 0; i < len; i++) { u8 c = i + nsym >= len ? sym8("digit") : (u8)"9223372036854775807"[i % 19]; vp_assume(is_digit(c)); lit.push_back((char)c); }
    static const char* MAX = "9223372036854775807"; bool o = false; for (unsigned i = 0; i < len; i++) { unsigned d = (u8)lit[len - 1 - i] - '0'; if (i < 19) o = (d > (unsigned)(MAX[18 - i] - '0')) | ((d == (unsigned)(MAX[18 - i] - '0')) & o); else o = o | (d != 0); }
    if (len < 19) o = false;
    over = vp_fork(o); v = vp_decimal(lit.data(), lit.size());
  } else if (kind == 1) { // booleans and what only looks like one
    static const char* B[] = {"true", "false", "True", "FALSE", "truee", "fals", "true_", "t"}; unsigned k = choose("word", 8); lit = B[k]; truth = k == 0; over = k >= 2;
  } else if (kind == 3) { // the limits of the range
    static const char* B[] = {"1.7976931348623157e308", "1.e308", "2.5e-308", "0.0", "0.e400", "000000000000000000000000000000000000000000.5", "123456789012345678901234567890.0", "1.7976931348623159e308", "1.e309", "9.e99999999999999999999"}; unsigned k = choose("word", 10); lit = B[k]; over = k >= 7;
  } else { // floating point: digits in the places given by FORM
    static const char* F[] = {"d.d", "dd.ddd", ".dd", "d.", "ddd.", "d.de5", "d.dE-0d", "d.e+1d", ".de1", "0.ddde-17", "ddddddd.ddddddd", "dd.E2"}; for (const char* f = F[vp_param("FORM", 0)]; *f; f++) { u8 c = *f == 'd' ? sym8("digit") : (u8)*f; if (*f == 'd') vp_assume(is_digit(c)); lit.push_back((char)c); } }
  std::string space(ind, ' '); static const char* PRE[] = {"version 3.0\nRx(", "version 3.0\nqubit[", "version 3.0\nX q[", "version ", "version 3.", "version 3.0; X q[0:", "version 3.0; qubit q\n\nwait(", "version 3.0\npow(", "version 3.0; Rx(1+"}; static const char* POST[] = {") q", "] q", "] ", "", "", "]", ") q", ").X q", ") q"};
  pre = std::string(PRE[where]) + (where == 4 ? "" : space); post = POST[where]; u32 line = 1, col = 1; for (char c : pre) { if (c == '\n') { line++; col = 1; } else col++; }
  auto r = pa::parse_string(pre + lit + post, FileName{}); auto p = program_of(r); vp_observe("errors", r.errors.size());
  if (kind == 1) { vp_check(r.errors.empty(), "the text is a program"); if (!p) return; auto g = p->block->statements[0]->as_gate_instruction(); auto b = g->gate->parameters->items[0]->as_boolean_literal(); vp_check((b != nullptr) == !over, "exactly true and false are boolean literals"); if (b) { vp_check(b->value == truth, "a boolean literal denotes its truth value"); vp_reach("boolean"); } vp_check(symb("any") | (b != nullptr) == !over, "reached"); return; }
  vp_check(r.errors.empty() == !over, over ? "a literal that does not fit is an error" : "a literal that fits is accepted");
  if (over) { vp_reach("out of range"); vp_check(r.errors.size() == 1, "one error"); if (r.errors.size() == 1) { SL l; l.range.first.line = l.range.last.line = line; l.range.first.column = l.range.last.column = col; std::string t = r.errors[0].what(), w = "Error at " + loc_text(l) + ": "; vp_check(t.size() >= w.size(), "the error is located at the literal"); if (t.size() >= w.size()) check_same(t.substr(0, w.size()), w, "the error is located at the literal"); } return; }
  if (!p) return; sy::Expression* e = nullptr; i64 got = 0; auto& st = p->block->statements; auto items = p->version->items; bool have = true;
  if (where == 3 || where == 4) { vp_check(items.size() == (where == 3 ? 1u : 2u) && (where == 3 || items[0] == 3), "the version has the components written"); if (items.size() != (where == 3 ? 1u : 2u)) return; got = items.back(); vp_check(equal((u64)got, (u64)v), "a version component denotes its decimal value"); vp_reach("version"); return; }
  std::size_t k = where == 6 ? 1 : 0; vp_check(st.size() == k + 1, "the statement is there"); if (st.size() != k + 1) return; auto s = st[k];
  if (where == 1) { auto x = s->as_variable(); if (x && !x->typ->size.empty()) e = x->typ->size.get_ptr().get(); } else if (where == 6) { auto n = s->as_non_gate_instruction(); if (n && !n->parameters.empty() && n->parameters->items.size() == 1) e = &*n->parameters->items[0]; } else { auto g = s->as_gate_instruction(); if (g) { if (where == 0 || where == 7) { if (g->gate->parameters->items.size() == 1) e = &*g->gate->parameters->items[0]; } else if (where == 8) { auto a = g->gate->parameters->items[0]->as_addition_expression(); if (a) e = &*a->rhs; } else { auto x = g->operands->items[0]->as_index(); if (x) { auto it = x->indices->items[0]; if (auto a = it->as_index_item()) e = &*a->index; else if (auto b = it->as_index_range()) e = &*b->last; } } } }
  vp_check(e != nullptr, "the literal is where it was written"); if (!e) return; vp_reach("in range");
  if (kind == 0) { auto i = e->as_integer_literal(); vp_check(i != nullptr, "an integer literal is an integer literal"); if (i) vp_check(equal((u64)i->value, (u64)v), "an integer literal denotes its decimal value"); }
  else { auto f = e->as_float_literal(); vp_check(f != nullptr, "a floating-point literal is a floating-point literal"); if (f) { vp_check(bits(f->value) == bits(reference(lit.c_str())), "a floating-point literal is converted whole"); vp_reach("float"); } }
}
