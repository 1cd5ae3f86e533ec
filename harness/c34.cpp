// Layout does not matter; exactly the texts of the language are programs.
#include "text.h"
typedef std::vector<std::string> Toks;
static bool letter(u8 c) { return (unsigned)((c | 32) - 'a') < 26u || c == '_'; }
static bool alnum(u8 c) { return letter(c) || is_digit(c); }
// ---- the language, written down independently of the grammar files: kinds of tokens
enum K { NL, COMMA_, COLON_, DOT_, EQ, LB, RB, LP, RP, BIN, SIGN, PRE, QUERY, KVERSION, KNUMBER, KMEASURE, KONE, KWAIT, KMOD, KPOW, KTYPE, KASM, BOOLEAN, INTEGER, FLOATING, NAME, RAW, QUOTES, BAD };
struct Scan { const std::string& t; std::vector<int> k; bool bad = false; explicit Scan(const std::string& x) : t(x) { run(); }
  u8 at(std::size_t i) const { return i < t.size() ? (u8)t[i] : 0; }
  std::size_t digits(std::size_t i) const { while (i < t.size() && is_digit((u8)t[i])) i++; return i; }
  std::size_t exponent(std::size_t i) const { if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { std::size_t j = i + 1; if (j < t.size() && (t[j] == '-' || t[j] == '+')) j++; if (j < t.size() && is_digit((u8)t[j])) return digits(j); } return i; }
  void run() { std::size_t i = 0, n = t.size(); bool version = false; while (i < n) { u8 c = (u8)t[i], d = at(i + 1);
      if (c == ' ' || c == '\t') { i++; continue; }
      if (version) { if (!is_digit(c)) { bad = true; return; } i = digits(i); if (i + 1 < n && t[i] == '.' && is_digit((u8)t[i + 1])) i = digits(i + 1); k.push_back(KNUMBER); version = false; continue; }
      if (c == '/' && d == '/' && i + 1 < n) { while (i < n && t[i] != '\n' && t[i] != '\r') i++; continue; }
      if (c == '/' && d == '*' && i + 1 < n) { std::size_t e = t.find("*/", i + 2); if (e != std::string::npos) { i = e + 2; continue; } k.push_back(BIN); i++; continue; }
      if (c == '\n' || c == ';') { k.push_back(NL); i++; continue; } if (c == '\r' && i + 1 < n && d == '\n') { k.push_back(NL); i += 2; continue; }
      if (is_digit(c) || (c == '.' && i + 1 < n && is_digit(d))) { std::size_t e = digits(i); bool f = false; if (e < n && t[e] == '.') { f = true; e = digits(e + 1); e = exponent(e); } k.push_back(f ? FLOATING : INTEGER); i = e; continue; }
      if (letter(c)) { std::size_t e = i; while (e < n && alnum((u8)t[e])) e++; std::size_t l = e - i; auto is = [&](const char* w) { std::size_t m = 0; for (; w[m]; m++) {} return l == m && t.compare(i, l, w) == 0; }; int r = NAME;
        if (is("version")) { r = KVERSION; version = true; } else if (is("measure")) r = KMEASURE; else if (is("reset") || is("init") || is("barrier")) r = KONE; else if (is("wait")) r = KWAIT; else if (is("inv") || is("ctrl")) r = KMOD; else if (is("pow")) r = KPOW; else if (is("qubit") || is("bit")) r = KTYPE; else if (is("asm")) r = KASM; else if (is("true") || is("false")) r = BOOLEAN; k.push_back(r); i = e; continue; }
      if (c == '\'') { if (i + 2 < n && d == '\'' && t[i + 2] == '\'') { std::size_t e = t.find("'''", i + 3); if (e != std::string::npos) { k.push_back(RAW); i = e + 3; } else { k.push_back(QUOTES); i += 3; } continue; } bad = true; return; }
      bool two = i + 1 < n; switch (c) { case ',': k.push_back(COMMA_); break; case ':': k.push_back(COLON_); break; case '.': k.push_back(DOT_); break; case '[': k.push_back(LB); break; case ']': k.push_back(RB); break; case '(': k.push_back(LP); break; case ')': k.push_back(RP); break; case '+': case '-': k.push_back(SIGN); break; case '~': k.push_back(PRE); break; case '?': k.push_back(QUERY); break;
        case '!': if (two && d == '=') { i++; k.push_back(BIN); } else k.push_back(PRE); break; case '=': if (two && d == '=') { i++; k.push_back(BIN); } else k.push_back(EQ); break;
        case '*': if (two && d == '*') i++; k.push_back(BIN); break; case '&': if (two && d == '&') i++; k.push_back(BIN); break; case '|': if (two && d == '|') i++; k.push_back(BIN); break; case '^': if (two && d == '^') i++; k.push_back(BIN); break;
        case '<': if (two && (d == '<' || d == '=')) i++; k.push_back(BIN); break; case '>': if (two && (d == '>' || d == '=')) i++; k.push_back(BIN); break; case '/': case '%': k.push_back(BIN); break; default: bad = true; return; }
      i++; } } };
struct Match { const std::vector<int>& k; explicit Match(const std::vector<int>& x) : k(x) {} enum { NO = 1u << 30 };
  int at(unsigned i) const { return i < k.size() ? k[i] : -1; }
  unsigned want(unsigned i, int x) const { return i != NO && at(i) == x ? i + 1 : (unsigned)NO; }
  unsigned expr(unsigned i) const { if (i == NO) return NO; for (;;) { while (at(i) == SIGN || at(i) == PRE) i++; if (at(i) == LP) { i = want(expr(i + 1), RP); } else if (at(i) == NAME) { i++; if (at(i) == LP) i = at(i + 1) == RP ? i + 2 : want(list(i + 1), RP); else if (at(i) == LB) { i = entry(i + 1); while (i != NO && at(i) == COMMA_) i = entry(i + 1); i = want(i, RB); } } else if (at(i) == BOOLEAN || at(i) == INTEGER || at(i) == FLOATING) i++; else return NO;
      if (i == NO) return NO; if (at(i) == BIN || at(i) == SIGN) { i++; continue; } if (at(i) == QUERY) { i = want(expr(i + 1), COLON_); if (i == NO) return NO; continue; } return i; } }
  unsigned entry(unsigned i) const { i = expr(i); if (i != NO && at(i) == COLON_) i = expr(i + 1); return i; }
  unsigned list(unsigned i) const { i = expr(i); while (i != NO && at(i) == COMMA_) i = expr(i + 1); return i; }
  bool ends(unsigned i) const { return i != NO && (i >= k.size() || k[i] == NL); }
  unsigned pick(unsigned a, unsigned b) const { return ends(a) ? a : ends(b) ? b : (unsigned)NO; }
  unsigned gate(unsigned i) const { if (at(i) == KMOD) return gate(want(i + 1, DOT_)); if (at(i) == KPOW) return gate(want(want(expr(want(i + 1, LP)), RP), DOT_)); if (i == NO || at(i) != NAME) return NO; unsigned a = at(i + 1) == LP ? list(want(list(i + 2), RP)) : (unsigned)NO; return pick(a, list(i + 1)); }
  unsigned statement(unsigned i) const { int x = at(i); if (x == KTYPE) { i++; if (at(i) == LB) i = want(want(i + 1, INTEGER), RB); i = want(i, NAME); return ends(i) ? i : (unsigned)NO; } if (x == KASM) { i = want(want(want(want(i + 1, LP), NAME), RP), RAW); return ends(i) ? i : (unsigned)NO; } if (x == KONE) { i = expr(i + 1); return ends(i) ? i : (unsigned)NO; } if (x == KWAIT) { i = expr(want(expr(want(i + 1, LP)), RP)); return ends(i) ? i : (unsigned)NO; }
    if (x == KMOD || x == KPOW || x == NAME) { unsigned g = gate(i); if (ends(g)) return g; } unsigned m = want(want(expr(i), EQ), KMEASURE); if (m == NO) return NO; unsigned a = at(m) == LP ? expr(want(list(m + 1), RP)) : (unsigned)NO; return pick(a, expr(m)); }
  bool program() const { unsigned i = 0; while (at(i) == NL) i++; i = want(want(i, KVERSION), KNUMBER); if (i == NO) return false; for (;;) { if (i >= k.size()) return true; if (at(i) != NL) return false; while (at(i) == NL) i++; if (i >= k.size()) return true; i = statement(i); if (i == NO) return false; } } };
static bool is_program(const std::string& t) { Scan s(t); return !s.bad && Match(s.k).program(); }
// ---- layout
static const char* SRC[] = {
  "version 3.0 ; qubit [ 3 ] Q ; bit b ; Rx ( 1 / 2.0 ) Q [ 0 : 1 , 2 ] ; b = measure ( a ) Q",
  "version 3 ; pow ( A ** B ) . ctrl . inv . Rzz ( c , sin ( - d ) ) q [ 0 ] , r ; barrier q ; wait ( 3 ) q",
  "version 3.0 ; asm ( id ) '''r\n // ; x''' ; reset Q ; init q [ i ? 1 : 2 ] ; X q , f ( )",
  "version 3.0 ; Rn ( a << b >= C , ! true ^^ ~ e , i != g && h || i & j | k ^ l % m ) q" };
static Toks tokens(const char* s) { Toks r; std::string cur; bool raw = false; for (const char* p = s;; p++) { if (*p == '\'' && p[1] == '\'' && p[2] == '\'') { raw = !raw; cur += "'''"; p += 2; continue; } if (*p && (*p != ' ' || raw)) { cur += *p; continue; } if (!cur.empty()) { r.push_back(cur); cur.clear(); } if (!*p) break; } return r; }
static char upper(const char* n) { u8 c = sym8(n); vp_assume((unsigned)(c - 'A') < 26u); return (char)c; }
static bool same_blank = false;
static char blank() { static char kept = 0; if (same_blank && kept) return kept; u8 c = sym8("blank"); vp_assume((c == ' ') | (c == '\t')); return kept = (char)c; }
static std::string inside(bool line) { if (same_blank) return line ? "/*" : "//"; u8 a = sym8("a"), b = sym8("b"); vp_assume((a < 0x80) & (b < 0x80)); if (line) vp_assume((a != '\n') & (b != '\n') & (a != '\r') & (b != '\r')); else vp_assume((a != '*') | (b != '/')); std::string s; s += (char)a; s += (char)b; return s; }
static std::string wide() { if (same_blank) return "\xc3\xa9"; u8 a = sym8("a"), b = sym8("b"); vp_assume((a >= 0xc2) & (a < 0xe0) & (b >= 0x80) & (b < 0xc0)); std::string s; s += (char)a; s += (char)b; return s; }
static std::string gap(unsigned k) { switch (k) { case 0: return ""; case 1: return std::string(1, blank()); case 2: return std::string(1, blank()) + std::string(1, blank()); case 3: return "/*" + inside(false) + "*/"; case 4: return "/* \n" + wide() + "*/ "; default: return "/**//* x */\t/***/"; } }
static std::string separator(unsigned k) { switch (k) { case 0: return "\n"; case 1: return ";"; case 2: return "\r\n"; case 3: return std::string(1, blank()) + ";" + std::string(1, blank()); case 4: return "\n\n" + std::string(1, blank()) + "\n"; case 5: return "//" + inside(true) + "\n"; case 6: return ";;\r\n;"; case 7: return " // " + wide() + "\r\n\t"; default: return "\n/*" + inside(false) + "*/;"; } }
static bool word(char c) { return alnum((u8)c) || c == '.'; }
static std::string render(const Toks& ts, const std::vector<unsigned>& g, const std::vector<unsigned>& sep) { std::string t; for (std::size_t i = 0; i < ts.size(); i++) { if (ts[i] == ";") { t += separator(sep[i]); continue; } if (i && ts[i - 1] != ";") { unsigned k = g[i]; if (i == 1 && ts[0] == "version" && (k == 0 || k > 2)) k = 1; if (!k && word(ts[i - 1].back()) && word(ts[i][0])) k = 1; if (!k && (u8)(ts[i - 1].back() | 0) == '/' ) k = 1; if (k > 2 && ts[i - 1].back() == '/') t += " "; t += k == 99 ? std::string(" ") : gap(k); } t += ts[i]; } return t; }
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0), src = vp_param("SRC", 0), kinds = vp_param("KINDS", 6);
  if (mode == 0) { auto ts = tokens(SRC[src]); for (auto& t : ts) if (t.size() == 1 && t[0] >= 'A' && t[0] <= 'Z' && t != "X") t[0] = upper("letter"); std::vector<unsigned> g(ts.size(), 99), sp(ts.size(), 0); std::string plain = render(ts, g, sp); unsigned how = vp_param("HOW", 0), n = (unsigned)ts.size();
    std::string lead, tail; if (how == 0) { for (unsigned r = 0, from = 1; r < vp_param("GAPS", 1) && from < n; r++) { unsigned at = from + choose("at", n - from); if (ts[at] == ";") sp[at] = choose("separator", 9); else g[at] = choose("gap", kinds); from = at + 1; } } else if (how == 1) { same_blank = true; unsigned all = choose("all", kinds), s = choose("separator", 9); for (auto& x : g) x = all; for (auto& x : sp) x = s; } else { static const unsigned L[] = {9, 0, 4, 5, 8}; unsigned l = choose("lead", 5), k = choose("end", 11); if (l) lead = separator(L[l]); tail = k < 9 ? separator(k) : k == 9 ? "//" + inside(true) : " /*" + inside(false) + "*/"; }
    std::string other = lead + render(ts, g, sp) + tail; auto a = pa::parse_string(plain, FileName{}), b = pa::parse_string(other, FileName{}); vp_check(a.errors.empty(), "the text is a program"); vp_check(b.errors.empty(), "a program with another layout is a program"); std::string x = sx(a), y = sx(b); vp_observe("length", x.size()); check_same(y, x, "layout does not change the program"); vp_reach("layout"); return; }
  if (mode == 1) { // raw text is kept
    std::string body; unsigned n = vp_param("LEN", 3); for (unsigned i = 0; i < n; i++) { u8 c = sym8("byte"); vp_assume(c < 0x80); body += (char)c; } std::string whole = "'''" + body + "'''"; bool early = false; for (std::size_t i = 3; i + 3 < whole.size() && i < 3 + n; i++) early |= (whole[i] == '\'') & (whole[i + 1] == '\'') & (whole[i + 2] == '\''); vp_assume(!early);
    std::string t = "version 3.0\nasm(" + std::string(1, upper("name")) + ")" + (vp_param("GAP", 0) ? " /* ''' */\t" : "") + whole; bool more = symb("more"); if (vp_fork(more)) t += "; X q // '''";
    auto r = pa::parse_string(t, FileName{}); auto p = program_of(r); vp_check(p != nullptr, "the text is a program"); if (!p) return; vp_check(p->block->statements.size() == (more ? 2u : 1u), "the statements are there"); if (p->block->statements.empty()) return; auto s = p->block->statements[0]->as_asm_declaration(); vp_check(s != nullptr, "an assembly declaration is one"); if (!s) return; std::string code = s->backend_code; vp_observe("length", code.size()); check_same(code, body, "layout inside raw text is kept"); vp_reach("raw text"); return; }
  // texts around programs
  std::string t; if (mode == 2) { static const char* PROG[] = {"version 3.0\nqubit[3] q;X q", "\nversion 3;Rx(1/2.0)q[0:1,2] // c", "version 3.0;b=measure(a) q\nreset q[1]", "version 3.0\npow(2).inv.X q,r/**/", "version 3.1\nwait(a?b:c)q;bit c", "version 3.0;asm(x)'''y'''\ninit f(1,2)", "version 3.0\nRx(-(1)<2) ~q", "version 3.0\nbarrier !true&&2.e5"};
    t = PROG[src]; unsigned lo = vp_param("FROM", 0), hi = vp_param("TO", 99); if (hi > t.size()) hi = (unsigned)t.size(); if (lo >= hi) return; unsigned at = lo + choose("at", hi - lo), op = vp_param("OP", 0); u8 c = sym8("byte"); vp_assume(c < 0x80); if (op == 0) t[at] = (char)c; else if (op == 1) t.insert(at, 1, (char)c); else { t.erase(at, 1 + choose("more", 3)); vp_assume(c == 0); } }
  else if (mode == 3) { static const char* PRE[] = {"version 3.0\nX q", "version 3.0\nqubit", "", "version 3.0", "version 3.0\n", "version 3.0;X q[", "version 3.0;Rx(a", "version 3.0;a=", "version 3.0;pow(2)", "version "}; static const char* POST[] = {"", "q", "version 3.0\nX q", "\nX q", "", "]", ") q", "measure q", "X q", "3.0"}; t = PRE[src]; for (unsigned i = 0; i < vp_param("LEN", 2); i++) { u8 c = sym8("byte"); vp_assume(c < 0x80); t += (char)c; } t += POST[src]; }
  else { // sequences of tokens
    static const char* TOK[] = {"q", "1", ",", "(", ")", "[", "]", "=", "measure", ".", ":", "-", "!", "*", "?", "inv", "pow", "reset", "wait", "qubit", "2.5", "true", "''''''", "asm", "\n", "version"}; static const char* PRE[] = {"", "X q ", "X q [ ", "Rx ( ", "wait ( 1 ", "b = ", "pow ( 2 ) ", "qubit ", "asm ( ", "a ? "}; t = "version 3.0\n" + std::string(PRE[src]); for (unsigned i = 0; i < vp_param("LEN", 3); i++) { t += TOK[choose("token", 26)]; t += ' '; } static const char* POST[] = {"", "q", ") q", "] "}; t += POST[vp_param("POST", 0)]; u8 c = sym8("blank"); vp_assume((c == ' ') | (c == '\t')); t += (char)c; }
  auto r = pa::parse_string(t, FileName{}); bool in = is_program(t); vp_observe("errors", r.errors.size()); vp_check(r.errors.empty() == in, in ? "a text of the language is a program" : "a text that is not a program is an error"); vp_check(r.root.empty() == !r.errors.empty(), "there is a tree exactly when there is no error"); vp_check(in || sx(r) == "error", "a text that is not a program gives no tree"); vp_check(symb("any") | (r.errors.empty() == in), "decided"); vp_reach(in ? "program" : "not a program"); }
