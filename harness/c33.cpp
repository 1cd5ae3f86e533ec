// Locations of syntax nodes and of syntax errors.
#include "text.h"
#include "ast.h"
#include <antlr4-runtime.h>
#include "libqasm/v3x/CqasmLexer.h"
#include "libqasm/v3x/CqasmParser.h"
#include "libqasm/v3x/antlr_custom_error_listener.hpp"
#include "libqasm/v3x/syntactic_analyzer.hpp"
struct Place { std::string label; const SL* at; };
static std::vector<Place> places;
static void put(const char* l, const cqasm::tree::Annotatable& n) { places.push_back({l, n.get_annotation_ptr<SL>()}); }
static void walk(sy::Expression& e);
static void walk(sy::ExpressionList& l) { for (auto& x : l.items) walk(*x); }
template <class T> static bool two(T* x) { if (!x) return false; walk(*x->lhs); put("B", *x); walk(*x->rhs); return true; }
// in the order of the tokens
static void walk(sy::Expression& e) {
  if (e.as_identifier()) { put("I", e); return; } if (e.as_boolean_literal() || e.as_integer_literal() || e.as_float_literal()) { put("L", e); return; }
  if (auto x = e.as_unary_minus_expression()) { put("U", e); walk(*x->expr); return; } if (auto x = e.as_bitwise_not_expression()) { put("U", e); walk(*x->expr); return; } if (auto x = e.as_logical_not_expression()) { put("U", e); walk(*x->expr); return; }
  if (auto x = e.as_ternary_conditional_expression()) { walk(*x->cond); put("Q", e); walk(*x->if_true); walk(*x->if_false); return; }
  if (auto x = e.as_function_call()) { put("F", e); if (!x->arguments.empty()) walk(*x->arguments); return; }
  if (auto x = e.as_index()) { put("X", e); for (auto& i : x->indices->items) { if (auto a = i->as_index_item()) walk(*a->index); else if (auto r = i->as_index_range()) { walk(*r->first); walk(*r->last); } } return; }
  bool ok = two(e.as_power_expression()) || two(e.as_product_expression()) || two(e.as_division_expression()) || two(e.as_modulo_expression()) || two(e.as_addition_expression()) || two(e.as_subtraction_expression()) || two(e.as_shift_left_expression()) || two(e.as_shift_right_expression()) || two(e.as_cmp_gt_expression()) || two(e.as_cmp_lt_expression()) || two(e.as_cmp_ge_expression()) || two(e.as_cmp_le_expression()) || two(e.as_cmp_eq_expression()) || two(e.as_cmp_ne_expression())
    || two(e.as_bitwise_and_expression()) || two(e.as_bitwise_xor_expression()) || two(e.as_bitwise_or_expression()) || two(e.as_logical_and_expression()) || two(e.as_logical_xor_expression()) || two(e.as_logical_or_expression());
  vp_check(ok, "an expression is of a known kind"); }
static void walk(sy::Gate& g) { put("G", g); walk(*g.parameters); if (!g.gate.empty()) walk(*g.gate); }
static void walk(sy::Program& p) { put("W", *p.version); for (auto& s : p.block->statements) {
    if (auto v = s->as_variable()) { put("T", *v->typ); put("V", *v); } else if (auto g = s->as_gate_instruction()) { put("S", *g); walk(*g->gate); walk(*g->operands); }
    else if (auto n = s->as_non_gate_instruction()) { if (n->operands->items.size() == 2) walk(*n->operands->items[0]); put("N", *n); if (!n->parameters.empty()) walk(*n->parameters); if (n->operands->items.size()) walk(*n->operands->items[n->operands->items.size() - 1]); } } }
// tokens: L|text gives a node labelled L; E|] ends the type begun before; SG| begins an instruction and its gate
static const char* SRC[] = {
  "version W|3.0 ; T|qubit V|qq ; T|bit [ 12 E|] V|b",
  "version W|3 ; SG|pow ( I|a B|+ L|10 ) . G|ctrl . G|inv . G|Rzz ( I|c , F|sin ( U|- I|dd ) ) X|q [ L|0 , I|e : L|12 ] , I|hh",
  "version W|3.0 ; X|bb [ I|i ] = N|measure ( U|~ L|1.5 , L|true ) I|qqq ; N|reset I|q ; N|init X|rr [ L|1 ] ; N|barrier I|q ; N|wait ( L|100 B|** L|2 ) I|q",
  "version W|3.0 ; SG|Rx ( I|a B|<< I|b B|>= I|cc B|&& U|! I|d Q|? L|false : I|e B|^^ I|f B|!= I|g ) ( I|x B|% I|yy ) B|/ I|z",
  "version W|3.0 ; asm ( id ) '''raw\ntext''' ; SG|H I|q ; T|qubit [ 3 E|] V|abc ; asm ( id2 ) '''x''' ; N|reset I|abc",
  "version W|3.1 ; SG|X ( I|a B|>> I|b B|> I|c B|== L|.5e1 ) F|f ( ) , U|- U|~ I|q , F|g ( F|h ( L|1 ) B|- L|1 , X|v [ L|2 : L|3 ] ) , I|a B|| I|b , I|a B|& I|b , I|a B|^ I|b , I|a B||| I|b , I|a B|<= I|b , I|a B|< I|b , I|a B|* I|b",
};
struct Tk { std::string label, text; u32 line, col; };
static std::vector<Tk> tokens(const char* s) { std::vector<Tk> r; std::string cur; bool raw = false; for (const char* p = s;; p++) { if (*p == '\'' && p[1] == '\'' && p[2] == '\'') { raw = !raw; cur += "'''"; p += 2; continue; } if (*p && (*p != ' ' || raw)) { cur += *p; continue; } if (!cur.empty()) { std::size_t k = cur.find('|'); Tk t; t.line = t.col = 0; if (k == std::string::npos || k == 0 || cur[0] < 'A' || cur[0] > 'Z') t.text = cur; else { t.label = cur.substr(0, k); t.text = cur.substr(k + 1); } r.push_back(t); cur.clear(); } if (!*p) break; } return r; }
static bool word(char c) { return is_digit((u8)c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '.' || (u8)c >= 0x80; }
static FileName file() { unsigned k = choose("file", 3); if (!k) return FileName{}; return FileName{symstr("name", k - 1)}; }
static void compare(const std::vector<Tk>& ts, const FileName& fn, sy::Program& p) {
  std::vector<std::pair<std::string, SL>> want; SL* type = nullptr; std::size_t ti = 0; (void)type;
  for (auto& t : ts) { if (t.label.empty()) continue; SL x; if (fn && !fn->empty()) x.file_name = *fn; x.range.first.line = x.range.last.line = t.line; x.range.first.column = t.col; x.range.last.column = t.col + (u32)t.text.size();
    if (t.label == "E") { want[ti].second.range.last = x.range.last; continue; } for (char c : t.label) { if (c == 'T') ti = want.size(); want.push_back({std::string(1, c), x}); } }
  places.clear(); walk(p); vp_observe("nodes", places.size()); vp_check(places.size() == want.size(), "the nodes written are there"); if (places.size() != want.size()) return;
  for (std::size_t i = 0; i < want.size(); i++) { const SL* a = places[i].at; const SL& w = want[i].second; vp_check(places[i].label == want[i].first, "the nodes written are there"); vp_check(a != nullptr, "a node built from a token is located"); if (!a) continue;
    vp_check(a->range.first.line == w.range.first.line && a->range.first.column == w.range.first.column, "a node begins at its token"); vp_check(a->range.last.line == w.range.last.line && a->range.last.column == w.range.last.column, "a node ends after its token");
    vp_check(a->file_name.has_value() == w.file_name.has_value(), "a node is located in the given file"); if (a->file_name && w.file_name) vp_check(*a->file_name == *w.file_name, "a node is located in the given file"); } }
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0), src = vp_param("SRC", 0), gaps = vp_param("GAPS", 1);
  if (mode == 0) { // the position follows from the layout
    auto ts = tokens(SRC[src]); FileName fn = vp_param("FILE", 0) ? file() : FileName{"f.cq"}; static const char* GAP[] = {"", " ", "\t ", "/**/", "/* a\n b */ ", "/*\xc3\xa9\xe2\x82\xac*/"}; static const char* SEP[] = {"\n", ";", "\r\n", " ;\t", "\n\n \t", " // x ; y\n  ", ";\n/*\n*/\n"};
    std::vector<unsigned> gap(ts.size(), 1); unsigned sep = 0; if (vp_param("SEP", 0)) { sep = choose("separator", 7); for (auto& g : gap) g = 0; } else { std::size_t from = 1; for (unsigned g = 0; g < gaps; g++) { std::size_t at = from + choose("at", (unsigned)(ts.size() - from)); unsigned k = choose("gap", 6); gap[at] = k; from = at; if (at + 1 >= ts.size()) break; } }
    std::string text; u32 line = 1, col = 1; auto add = [&](const std::string& s) { text += s; for (std::size_t i = 0; i < s.size(); i++) if (s[i] == '\n') { line++; col = 1; } else if (((u8)s[i] & 0xc0) != 0x80) col++; };
    if (vp_param("SEP", 0)) { unsigned k = choose("first", 4); static const char* LEAD[] = {"", "  ", "\n\n", "/* c */\n\t"}; add(LEAD[k]); }
    for (std::size_t i = 0; i < ts.size(); i++) { auto& t = ts[i]; bool version = i == 1; unsigned k = gap[i]; if (i && t.text != ";" && ts[i - 1].text != ";") { if (version && k != 2) k = 1; if (!k && !text.empty() && (word(text.back()) || is_digit((u8)text.back())) && word(t.text[0])) k = 1; if (!text.empty() && text.back() == '/' && k > 2) k = 2; add(GAP[k]); } if (t.text == ";") { add(SEP[sep]); continue; } t.line = line; t.col = col; add(t.text); }
    // a letter of the names is arbitrary
    if (src == 0) { for (std::size_t i = 0; i + 1 < text.size(); i++) if (text[i] == 'q' && text[i + 1] == 'q') { u8 c = sym8("letter"); vp_assume((unsigned)(c - 'A') < 26u); text[i] = (char)c; break; } }
    auto r = pa::parse_string(text, fn); vp_check(r.errors.empty(), "the text is a program"); auto p = program_of(r); if (!p) return; compare(ts, fn, *p); vp_reach("layout"); return; }
  if (mode == 1) { // any position
    auto ts = tokens(SRC[src]); std::string text; for (auto& t : ts) text += (t.text == ";" ? "\n" : t.text) + (t.text == ";" ? "" : " "); FileName fn = file(); antlr4::ANTLRInputStream is(text); pa::CqasmLexer lexer(&is); antlr4::CommonTokenStream tokens(&lexer); std::size_t n = ts.size(); u32 pl = 0, pc = 0; (void)pl; (void)pc;
    for (std::size_t i = 0; i < n; i++) { auto t = tokens.get(i); u32 l = sym32("line"), c = sym32("column"); vp_assume(c < 0x7fffff00u); ts[i].line = l; ts[i].col = c + 1; t->setLine(l); t->setCharPositionInLine(c); }
    for (std::size_t i = 0, b = 0; i < n; i++) { if (ts[i].label == "T") b = i; if (ts[i].label == "E") vp_assume((ts[i].line > ts[b].line) | ((ts[i].line == ts[b].line) & (ts[i].col > ts[b].col + (u32)ts[b].text.size()))); }
    pa::CqasmParser parser(&tokens); auto ast = parser.program(); pa::SyntacticAnalyzer v(fn); auto any = v.visitProgram(ast); auto root = std::any_cast<sy::One<sy::Program>>(any); compare(ts, fn, *root); vp_reach("any position"); return; }
  if (mode == 2) { // reporting an error at a token
    FileName fn = file(); pa::AntlrCustomErrorListener l(fn); antlr4::ANTLRErrorListener& b = l; unsigned how = choose("how", 4), wide = vp_param("WIDE", 0); u32 line = wide == 1 ? sym32("line") : digit("line"), col = wide == 2 ? sym32("column") : digit("column"); vp_assume(line != 0); vp_assume(col < 0xffffff00u); std::string t = symstr("token", choose("length", vp_param("LEN", 3) + 1)); for (char c : t) vp_assume((u8)c < 0x80);
    if (fn) for (char c : *fn) vp_assume(c != 0);
    antlr4::ANTLRInputStream is(t); u32 n = (u32)t.size(); if (n == 0 && how == 0) return; antlr4::Token tok(&is, how == 1 ? antlr4::Token::EOF : 5, line, col, 0, n - 1, 0); bool threw = false; std::string what; SL w; if (fn && !fn->empty()) w.file_name = *fn; w.range.first.line = w.range.last.line = line; w.range.first.column = w.range.last.column = col + 1; if (how == 0) w.range.last.column += n;
    try { if (how < 2) b.syntaxError(nullptr, &tok, line, col, "msg", nullptr); else if (how == 2) b.syntaxError(nullptr, nullptr, line, col, "msg", nullptr); else l.syntaxError(line, col, "msg"); } catch (const Error& e) { threw = true; what = e.what(); }
    vp_check(threw, "a syntax error is reported"); check_same(what, "Error at " + loc_text(w) + ": msg", "a syntax error is located at the offending token"); static const char* R[] = {"token", "end of input", "no token", "value"}; vp_reach(R[how]); return; }
  // syntax errors in texts: the token after | cannot continue a program
  static const char* BAD[] = {"version 3.0\nX |; q", "version 3.0\nqubit [3 |q", "version 3.0\nX q[0|)", "version 3.0\n/* c */ Rx(1, |) q", "version 3.0;X q\n\n  |measure q", "|qubit q", "version 3.0\nX q |Y r", "version 3.0\nqubit[|true] q", "version 3.0\nX q |'''abc''' ", "version 3.0\nbarrier q |, r", "version 3.0\nb |reset q", "version 3.0\nX a |= measure q", "version 3.0\nasm(x) |raw ", "version 3.0\nX q[0:1|:2]",
    "version 3.0\nX q[$", "version 3.0\n  \t@", "version 3.0\nX q, $", "version $x", "version 3.0\n\n\t$", "version 3.0\nX q + $a",
    "version 3.0\nX q,|", "version 3.0\nX |", "version 3.0\nqubit[3] |", "version 3.0 ; X q[1,\t |"};
  unsigned nb = sizeof BAD / sizeof *BAD, lo = vp_param("LO", 0), k = lo + choose("case", vp_param("HI", nb) - lo); FileName fn = file(); if (fn) for (char c : *fn) vp_assume(c != 0);
  unsigned ind = choose("indent", 3); std::string t = std::string(BAD[k]), text, tail; std::size_t bar = t.find('|'); bool lexical = bar == std::string::npos; if (lexical) { bar = t.find('$'); if (bar == std::string::npos) bar = t.find('@'); } static const char* LEAD[] = {"", "\n", " \t"}; text = std::string(LEAD[ind]) + t.substr(0, bar); tail = t.substr(lexical ? bar : bar + 1); if (lexical && k != 15) { u8 c = sym8("byte"); static const char* NONE = "$@`\"\\#"; bool any = false; for (const char* x = NONE; *x; x++) any |= c == (u8)*x; vp_assume(any); tail[0] = (char)c; }
  u32 line = 1, col = 1; for (char c : text) { if (c == '\n') { line++; col = 1; } else col++; } u32 n = 0; while (n < tail.size() && tail[n] != ' ' && tail[n] != '\n') n++; if (!lexical && n && !(tail[0] >= 'a' && tail[0] <= 'z') && !(tail[0] >= 'A' && tail[0] <= 'Z')) n = tail[0] == '\'' ? n : 1; else { n = 0; while (n < tail.size() && word(tail[n])) n++; }
  auto r = pa::parse_string(text + tail, fn); vp_check(r.errors.size() == 1 && r.root.empty(), "a text that is not a program is one error and no tree"); if (r.errors.size() != 1) return; SL w; if (fn && !fn->empty()) w.file_name = *fn; w.range.first.line = w.range.last.line = line; w.range.first.column = col; w.range.last.column = col + (lexical ? 0 : n);
  std::string what = r.errors[0].what(), begin = "Error at " + loc_text(w) + ": "; vp_observe("length", what.size()); vp_check(what.size() > begin.size(), "an error says what is wrong"); if (what.size() > begin.size()) check_same(what.substr(0, begin.size()), begin, lexical ? "an error in the characters is located where they start" : "a syntax error is located at the first token that cannot continue a program"); vp_reach(lexical ? "characters" : tail.empty() ? "end of text" : "unexpected token"); }
