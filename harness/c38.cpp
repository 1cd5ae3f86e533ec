// The syntax tree of a program against what is written: text and expected tree are made together.
#include "text.h"
struct E { std::string text, tree; };   // as written, as a tree (see text.h)
static std::string name() { u8 c = sym8("letter"); vp_assume((unsigned)(c - 'A') < 26u); return std::string(1, (char)c); }   // names may or may not be the same
static std::string anyname() { static const char* F[] = {"", "a", "measure", "qubit", "_", "inv", "true", "pow", "reset", "version", "asm", "e", "x1_", "CNOT", "\1" "d0", "\1_", "\1measure", "\1" "Bc"}; const char* f = F[choose("spelling", 18)]; std::string n = name(); return *f == '\1' ? n + (f + 1) : std::string(f) + n; }
static E plain() { std::string n = name(); return {n, n}; }
static const char* const BIN[] = {"**", "*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "^^", "||"};
enum { NEXPR = 43 };
static std::vector<i64> ints;   // the integers written, in order
static E digits() { std::string d = "0"; i64 v = 0; for (int i = 0; i < 2; i++) { u8 c = sym8("digit"); vp_assume((unsigned)(c - '0') < 10u); d += (char)c; v = v * 10 + (c - '0'); } if (!vp_is_sym((u64)v)) return {d, sdec(v)}; ints.push_back(v); return {d, "int"}; }
static E join(const std::vector<E>& v) { E r; for (auto& e : v) { if (!r.text.empty()) r.text += ", "; r.text += e.text; r.tree += " " + e.tree; } return r; }
static E entry(unsigned k) { E a = plain(); if (!k) return a; E b = plain(); return {a.text + ":" + b.text, "(: " + a.tree + " " + b.tree + ")"}; }
static E expr(unsigned k) {
  if (k < 20) { E a = plain(), b = plain(); return {a.text + " " + BIN[k] + " " + b.text, "(" + std::string(BIN[k]) + " " + a.tree + " " + b.tree + ")"}; }
  E a = plain(); std::string n = name();
  switch (k) {
    case 20: { std::string s = anyname(); return {s, s}; } case 21: return {"true", "#t"}; case 22: return {"false", "#f"}; case 23: { E d = digits(); return {d.text, "#" + d.tree}; } case 24: return {"2.5", "#float"};
    case 25: return {"-" + a.text, "(neg " + a.tree + ")"}; case 26: return {"~" + a.text, "(~ " + a.tree + ")"}; case 27: return {"!" + a.text, "(! " + a.tree + ")"}; case 28: return {"+" + a.text, a.tree}; case 29: return {"(" + a.text + ")", a.tree};
    case 30: { E b = plain(), c = plain(); return {a.text + " ? " + b.text + " : " + c.text, "(? " + a.tree + " " + b.tree + " " + c.tree + ")"}; }
    case 31: return {n + "()", "(call " + n + ")"}; case 32: return {n + "(" + a.text + ")", "(call " + n + " " + a.tree + ")"}; case 33: { E l = join({a, plain(), {"1", "#1"}}); return {n + "(" + l.text + ")", "(call " + n + l.tree + ")"}; }
    case 34: case 35: { E l = entry(k - 34); return {n + "[" + l.text + "]", "(index " + n + " " + l.tree + ")"}; }
    case 36: { unsigned m = choose("entries", 8); E l = join({entry(m & 1), entry(m >> 1 & 1), entry(m >> 2)}); return {n + "[" + l.text + "]", "(index " + n + l.tree + ")"}; }
    case 37: { E b = plain(); return {"-(" + a.text + " - " + b.text + ")", "(neg (- " + a.tree + " " + b.tree + "))"}; }
    case 38: { E b = plain(), c = plain(); return {n + "[" + a.text + " + 1:" + b.text + "(" + c.text + "), 2]", "(index " + n + " (: (+ " + a.tree + " #1) (call " + b.text + " " + c.tree + ")) #2)"}; }
    case 40: { unsigned o = choose("outer", 5), i = choose("inner", 5); static const char *U[] = {"-", "~", "!", "+", "("}, *T[] = {"(neg ", "(~ ", "(! ", "", ""}; E x = a; for (unsigned u : {i, o}) { x.text = U[u] + x.text + (u == 4 ? ")" : ""); x.tree = T[u] + x.tree + (u < 3 ? ")" : ""); } return x; }
    case 41: { E b = plain(); return {n + "(" + a.text + "(" + b.text + ", " + n + "()), " + a.text + "[" + b.text + "])", "(call " + n + " (call " + a.text + " " + b.tree + " (call " + n + ")) (index " + a.text + " " + b.tree + "))"}; }
    case 42: { E b = plain(), c = plain(); return {n + "[" + a.text + "[" + b.text + "]:" + "-" + c.text + "]", "(index " + n + " (: (index " + a.text + " " + b.tree + ") (neg " + c.tree + ")))"}; }
    default: { E b = plain(); return {n + "(" + a.text + "[0] / 2, " + b.text + " == 1)", "(call " + n + " (/ (index " + a.text + " #0) #2) (== " + b.tree + " #1))"}; } } }
// the focus: one of the expressions of a statement is arbitrary, or one of the names
static unsigned focus = ~0u, at;
static E some() { return at++ == focus ? expr(choose("expression", NEXPR)) : plain(); }
static std::string named() { return at++ == focus ? anyname() : name(); }
enum { DECL, GATE, MEASURE, RESET, INIT, BARRIER, WAIT, ASM, NKINDS };
static E statement(unsigned k, unsigned shape) {
  switch (k) {
    case DECL: { static const char* T[] = {"qubit", "bit"}; std::string t = T[shape & 1], n; E d; unsigned size = shape >> 1; static const char* SIZE[] = {"", "[1]", "[", "[0]"}; if (size == 2) d = digits(); static const char* SP[] = {" ", " ", "", " "}; n = named(); return {t + SIZE[size] + d.text + (size == 2 ? "]" : "") + SP[size] + n, "(var " + t + SIZE[size] + d.tree + (size == 2 ? "]" : "") + " " + n + ")"}; }   // 8 shapes
    case GATE: { unsigned ops = 1 + shape % 3, ps = shape / 3 % 4, mods = shape / 12; E r, inner; std::string close; r.text = ""; r.tree = "(gate "; unsigned m[2] = {mods ? (mods - 1) % 3 + 1 : 0, mods > 3 ? (mods - 4) / 3 + 1 : 0};   // no modifier, one of three, or two of them
        for (unsigned i = 0; i < 2; i++) { if (!m[i]) continue; static const char* M[] = {"", "inv", "ctrl", "pow"}; std::string w = M[m[i]]; r.text += w; r.tree += "(" + w + "["; if (m[i] == 3) { E e = some(); r.text += "(" + e.text + ")"; r.tree += " " + e.tree; } r.text += "."; r.tree += "] "; close += ")"; }
        std::string n = named(); std::vector<E> p, o; for (unsigned i = 0; i < ps; i++) p.push_back(some()); for (unsigned i = 0; i < ops; i++) o.push_back(some()); E pl = join(p), ol = join(o); r.text += n + (ps ? "(" + pl.text + ")" : std::string()) + " " + ol.text; r.tree += "(" + n + "[" + pl.tree + "])" + close + ol.tree + ")"; return r; }   // 12 * 13 shapes
    case MEASURE: { E b = some(); std::vector<E> p; for (unsigned i = 0; i < shape; i++) p.push_back(some()); E q = some(), pl = join(p); return {b.text + " = measure" + (shape ? "(" + pl.text + ")" : std::string()) + " " + q.text, "(non measure [" + pl.tree + "] " + b.tree + " " + q.tree + ")"}; }   // 4 shapes
    case RESET: case INIT: case BARRIER: { static const char* N[] = {"reset", "init", "barrier"}; std::string n = N[k - RESET]; E q = some(); return {n + " " + q.text, "(non " + n + " [] " + q.tree + ")"}; }
    case WAIT: { E p = some(), q = some(); return {"wait(" + p.text + ") " + q.text, "(non wait [ " + p.tree + "] " + q.tree + ")"}; }
    default: { std::string n = named(); static const char* CODE[] = {"", "x", " a\n b ", "'x' '' ", "// c", "''"}; std::string c = CODE[shape]; if (shape == 1) { c = symstr("code", 2); for (char x : c) vp_assume((u8)x < 0x80 && x != '\''); } if (shape == 5) c = "''\n"; return {"asm(" + n + ") '''" + c + "'''", "(asm " + n + " <" + c + ">)"}; } } }   // 6 shapes
static unsigned shapes(unsigned k) { static const unsigned N[] = {8, 156, 4, 1, 1, 1, 1, 6}; return N[k]; }
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0), kind = vp_param("KIND", 0), lo = vp_param("LO", 0), hi = vp_param("HI", 200), n = vp_param("STATEMENTS", 2); E s; std::string version = "3", tree; static const char* SEP[] = {"\n", ";", "\n\n", " ; "};
  if (mode == 0) { unsigned m = shapes(kind); if (hi > m) hi = m; s = statement(kind, lo + choose("shape", hi - lo)); vp_reach("shape"); }   // every shape of a statement
  else if (mode == 1) { unsigned places = vp_param("PLACES", 1), only = vp_param("PLACE", 99); focus = only < 99 ? only : choose("place", places); at = 0; s = statement(kind, vp_param("SHAPE", 0)); vp_check(focus < at, "the place exists"); vp_reach("expression"); }   // any expression or name in any of its places
  bool minor = mode != 2 || symb("minor"); if (vp_fork(minor)) version = "3.0"; std::string text = "version " + version, want = minor ? "v 3 0" : "v 3";
  if (mode != 2) { text += "\n" + s.text; want += "\n" + s.tree; }
  else { static const unsigned SH[] = {2, 12 * 12 + 4, 1, 0, 0, 0, 0, 2}; unsigned sep = choose("separator", 4); for (unsigned i = 0; i < n; i++) { unsigned k = (i == 0 && kind) ? kind - 1 : choose("statement", NKINDS); E e = statement(k, i % 2 ? 0 : SH[k]); text += SEP[(sep + i) % 4] + e.text; want += "\n" + e.tree; } vp_reach("program"); }   // any statements, in order
  auto r = pa::parse_string(text, FileName{}); vp_check(r.errors.empty(), "the text is a program"); auto p = program_of(r); if (!p) return; std::string got = sx(*p); vp_observe("statements", p->block->statements.size()); check_same(got, want, "the tree holds what is written"); vp_check(sx_ints.size() == ints.size(), "the tree holds what is written"); if (sx_ints.size() == ints.size()) for (std::size_t i = 0; i < ints.size(); i++) vp_check(sx_ints[i] == ints[i], "the numbers are the ones written"); }
