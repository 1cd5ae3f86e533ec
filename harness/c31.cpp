// Expressions as written against the tree the documented precedence and associativity give.
#include "text.h"
struct Op { const char* s; int level; };   // higher level: binds tighter
static const Op OPS[] = {{"**", 13}, {"*", 12}, {"/", 12}, {"%", 12}, {"+", 11}, {"-", 11}, {"<<", 10}, {">>", 10}, {">", 9}, {"<", 9}, {">=", 9}, {"<=", 9}, {"==", 8}, {"!=", 8}, {"&", 7}, {"^", 6}, {"|", 5}, {"&&", 4}, {"^^", 3}, {"||", 2}};
enum { NOPS = 20 };
static const unsigned FEW[] = {0, 1, 4, 6, 8, 12, 14, 15, 16, 17, 18, 19, 5, 3};
struct Tok { char k; std::string s; int level; };   // a operand, b binary, u unary, ? : ( )
struct Climb { const std::vector<Tok>& t; std::size_t i = 0; explicit Climb(const std::vector<Tok>& x) : t(x) {}
  std::string primary() { const Tok& x = t[i++]; if (x.k == 'u') { std::string e = primary(); return x.s == "+" ? e : "(" + (x.s == "-" ? std::string("neg") : x.s) + " " + e + ")"; } if (x.k == '(') { std::string e = expr(0); i++; return e; } return x.s; }
  std::string expr(int min) { std::string l = primary(); while (i < t.size()) { const Tok& x = t[i];
      if (x.k == 'b' && x.level >= min && x.level > 0) { i++; std::string r = expr(x.level == 13 ? 13 : x.level + 1); l = "(" + x.s + " " + l + " " + r + ")"; continue; }
      if (x.k == '?' && min <= 1) { i++; std::string m = expr(0); i++; std::string r = expr(1); l = "(? " + l + " " + m + " " + r + ")"; continue; }
      break; } return l; } };
// a binary operator of symbolic text, all operators of the language or some
static Tok binary(unsigned few) {
  u8 c = sym8("op1"), d = sym8("op2"); bool any = false; unsigned n = few ? few : NOPS; for (unsigned k = 0; k < n; k++) { const char* o = OPS[few ? FEW[k] : k].s; any |= (c == (u8)o[0]) & (d == (o[1] ? (u8)o[1] : (u8)' ')); } vp_assume(any);
  for (unsigned k = 0; k + 1 < n; k++) { const Op& o = OPS[few ? FEW[k] : k]; if (vp_fork((c == (u8)o.s[0]) & (d == (o.s[1] ? (u8)o.s[1] : (u8)' ')))) return {'b', o.s, o.level}; }
  const Op& o = OPS[few ? FEW[n - 1] : n - 1]; return {'b', o.s, o.level}; }
extern "C" void vp_main() {
  static const char* PAT[] = {"x", "xox", "xoxox", "xoxoxox", "x?x:x", "xox?x:x", "x?xox:x", "x?x:xox", "x?x:x?x:x", "x?x?x:x:x", "x?x:xox?x:x", "(xox)ox", "xo(xox)", "(xoxox)", "(x?x:x)ox", "xo(x?x:x)", "u(xox)", "((x)o(x))", "(xox)?(xox):(xox)", "xoxoxoxox", "xo(xox)ox", "u(x?x:x)ox"};
  unsigned pat = vp_param("PAT", 1), few = vp_param("FEW", 0), un = vp_param("UNARY", 0), un2 = vp_param("UNARY2", 0), where = vp_param("WHERE", 0), spaces = vp_param("SPACES", 1);
  std::vector<Tok> ts; std::string text; static const char* U[] = {"", "-", "+", "~", "!"}; unsigned pos = 0; auto operand = [] { std::string n(1, (char)sym8("operand")); vp_assume((n[0] >= 'A') & (n[0] <= 'Z')); return n; };
  for (const char* c = PAT[pat]; *c; c++) {
    if (*c == 'u' || *c == 'x') { bool here = *c == 'u' || (un & (1u << pos)); bool two = un2 & (1u << pos); for (int r = 0; r < (here ? two ? 2 : 1 : 0); r++) { unsigned u = choose("unary", 5); if (u) ts.push_back({'u', U[u], 0}); } if (*c == 'u') continue; pos++; ts.push_back({'a', operand(), 0}); continue; }
    if (*c == 'o') { ts.push_back(binary(few)); continue; }
    ts.push_back({*c, std::string(1, *c), 0}); }
  for (std::size_t i = 0; i < ts.size(); i++) { if (i && (spaces || (ts[i].k != 'a' && ts[i - 1].k != 'a'))) text += ' '; text += ts[i].s; }
  std::string want = Climb(ts).expr(0), src = "version 3.0\n", tree;
  // the expression as a parameter, an operand, an argument, an index
  if (where == 0) { src += "Rx(" + text + ") q"; tree = "(gate (Rx[ " + want + "]) q)"; } else if (where == 1) { src += "X q[" + text + "]"; tree = "(gate (X[]) (index q " + want + "))"; } else if (where == 2) { src += "Rx(sin(" + text + ", x)) q"; tree = "(gate (Rx[ (call sin " + want + " x)]) q)"; }
  else if (where == 3) { src += "pow(" + text + ").X q"; tree = "(gate (pow[ " + want + "] (X[])) q)"; } else if (where == 4) { src += "X q[0:" + text + ", 2]"; tree = "(gate (X[]) (index q (: #0 " + want + ") #2))"; } else { src += "Rn(z, " + text + ", y) q"; tree = "(gate (Rn[ z " + want + " y]) q)"; }
  auto r = pa::parse_string(src, FileName{}); vp_check(r.errors.empty(), "the expression is accepted"); auto p = program_of(r); if (!p) return;
  vp_check(p->block->statements.size() == 1, "there is one statement"); if (p->block->statements.size() != 1) return; std::string got = sx(*p->block->statements[0]); vp_observe("length", got.size());
  check_same(got, tree, "the expression parses as the documented precedence and associativity say"); vp_reach(PAT[pat]); }
