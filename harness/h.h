// Shared helpers for harnesses.
#pragma once
#include "vp.h"
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <optional>
typedef unsigned char u8; typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int64_t i64;
inline u8 sym8(const char* n = "c") { return (u8)vp_sym(n, 8); }
inline u32 sym32(const char* n) { return (u32)vp_sym(n, 32); }
inline u64 sym64(const char* n) { return vp_sym(n, 64); }
inline bool symb(const char* n) { return vp_sym(n, 1) != 0; }
// a value in [0, n), explored case by case
inline unsigned choose(const char* n, unsigned count) { u64 v = vp_sym(n, 8); vp_assume(v < count); return (unsigned)vp_concretize(v); }
// n fully symbolic bytes
inline std::string symstr(const char* name, std::size_t n) { std::string s(n, '\0'); for (std::size_t i = 0; i < n; i++) s[i] = (char)sym8(name); return s; }
// length n, NSYM symbolic bytes spread over the text, the rest concrete and varied
inline std::string sparse(const char* name, std::size_t n, std::size_t nsym) {
  std::string s(n, '\0');
  for (std::size_t i = 0; i < n; i++) s[i] = "abcdefghijklmnopqrstuvwxyz0123456789-_.~ABCDEFGH"[(i * 7) % 48];
  for (std::size_t k = 0; k < nsym && n; k++) { std::size_t p = nsym == 1 ? n - 1 : k * (n - 1) / (nsym - 1); s[p] = (char)sym8(name); }
  return s;
}
inline std::string teststr(const char* name) { return vp_param("SPARSE", 0) ? sparse(name, vp_param("LEN", 3), vp_param("SPARSE", 0)) : symstr(name, vp_param("LEN", 3)); }
inline bool same(const std::string& a, const std::string& b) { // no early exit: one assertion term
  if (a.size() != b.size()) return false;
  unsigned acc = 0; for (std::size_t i = 0; i < a.size(); i++) acc |= (u8)a[i] ^ (u8)b[i]; return acc == 0; }
// equality for the solver to decide even when both sides are the same term
inline bool equal(u64 a, u64 b) { if (!vp_is_sym(b)) return a == b; u64 x = sym64("mirror64"); vp_assume(x == b); return a == x; }
// asserts that two texts are equal: same length, and equal at every (symbolic) position
inline void check_same(const std::string& a, const std::string& b, const char* what) {
  vp_check(a.size() == b.size(), what); if (a.size() != b.size()) return;
  unsigned open = 0; for (std::size_t i = 0; i < a.size(); i++) { unsigned d = (u8)a[i] ^ (u8)b[i]; open += vp_is_sym(d) || d; }   // characters given by the same term are equal
  if (!open) { static bool once; std::size_t i = 0; while (i < a.size() && !vp_is_sym((u8)a[i])) i++; // one of them per path goes to the solver all the same
    if (!once && i < a.size()) { once = true; u8 x = sym8("mirror"); vp_assume(x == (u8)b[i]); vp_check(x == (u8)a[i], what); } else vp_check(true, what);
    return; }
  if (open <= 8) { for (std::size_t i = 0; i < a.size(); i++) { unsigned d = (u8)a[i] ^ (u8)b[i]; if (vp_is_sym(d) || d) vp_check(d == 0, what); } return; }
  u64 k = sym64("position"); vp_assume(k < a.size());
  vp_check(a[k] == b[k], what);
}
inline bool is_alpha(u8 c) { return ((unsigned)((c | 32) - 'a') < 26u) & (c < 128); }
inline bool is_digit(u8 c) { return (unsigned)(c - '0') < 10u; }
inline unsigned hexval(u8 c) { return (unsigned)(c - '0') < 10u ? c - '0' : (unsigned)(c - 'A') < 6u ? c - 'A' + 10 : (unsigned)(c - 'a') < 6u ? c - 'a' + 10 : 255u; }
// Decodes the body of a JSON string literal; ok=false when it is not legal.
inline std::string json_decode(const std::string& s, bool& ok) {
  std::string r; ok = true;
  for (std::size_t i = 0; i < s.size(); i++) {
    u8 c = (u8)s[i];
    if (c == '"' || c < 0x20) { ok = false; return r; }
    if (c != '\\') { r.push_back((char)c); continue; }
    if (++i >= s.size()) { ok = false; return r; }
    switch (s[i]) {
      case '"': case '\\': case '/': r.push_back(s[i]); break;
      case 'b': r.push_back('\b'); break; case 'f': r.push_back('\f'); break; case 'n': r.push_back('\n'); break; case 'r': r.push_back('\r'); break; case 't': r.push_back('\t'); break;
      case 'u': {
        if (i + 4 >= s.size()) { ok = false; return r; }
        unsigned v = 0, bad = 0; for (int k = 1; k <= 4; k++) { unsigned h = hexval((u8)s[i + k]); bad |= h > 15; v = v * 16 + (h & 15); } i += 4;
        if (bad) { ok = false; return r; }
        if (v < 0x80) r.push_back((char)v);
        else if (v < 0x800) { r.push_back((char)(0xC0 | v >> 6)); r.push_back((char)(0x80 | (v & 63))); }
        else { if (v - 0xD800u < 0x800u) { ok = false; return r; } r.push_back((char)(0xE0 | v >> 12)); r.push_back((char)(0x80 | (v >> 6 & 63))); r.push_back((char)(0x80 | (v & 63))); }
        break; }
      default: ok = false; return r;
    }
  }
  return r;
}
// Minimal JSON reader: checks the grammar of a complete text, tracking positions (no early forks on content).
struct JsonCheck {
  const std::string& s; std::size_t i = 0; int depth = 0;
  explicit JsonCheck(const std::string& t) : s(t) {}
  bool lit(const char* l) { std::size_t n = std::strlen(l); if (s.compare(i, n, l) != 0) return false; i += n; return true; }
  bool str(std::string* out = nullptr) { if (i >= s.size() || s[i] != '"') return false; std::size_t b = ++i; while (i < s.size() && s[i] != '"') { if (s[i] == '\\') i++; i++; } if (i >= s.size()) return false; bool ok; std::string d = json_decode(s.substr(b, i - b), ok); i++; if (out) *out = d; return ok; }
  bool num() { std::size_t b = i; if (i < s.size() && s[i] == '-') i++; std::size_t d = i; while (i < s.size() && is_digit((u8)s[i])) i++; if (i == d) return false; if (s[d] == '0' && i - d > 1) return false; if (i < s.size() && s[i] == '.') { i++; std::size_t f = i; while (i < s.size() && is_digit((u8)s[i])) i++; if (i == f) return false; } if (i < s.size() && (s[i] | 32) == 'e') { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; std::size_t f = i; while (i < s.size() && is_digit((u8)s[i])) i++; if (i == f) return false; } return i > b; }
  bool value() { if (++depth > 50) return false; bool r = value_(); depth--; return r; }
  bool value_() {
    if (i >= s.size()) return false; char c = s[i];
    if (c == '"') return str(); if (c == 't') return lit("true"); if (c == 'f') return lit("false"); if (c == 'n') return lit("null");
    if (c == '[') { i++; if (i < s.size() && s[i] == ']') { i++; return true; } for (;;) { if (!value()) return false; if (i >= s.size()) return false; if (s[i] == ',') { i++; continue; } if (s[i] == ']') { i++; return true; } return false; } }
    if (c == '{') { i++; if (i < s.size() && s[i] == '}') { i++; return true; } for (;;) { if (!str()) return false; if (i >= s.size() || s[i] != ':') return false; i++; if (!value()) return false; if (i >= s.size()) return false; if (s[i] == ',') { i++; continue; } if (s[i] == '}') { i++; return true; } return false; } }
    return num();
  }
  bool all() { return value() && i == s.size(); }
};
inline std::string dec(u64 v) { char t[24]; unsigned k = vp_udec(v, t); return std::string(t, k); }
inline std::string sdec(i64 v) { return v < 0 ? "-" + dec(0 - (u64)v) : dec((u64)v); }
inline u64 digest(const std::string& s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; return h; }
