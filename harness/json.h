// JSON reader producing a document; strings are decoded. Numbers keep their text.
#pragma once
#include "h.h"
struct J {
  char kind = 0; std::string s; std::vector<std::string> k; std::vector<J> a;  // an object has keys k and values a   char pad = 0;   // kind: s n o a t f 0(null)
  const J* get(const char* key) const { const J* r = nullptr; for (std::size_t i = 0; i < k.size(); i++) if (k[i] == key) { if (r) return nullptr; r = &a[i]; } return r; }
  const J* get(std::initializer_list<const char*> ks) const { const J* j = this; for (auto n : ks) { if (!j) return nullptr; j = j->get(n); } return j; }
};
struct JsonReader : JsonCheck {
  explicit JsonReader(const std::string& t) : JsonCheck(t) {}
  bool read(J& j) {
    if (++depth > 40 || i >= s.size()) return false;
    bool r = read_(j); depth--; return r;
  }
  bool read_(J& j) {
    char c = s[i];
    if (c == '"') { j.kind = 's'; return str(&j.s); }
    if (c == 't' || c == 'f') { j.kind = c; return lit(c == 't' ? "true" : "false"); }
    if (c == 'n') { j.kind = '0'; return lit("null"); }
    if (c == '[') { j.kind = 'a'; i++; if (i < s.size() && s[i] == ']') { i++; return true; }
      for (;;) { j.a.emplace_back(); if (!read(j.a.back())) return false; if (i >= s.size()) return false; if (s[i] == ',') { i++; continue; } if (s[i] == ']') { i++; return true; } return false; } }
    if (c == '{') { j.kind = 'o'; i++; if (i < s.size() && s[i] == '}') { i++; return true; }
      for (;;) { std::string k; if (!str(&k)) return false; if (i >= s.size() || s[i] != ':') return false; i++; j.k.push_back(k); j.a.emplace_back(); if (!read(j.a.back())) return false;
        if (i >= s.size()) return false; if (s[i] == ',') { i++; continue; } if (s[i] == '}') { i++; return true; } return false; } }
    j.kind = 'n'; std::size_t b = i; if (!num()) return false; j.s = s.substr(b, i - b); return true;
  }
  bool all(J& j) { return read(j) && i == s.size(); }
};
inline bool url_decode(const std::string& s, std::string& out) {
  out.clear();
  for (std::size_t i = 0; i < s.size(); i++) { if (s[i] != '%') { out.push_back(s[i]); continue; }
    if (i + 2 >= s.size()) return false; unsigned h = hexval((u8)s[i + 1]), l = hexval((u8)s[i + 2]); if (h > 15 || l > 15) return false; out.push_back((char)(h * 16 + l)); i += 2; }
  return true;
}
