// Hash-consed bit-vector expressions with simplification and evaluation.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cmath>
#include <cassert>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t {
  CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FCMP, FPTOSI, FPTOUI, SITOFP, UITOFP, FPEXT, FPTRUNC, FSQRT,
  UF
};

struct VarSet { std::vector<uint32_t> v; };  // sorted, interned

struct Expr {
  K k; bool hasFp = false; uint16_t w; uint32_t id; uint32_t aux = 0;  // aux: extract lo / var index / fcmp pred / uf index
  const Expr *a = nullptr, *b = nullptr, *c = nullptr;
  u128 val = 0;
  const VarSet* vars = nullptr;
  uint64_t lo = 0, hi = ~0ull;   // unsigned interval containing the value (widths up to 64)
  mutable uint64_t gen = 0; mutable u128 ev = 0;
  mutable void* z3 = nullptr; mutable void* z3fp = nullptr;
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1); v &= maskw(w);
  return (i128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; };
struct UFInfo { std::string name; unsigned n; };

struct ExprMgr {
  struct H { size_t operator()(const Expr* e) const {
    size_t h = (size_t)e->k * 0x9E3779B97F4A7C15ull + e->w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix(e->aux); mix(e->a ? e->a->id + 1 : 0); mix(e->b ? e->b->id + 1 : 0); mix(e->c ? e->c->id + 1 : 0);
    mix((uint64_t)e->val); mix((uint64_t)(e->val >> 64)); return h; } };
  struct Q { bool operator()(const Expr* x, const Expr* y) const {
    return x->k == y->k && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->val == y->val; } };
  std::unordered_set<const Expr*, H, Q> table;
  std::vector<VarInfo> varinfo;
  std::unordered_map<std::string, E> varByName;
  std::vector<UFInfo> ufs;
  std::unordered_map<std::string, uint32_t> ufByName;
  struct VSH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003 + x; return h; } };
  std::unordered_map<std::vector<uint32_t>, VarSet*, VSH> vsets;
  uint32_t nextId = 0;
  uint64_t evalGen = 1;
  const VarSet* emptySet;
  ExprMgr() { emptySet = internVS({}); table.reserve(1 << 16); }
  const VarSet* internVS(const std::vector<uint32_t>& v) {
    auto it = vsets.find(v); if (it != vsets.end()) return it->second;
    auto* s = new VarSet{v}; vsets.emplace(v, s); return s;
  }
  const VarSet* uni(const VarSet* a, const VarSet* b) {
    if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
    std::vector<uint32_t> r; r.reserve(a->v.size() + b->v.size());
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    if (r.size() == a->v.size()) return a; if (r.size() == b->v.size()) return b;
    return internVS(r);
  }
  E mk(K k, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, uint32_t aux = 0, u128 val = 0) {
    Expr t; t.k = k; t.w = w; t.aux = aux; t.a = a; t.b = b; t.c = c; t.val = val; t.id = 0;
    auto it = table.find(&t); if (it != table.end()) return *it;
    Expr* e = new Expr(t); e->id = nextId++;
    const VarSet* vs = emptySet;
    if (k == K::VAR) vs = internVS({aux});
    if (a) vs = uni(vs, a->vars); if (b) vs = uni(vs, b->vars); if (c) vs = uni(vs, c->vars);
    e->hasFp = (k >= K::FADD) || (a && a->hasFp) || (b && b->hasFp) || (c && c->hasFp);
    e->vars = vs; setRange(e); table.insert(e); return e;
  }
  static void setRange(Expr* e) {
    if (e->w > 64) return;
    uint64_t m = (uint64_t)maskw(e->w); e->lo = 0; e->hi = m; E a = e->a, b = e->b;
    if ((a && a->w > 64) || (b && b->w > 64)) return;
    switch (e->k) {
      case K::CONST: e->lo = e->hi = (uint64_t)e->val; break;
      case K::ADD: if ((u128)a->hi + b->hi <= m) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; } break;
      case K::MUL: if ((u128)a->hi * b->hi <= m) { e->lo = a->lo * b->lo; e->hi = a->hi * b->hi; } break;
      case K::UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
      case K::UREM: if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); if (a->hi < b->lo) e->lo = a->lo; } break;
      case K::AND: e->hi = std::min(a->hi, b->hi); break;
      case K::OR: e->lo = std::max(a->lo, b->lo); break;
      case K::ITE: if (e->c->w <= 64) { e->lo = std::min(b->lo, e->c->lo); e->hi = std::max(b->hi, e->c->hi); } break;
      case K::ZEXT: e->lo = a->lo; e->hi = a->hi; break;
      case K::EXTRACT: if (e->aux == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } break;
      case K::LSHR: if (b->k == K::CONST && b->val < 64) { e->lo = a->lo >> (unsigned)b->val; e->hi = a->hi >> (unsigned)b->val; } break;
      case K::CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
      default: break;
    }
  }
  E cst(u128 v, unsigned w) { return mk(K::CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
  E var(const std::string& n, unsigned w) {
    std::string key = n + ":" + std::to_string(w);
    auto it = varByName.find(key); if (it != varByName.end()) return it->second;
    uint32_t idx = varinfo.size(); varinfo.push_back({n, w});
    E e = mk(K::VAR, w, nullptr, nullptr, nullptr, idx); varByName[key] = e; return e;
  }
  static bool isC(E e) { return e->k == K::CONST; }
  static bool isC(E e, u128 v) { return e->k == K::CONST && e->val == v; }
  static bool commut(K k) { return k == K::ADD || k == K::MUL || k == K::AND || k == K::OR || k == K::XOR || k == K::EQ; }

  static u128 fold(K k, u128 a, u128 b, unsigned w) {
    u128 m = maskw(w);
    switch (k) {
      case K::ADD: return (a + b) & m; case K::SUB: return (a - b) & m; case K::MUL: return (a * b) & m;
      case K::UDIV: return b ? (a / b) & m : m; case K::UREM: return b ? (a % b) & m : a;
      case K::SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
      case K::SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
      case K::AND: return a & b; case K::OR: return a | b; case K::XOR: return a ^ b;
      case K::SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case K::LSHR: return b >= w ? 0 : (a >> (unsigned)b);
      case K::ASHR: { i128 x = sx(a, w); if (b >= w) return x < 0 ? m : 0; return (u128)(x >> (unsigned)b) & m; }
      case K::EQ: return a == b; case K::ULT: return a < b; case K::ULE: return a <= b;
      case K::SLT: return sx(a, w) < sx(b, w); case K::SLE: return sx(a, w) <= sx(b, w);
      default: abort();
    }
  }
  static bool isCmp(K k) { return k == K::EQ || k == K::ULT || k == K::ULE || k == K::SLT || k == K::SLE; }
  E tru() { return cst(1, 1); }
  E fls() { return cst(0, 1); }
  E bnot(E a) { return bin(K::XOR, a, tru()); }
  E band(E a, E b) { return bin(K::AND, a, b); }
  E bor(E a, E b) { return bin(K::OR, a, b); }
  bool isIteC(E e) { return e->k == K::ITE && isC(e->b) && isC(e->c); }

  E bin(K k, E a, E b) {
    unsigned w = a->w; assert(a->w == b->w);
    unsigned rw = isCmp(k) ? 1 : w;
    if (isC(a) && isC(b)) return cst(fold(k, a->val, b->val, w), rw);
    if (commut(k)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
    u128 m = maskw(w);
    if (w <= 64) {
      if (k == K::EQ && (a->hi < b->lo || b->hi < a->lo)) return fls();
      if (k == K::ULT) { if (a->hi < b->lo) return tru(); if (a->lo >= b->hi) return fls(); }
      if (k == K::ULE) { if (a->hi <= b->lo) return tru(); if (a->lo > b->hi) return fls(); }
      if ((k == K::SLT || k == K::SLE) && a->hi <= (uint64_t)(m >> 1) && b->hi <= (uint64_t)(m >> 1)) return bin(k == K::SLT ? K::ULT : K::ULE, a, b);
    }
    switch (k) {
      case K::ADD:
        if (isC(b) && a->k == K::ZEXT && a->a->k == K::ADD && isC(a->a->b) && w <= 64 && a->a->a->hi + (uint64_t)a->a->b->val <= (uint64_t)maskw(a->a->w) && ((a->a->b->val + b->val) & m) == 0) return zext(a->a->a, w);   // (x + c) - c in a wider type
        if (isC(b, 0)) return a;
        if (isC(b) && a->k == K::ADD && isC(a->b)) return bin(K::ADD, a->a, cst(a->b->val + b->val, w));
        if (b->k == K::ADD && isC(b->b)) return bin(K::ADD, bin(K::ADD, a, b->a), b->b);
        if (a->k == K::ADD && isC(a->b) && !isC(b)) return bin(K::ADD, bin(K::ADD, a->a, b), a->b);
        if (w == 1) return bin(K::XOR, a, b);
        if (!isC(b)) for (int i = 0; i < 2; i++) { E z = i ? a : b, o = i ? b : a;   // y + zext(x + c), nothing carried out of x + c: the constant moves out
          if (z->k == K::ZEXT && z->a->k == K::ADD && isC(z->a->b) && z->a->w < 64 && z->a->a->hi + (uint64_t)z->a->b->val <= (uint64_t)maskw(z->a->w)) return bin(K::ADD, bin(K::ADD, o, zext(z->a->a, w)), cst(z->a->b->val, w)); }
        break;
      case K::SUB:
        if (a == b) return cst(0, w); if (isC(b, 0)) return a;
        if (isC(b)) return bin(K::ADD, a, cst(-b->val, w));
        if (a->k == K::ADD && b->k == K::ADD && a->a == b->a) return bin(K::SUB, a->b, b->b);
        if (a->k == K::ADD && a->a == b) return a->b;
        if (a->k == K::ADD && a->b == b) return a->a;
        if (a->k == K::ADD && isC(a->b)) return bin(K::ADD, bin(K::SUB, a->a, b), a->b);
        if (b->k == K::ADD && isC(b->b)) return bin(K::ADD, bin(K::SUB, a, b->a), cst(-b->b->val, w));
        break;
      case K::MUL: if (isC(b, 0)) return b; if (isC(b, 1)) return a; if (w == 1) return bin(K::AND, a, b);
        if (isC(b) && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return bin(K::SHL, a, cst(s, w)); }
        break;
      case K::UDIV: if (isC(b, 1)) return a;
        if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return bin(K::LSHR, a, cst(s, w)); } break;
      case K::UREM:
        if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(K::AND, a, cst(b->val - 1, w)); break;
      case K::SDIV: if (isC(b, 1)) return a; break;
      case K::AND:
        if (a == b) return a; if (isC(b, 0)) return b; if (isC(b, m)) return a;
        if (isC(b) && a->k == K::AND && isC(a->b)) return bin(K::AND, a->a, cst(a->b->val & b->val, w));
        if (isC(b) && ((b->val + 1) & b->val) == 0) {  // low mask
          unsigned n = 0; while ((b->val >> n) & 1) n++;
          return zext(extract(a, 0, n), w); }
        if (isC(b) && a->k == K::ZEXT) { E x = a->a; return zext(bin(K::AND, x, cst(b->val & maskw(x->w), x->w)), w); }
        if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return zext(bin(K::AND, a->a, b->a), w);
        if (w == 1) { if (a->k == K::XOR && a->b == tru() && a->a == b) return fls(); if (b->k == K::XOR && isC(b->b, 1) && b->a == a) return fls(); }
        break;
      case K::OR:
        if (a == b) return a; if (isC(b, 0)) return a; if (isC(b, m)) return b;
        if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return zext(bin(K::OR, a->a, b->a), w);
        { // concat assembly: zext(x, w) | concat(y, 0_n) with x->w <= n
          E z = a, s = b; for (int i = 0; i < 2; i++, std::swap(z, s)) {
            if (s->k == K::CONCAT && isC(s->b, 0)) { unsigned n = s->b->w;
              if (z->k == K::ZEXT && z->a->w <= n) return concat(s->a, zext(z->a, n));
              if (isC(z) && (z->val >> n) == 0) return concat(s->a, cst(z->val, n)); }
            if (s->k == K::ZEXT && s->a->k == K::CONCAT && isC(s->a->b, 0)) { unsigned n = s->a->b->w;
              if (z->k == K::ZEXT && z->a->w <= n) return zext(concat(s->a->a, zext(z->a, n)), w); }
          } }
        if (w == 1) { if (a->k == K::XOR && isC(a->b, 1) && a->a == b) return tru(); if (b->k == K::XOR && isC(b->b, 1) && b->a == a) return tru(); }
        break;
      case K::XOR: if (a == b) return cst(0, w); if (isC(b, 0)) return a;
        if (isC(b) && a->k == K::XOR && isC(a->b)) return bin(K::XOR, a->a, cst(a->b->val ^ b->val, w));
        if (w == 1 && isC(b, 1)) {  // not of comparisons
          if (a->k == K::ULT) return bin(K::ULE, a->b, a->a);
          if (a->k == K::ULE) return bin(K::ULT, a->b, a->a);
          if (a->k == K::SLT) return bin(K::SLE, a->b, a->a);
          if (a->k == K::SLE) return bin(K::SLT, a->b, a->a);
        }
        if (isC(b) && a->k == K::ZEXT && (b->val >> a->a->w) == 0) return zext(bin(K::XOR, a->a, cst(b->val, a->a->w)), w);
        break;
      case K::SHL: if (isC(b, 0)) return a; if (isC(a, 0)) return a;
        if (isC(b)) { if (b->val >= w) return cst(0, w); unsigned s = (unsigned)b->val; return concat(extract(a, 0, w - s), cst(0, s)); } break;
      case K::LSHR: if (isC(b, 0)) return a; if (isC(a, 0)) return a;
        if (isC(b)) { if (b->val >= w) return cst(0, w); unsigned s = (unsigned)b->val; return zext(extract(a, s, w - s), w); } break;
      case K::ASHR: if (isC(b, 0)) return a; if (isC(a, 0)) return a;
        if (isC(b)) { unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; return sext(extract(a, s, w - s), w); } break;
      case K::EQ:
        if (a == b) return tru();
        if (isC(b)) {
          if (w == 1) return b->val ? a : bnot(a);
          if (a->k == K::ZEXT) { E x = a->a; if (b->val >> x->w) return fls(); return bin(K::EQ, x, cst(b->val, x->w)); }
          if (a->k == K::SEXT) { E x = a->a; u128 t = b->val & maskw(x->w); if (((u128)sx(t, x->w) & m) != b->val) return fls(); return bin(K::EQ, x, cst(t, x->w)); }
          if (a->k == K::CONCAT) { unsigned lw = a->b->w; return band(bin(K::EQ, a->a, cst(b->val >> lw, a->a->w)), bin(K::EQ, a->b, cst(b->val & maskw(lw), lw))); }
          if (a->k == K::ADD && isC(a->b)) return bin(K::EQ, a->a, cst(b->val - a->b->val, w));
          if (a->k == K::XOR && isC(a->b)) return bin(K::EQ, a->a, cst(b->val ^ a->b->val, w));
          if (a->k == K::ITE && (isC(a->b) || isC(a->c))) return ite(a->a, bin(K::EQ, a->b, b), bin(K::EQ, a->c, b));
          if (a->k == K::SUB && b->val == 0) return bin(K::EQ, a->a, a->b);
        }
        if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return bin(K::EQ, a->a, b->a);
        if (a->k == K::SEXT && b->k == K::SEXT && a->a->w == b->a->w) return bin(K::EQ, a->a, b->a);
        if (a->k == K::ADD && b->k == K::ADD && a->a == b->a) return bin(K::EQ, a->b, b->b);
        break;
      case K::ULT:
        if (a == b) return fls(); if (isC(b, 0)) return fls(); if (isC(a, m)) return fls();
        if (isC(b, 1)) return bin(K::EQ, a, cst(0, w));
        if (isC(b) && a->k == K::ZEXT) { E x = a->a; if (b->val > maskw(x->w)) return tru(); return bin(K::ULT, x, cst(b->val, x->w)); }
        if (isC(a) && b->k == K::ZEXT) { E x = b->a; if (a->val >= maskw(x->w)) return fls(); return bin(K::ULT, cst(a->val, x->w), x); }
        if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return bin(K::ULT, a->a, b->a);
        if (isC(b) && isIteC(a)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
        if (isC(a) && isIteC(b)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
        break;
      case K::ULE:
        if (a == b) return tru(); if (isC(a, 0)) return tru(); if (isC(b, m)) return tru(); if (isC(b, 0)) return bin(K::EQ, a, b);
        if (isC(b)) return bin(K::ULT, a, cst(b->val + 1, w));
        if (isC(a)) return bin(K::ULT, cst(a->val - 1, w), b);
        if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return bin(K::ULE, a->a, b->a);
        break;
      case K::SLT:
        if (a == b) return fls();
        if (isC(b) && a->k == K::ZEXT) { if (sx(b->val, w) <= 0) return fls(); return bin(K::ULT, a, b); }
        if (isC(a) && b->k == K::ZEXT) { if (sx(a->val, w) < 0) return tru(); return bin(K::ULT, a, b); }
        if (a->k == K::ZEXT && b->k == K::ZEXT) return bin(K::ULT, a, b);
        if (a->k == K::SEXT && b->k == K::SEXT && a->a->w == b->a->w) return bin(K::SLT, a->a, b->a);
        if (isC(b) && a->k == K::SEXT) { unsigned n = a->a->w; i128 c = sx(b->val, w), lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
          if (c > hi) return tru(); if (c <= lo) return fls(); return bin(K::SLT, a->a, cst((u128)c, n)); }
        if (isC(a) && b->k == K::SEXT) { unsigned n = b->a->w; i128 c = sx(a->val, w), lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
          if (c < lo) return tru(); if (c >= hi) return fls(); return bin(K::SLT, cst((u128)c, n), b->a); }
        if (isC(b) && isIteC(a)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
        if (isC(a) && isIteC(b)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
        break;
      case K::SLE:
        if (a == b) return tru();
        if (isC(b) && b->val != (m >> 1)) return bin(K::SLT, a, cst(b->val + 1, w));
        if (isC(b)) return tru();
        if (isC(a) && a->val != ((m >> 1) + 1)) return bin(K::SLT, cst(a->val - 1, w), b);
        if (isC(a)) return tru();
        if (a->k == K::ZEXT && b->k == K::ZEXT) return bin(K::ULE, a, b);
        break;
      default: break;
    }
    if (!isCmp(k)) {
      if (isC(b) && isIteC(a)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
      if (isC(a) && isIteC(b)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
    }
    return mk(k, rw, a, b);
  }
  E ite(E c, E t, E f) {
    if (isC(c)) return c->val ? t : f;
    if (t == f) return t;
    if (c->k == K::XOR && isC(c->b, 1) && c->w == 1) return ite(c->a, f, t);
    if (t->w == 1) {
      if (isC(t, 1) && isC(f, 0)) return c; if (isC(t, 0) && isC(f, 1)) return bnot(c);
      if (isC(t, 1)) return bor(c, f); if (isC(t, 0)) return band(bnot(c), f);
      if (isC(f, 0)) return band(c, t); if (isC(f, 1)) return bor(bnot(c), t);
    }
    if (t->k == K::ITE && t->a == c) return ite(c, t->b, f);
    if (f->k == K::ITE && f->a == c) return ite(c, t, f->c);
    return mk(K::ITE, t->w, c, t, f);
  }
  E extract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    assert(lo + w <= a->w && w > 0);
    switch (a->k) {
      case K::CONST: return cst(a->val >> lo, w);
      case K::EXTRACT: return extract(a->a, a->aux + lo, w);
      case K::CONCAT: { unsigned lw = a->b->w;
        if (lo + w <= lw) return extract(a->b, lo, w); if (lo >= lw) return extract(a->a, lo - lw, w);
        return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo)); }
      case K::ZEXT: { unsigned n = a->a->w; if (lo >= n) return cst(0, w); if (lo + w <= n) return extract(a->a, lo, w);
        return zext(extract(a->a, lo, n - lo), w); }
      case K::SEXT: { unsigned n = a->a->w; if (lo + w <= n) return extract(a->a, lo, w);
        if (lo < n) return sext(extract(a->a, lo, n - lo), w);
        return sext(extract(a->a, n - 1, 1), w); }
      case K::ITE: if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w)); break;
      case K::AND: case K::OR: case K::XOR: if (isC(a->b) || w <= 8) return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w)); break;
      case K::ADD: case K::SUB: case K::MUL: if (lo == 0) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w)); break;
      default: break;
    }
    return mk(K::EXTRACT, w, a, nullptr, nullptr, lo);
  }
  // byte i of a value going to memory: low bytes of arithmetic stay extracts of the whole, so that reading all of them gives the value back
  E byteOf(E e, unsigned i) { if (i == 0) while ((e->k == K::ZEXT || e->k == K::SEXT) && e->a->w >= 8) e = e->a;
    if (i == 0 && e->w > 8 && (e->k == K::ADD || e->k == K::SUB || e->k == K::MUL || e->k == K::AND || e->k == K::OR || e->k == K::XOR)) return mk(K::EXTRACT, 8, e, nullptr, nullptr, 0); return extract(e, 8 * i, 8); }
  // low bytes put back together: not narrowed either, the bytes above may still follow
  E rejoin(E e, unsigned lo, unsigned w) {
    if (lo == 0 && w < e->w && (e->k == K::ADD || e->k == K::SUB || e->k == K::MUL || e->k == K::AND || e->k == K::OR || e->k == K::XOR)) return mk(K::EXTRACT, w, e, nullptr, nullptr, 0);
    return extract(e, lo, w); }
  E concat(E hi, E lo) {
    if (isC(hi) && isC(lo)) return cst((hi->val << lo->w) | lo->val, hi->w + lo->w);
    if (isC(hi, 0)) return zext(lo, hi->w + lo->w);
    if (hi->k == K::ZEXT) return zext(concat(hi->a, lo), hi->w + lo->w);
    if (hi->k == K::EXTRACT && lo->k == K::EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return rejoin(lo->a, lo->aux, hi->w + lo->w);
    if (hi->k == K::EXTRACT && lo->k == K::CONCAT && lo->a->k == K::EXTRACT && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w)
      return concat(rejoin(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
    if (hi->k == K::EXTRACT && hi->a == lo && hi->aux == lo->w) return extract(lo, 0, hi->w + lo->w);  // unreachable, widths
    // bytes of a sign extension / constants
    if (hi->k == K::SEXT && hi->a->k == K::EXTRACT && hi->a->w == 1) { E x = hi->a->a; bool top = hi->a->aux + 1 == x->w;
      if (top && lo == x) return sext(x, hi->w + lo->w);
      if (top && lo->k == K::SEXT && lo->a == x) return sext(x, hi->w + lo->w); }
    if (isC(lo) && hi->k == K::CONCAT && isC(hi->b)) return concat(hi->a, concat(hi->b, lo));
    if (lo->k == K::CONCAT && isC(hi) && isC(lo->a)) return concat(concat(hi, lo->a), lo->b);
    if (isIteC(hi) && isC(lo)) return ite(hi->a, concat(hi->b, lo), concat(hi->c, lo));
    if (isIteC(lo) && isC(hi)) return ite(lo->a, concat(hi, lo->b), concat(hi, lo->c));
    if (hi->k == K::ITE && lo->k == K::ITE && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
    return mk(K::CONCAT, hi->w + lo->w, hi, lo);
  }
  E zext(E a, unsigned w) {
    if (a->w == w) return a; assert(w > a->w);
    if (isC(a)) return cst(a->val, w);
    if (a->k == K::ZEXT) return zext(a->a, w);
    if (isIteC(a)) return ite(a->a, cst(a->b->val, w), cst(a->c->val, w));
    return mk(K::ZEXT, w, a);
  }
  E sext(E a, unsigned w) {
    if (a->w == w) return a; assert(w > a->w);
    if (isC(a)) return cst((u128)sx(a->val, a->w), w);
    if (a->k == K::SEXT) return sext(a->a, w);
    if (a->k == K::ZEXT) return zext(a->a, w);
    if (isIteC(a)) return ite(a->a, sext(a->b, w), sext(a->c, w));
    return mk(K::SEXT, w, a);
  }
  // ---- floating point (values are IEEE bit patterns of width 32 or 64) ----
  static double asD(u128 v, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; } double d; uint64_t x = (uint64_t)v; memcpy(&d, &x, 8); return d; }
  static u128 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t x; memcpy(&x, &d, 8); return x; }
  static u128 ffold(K k, u128 a, u128 b, unsigned w) {
    if (w == 32) { float x = (float)asD(a, 32), y = (float)asD(b, 32), r = 0;
      switch (k) { case K::FADD: r = x + y; break; case K::FSUB: r = x - y; break; case K::FMUL: r = x * y; break; case K::FDIV: r = x / y; break; default: abort(); }
      uint32_t z; memcpy(&z, &r, 4); return z; }
    double x = asD(a, 64), y = asD(b, 64), r = 0;
    switch (k) { case K::FADD: r = x + y; break; case K::FSUB: r = x - y; break; case K::FMUL: r = x * y; break; case K::FDIV: r = x / y; break; default: abort(); }
    return fromD(r, 64);
  }
  E fbin(K k, E a, E b) { if (isC(a) && isC(b)) return cst(ffold(k, a->val, b->val, a->w), a->w); return mk(k, a->w, a, b); }
  // predicates numbered as llvm::CmpInst::Predicate (0..15)
  static bool fcmpEval(unsigned p, u128 a, u128 b, unsigned w) {
    double x = asD(a, w), y = asD(b, w); bool un = std::isnan(x) || std::isnan(y);
    bool r = false; if (p & 8) { if (un) return true; } else if (un) return false;
    if (p & 1) r |= x == y; if (p & 2) r |= x > y; if (p & 4) r |= x < y; return r;
  }
  E fcmp(unsigned p, E a, E b) {
    if (p == 0) return fls(); if (p == 15) return tru();
    if (isC(a) && isC(b)) return cst(fcmpEval(p, a->val, b->val, a->w), 1);
    return mk(K::FCMP, 1, a, b, nullptr, p);
  }
  static u128 f2i(u128 v, unsigned fw, unsigned w, bool sg) {
    double d = asD(v, fw); if (std::isnan(d)) return (u128)1 << (w - 1);
    double t = std::trunc(d);
    if (sg) { double lim = std::ldexp(1.0, w - 1); if (t >= lim || t < -lim) return (u128)1 << (w - 1); return (u128)(i128)t & maskw(w); }
    double lim = std::ldexp(1.0, w); if (t >= lim || t < 0) return (u128)1 << (w - 1); return (u128)t & maskw(w);
  }
  E fptoi(E a, unsigned w, bool sg) {
    if (isC(a)) return cst(f2i(a->val, a->w, w, sg), w);
    E conv = mk(sg ? K::FPTOSI : K::FPTOUI, w, a);
    return conv;  // out-of-range handled in z3 translation and evaluation identically
  }
  E itofp(E a, unsigned fw, bool sg) {
    if (isC(a)) { if (fw == 32) { float f = sg ? (float)sx(a->val, a->w) : (float)a->val; uint32_t x; memcpy(&x, &f, 4); return cst(x, 32); }
      double d = sg ? (double)sx(a->val, a->w) : (double)a->val; return cst(fromD(d, 64), 64); }
    return mk(sg ? K::SITOFP : K::UITOFP, fw, a);
  }
  E fpext(E a) { if (isC(a)) return cst(fromD(asD(a->val, 32), 64), 64); return mk(K::FPEXT, 64, a); }
  E fptrunc(E a) { if (isC(a)) return cst(fromD(asD(a->val, 64), 32), 32); return mk(K::FPTRUNC, 32, a); }
  E fsqrt(E a) { if (isC(a)) return cst(a->w == 32 ? fromD(sqrtf((float)asD(a->val, 32)), 32) : fromD(std::sqrt(asD(a->val, 64)), 64), a->w); return mk(K::FSQRT, a->w, a); }
  uint32_t ufIdx(const std::string& n, unsigned na) { auto it = ufByName.find(n); if (it != ufByName.end()) return it->second; uint32_t i = ufs.size(); ufs.push_back({n, na}); ufByName[n] = i; return i; }
  E uf(const std::string& n, E a, E b = nullptr) { return mk(K::UF, a->w, a, b, nullptr, ufIdx(n, b ? 2 : 1)); }

  u128 (*ufEval)(const std::string&, u128, u128, unsigned) = nullptr;
  template <class M> u128 eval(E e, const M& model) { evalGen++; return ev(e, model); }
  template <class M> u128 ev(E e, const M& model) {
    if (e->k == K::CONST) return e->val;
    if (e->gen == evalGen) return e->ev;
    u128 r = 0; unsigned w = e->w;
    switch (e->k) {
      case K::VAR: r = e->aux < model.size() ? model[e->aux] : 0; r &= maskw(w); break;
      case K::ITE: r = ev(e->a, model) ? ev(e->b, model) : ev(e->c, model); break;
      case K::CONCAT: r = (ev(e->a, model) << e->b->w) | ev(e->b, model); break;
      case K::EXTRACT: r = (ev(e->a, model) >> e->aux) & maskw(w); break;
      case K::ZEXT: r = ev(e->a, model); break;
      case K::SEXT: r = (u128)sx(ev(e->a, model), e->a->w) & maskw(w); break;
      case K::FADD: case K::FSUB: case K::FMUL: case K::FDIV: r = ffold(e->k, ev(e->a, model), ev(e->b, model), w); break;
      case K::FCMP: r = fcmpEval(e->aux, ev(e->a, model), ev(e->b, model), e->a->w); break;
      case K::FPTOSI: r = f2i(ev(e->a, model), e->a->w, w, true); break;
      case K::FPTOUI: r = f2i(ev(e->a, model), e->a->w, w, false); break;
      case K::SITOFP: r = itofp(cst(ev(e->a, model), e->a->w), w, true)->val; break;
      case K::UITOFP: r = itofp(cst(ev(e->a, model), e->a->w), w, false)->val; break;
      case K::FPEXT: r = fromD(asD(ev(e->a, model), 32), 64); break;
      case K::FPTRUNC: r = fromD(asD(ev(e->a, model), 64), 32); break;
      case K::FSQRT: r = w == 32 ? fromD(sqrtf((float)asD(ev(e->a, model), 32)), 32) : fromD(std::sqrt(asD(ev(e->a, model), 64)), 64); break;
      case K::UF: r = ufEval(ufs[e->aux].name, ev(e->a, model), e->b ? ev(e->b, model) : 0, w); break;
      default: r = fold(e->k, ev(e->a, model), ev(e->b, model), e->a->w); break;
    }
    e->gen = evalGen; e->ev = r; return r;
  }
};
