// z3-backed satisfiability of conjunctions of 1-bit expressions, with slicing and caching.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <map>
#include <functional>

enum class Sat { SAT, UNSAT, UNKNOWN };
typedef std::vector<uint64_t> Model;

struct Solver {
  ExprMgr& M;
  Z3_context ctx; Z3_solver s = nullptr; Z3_solver sfp = nullptr;
  uint64_t queries = 0, cacheHits = 0, unknowns = 0; double time = 0; unsigned timeoutMs = 60000;
  uint64_t nsat = 0, nunsat = 0, nfp = 0;
  std::vector<Z3_func_decl> ufd;
  Solver(ExprMgr& m) : M(m) {
    Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); });
    s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s);
    setTimeout_(s);
    sfp = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, sfp); setTimeout_(sfp);
  }
  void setTimeout_(Z3_solver sv) {
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, sv, p); Z3_params_dec_ref(ctx, p);
  }
  Z3_ast num(u128 v, unsigned w) {
    Z3_sort so = Z3_mk_bv_sort(ctx, w);
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, so);
    char buf[48]; int i = 47; buf[i] = 0; u128 x = v; if (!x) buf[--i] = '0'; while (x) { buf[--i] = '0' + (int)(x % 10); x /= 10; }
    return Z3_mk_numeral(ctx, buf + i, so);
  }
  Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, num(1, 1), num(0, 1)); }
  Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
  Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
  bool isFp(E e) { switch (e->k) { case K::FADD: case K::FSUB: case K::FMUL: case K::FDIV: case K::SITOFP: case K::UITOFP: case K::FPEXT: case K::FPTRUNC: case K::FSQRT: return true; default: return false; } }
  Z3_ast fp(E e) {
    if (e->z3fp) return (Z3_ast)e->z3fp;
    Z3_ast r;
    switch (e->k) {
      case K::FADD: r = Z3_mk_fpa_add(ctx, rne(), fp(e->a), fp(e->b)); break;
      case K::FSUB: r = Z3_mk_fpa_sub(ctx, rne(), fp(e->a), fp(e->b)); break;
      case K::FMUL: r = Z3_mk_fpa_mul(ctx, rne(), fp(e->a), fp(e->b)); break;
      case K::FDIV: r = Z3_mk_fpa_div(ctx, rne(), fp(e->a), fp(e->b)); break;
      case K::FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne(), fp(e->a)); break;
      case K::SITOFP: r = Z3_mk_fpa_to_fp_signed(ctx, rne(), bv(e->a), fps(e->w)); break;
      case K::UITOFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne(), bv(e->a), fps(e->w)); break;
      case K::FPEXT: case K::FPTRUNC: r = Z3_mk_fpa_to_fp_float(ctx, rne(), fp(e->a), fps(e->w)); break;
      default: r = Z3_mk_fpa_to_fp_bv(ctx, bv(e), fps(e->w)); break;
    }
    Z3_inc_ref(ctx, r); e->z3fp = r; return r;
  }
  Z3_ast boolean(E e) {  // 1-bit expr as z3 Bool (cached in the z3fp slot, unused for 1-bit terms)
    if (e->z3fp) return (Z3_ast)e->z3fp;
    Z3_ast r = boolean_(e); Z3_inc_ref(ctx, r); e->z3fp = r; return r;
  }
  Z3_ast boolean_(E e) {
    switch (e->k) {
      case K::CONST: return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      case K::EQ: if (e->a->w == 1) break; return Z3_mk_eq(ctx, bv(e->a), bv(e->b));
      case K::ULT: return Z3_mk_bvult(ctx, bv(e->a), bv(e->b));
      case K::ULE: return Z3_mk_bvule(ctx, bv(e->a), bv(e->b));
      case K::SLT: return Z3_mk_bvslt(ctx, bv(e->a), bv(e->b));
      case K::SLE: return Z3_mk_bvsle(ctx, bv(e->a), bv(e->b));
      case K::AND: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; return Z3_mk_and(ctx, 2, x); }
      case K::OR: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; return Z3_mk_or(ctx, 2, x); }
      case K::XOR: if (ExprMgr::isC(e->b, 1)) return Z3_mk_not(ctx, boolean(e->a)); return Z3_mk_xor(ctx, boolean(e->a), boolean(e->b));
      case K::FCMP: { unsigned p = e->aux; Z3_ast x = fp(e->a), y = fp(e->b);
        Z3_ast un[2] = {Z3_mk_fpa_is_nan(ctx, x), Z3_mk_fpa_is_nan(ctx, y)}; Z3_ast anyN = Z3_mk_or(ctx, 2, un);
        std::vector<Z3_ast> o; if (p & 1) o.push_back(Z3_mk_fpa_eq(ctx, x, y)); if (p & 2) o.push_back(Z3_mk_fpa_gt(ctx, x, y)); if (p & 4) o.push_back(Z3_mk_fpa_lt(ctx, x, y));
        if (p & 8) o.push_back(anyN);
        Z3_ast r = Z3_mk_or(ctx, o.size(), o.data());
        if (!(p & 8) && (p & 7) == 7) r = Z3_mk_not(ctx, anyN);
        return r; }
      default: break;
    }
    return Z3_mk_eq(ctx, bv(e), num(1, 1));
  }
  Z3_ast bv(E e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r;
    switch (e->k) {
      case K::CONST: r = num(e->val, e->w); break;
      case K::VAR: { std::string n = "v" + std::to_string(e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->w)); break; }
      case K::ADD: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
      case K::SUB: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
      case K::MUL: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
      case K::UDIV: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
      case K::SDIV: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
      case K::UREM: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
      case K::SREM: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
      case K::AND: if (e->w == 1) { r = b2v(boolean(e)); break; } r = Z3_mk_bvand(ctx, bv(e->a), bv(e->b)); break;
      case K::OR: if (e->w == 1) { r = b2v(boolean(e)); break; } r = Z3_mk_bvor(ctx, bv(e->a), bv(e->b)); break;
      case K::XOR: r = Z3_mk_bvxor(ctx, bv(e->a), bv(e->b)); break;
      case K::SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
      case K::LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
      case K::ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
      case K::EQ: if (e->a->w == 1) { r = Z3_mk_bvnot(ctx, Z3_mk_bvxor(ctx, bv(e->a), bv(e->b))); break; }  // fallthrough
      case K::ULT: case K::ULE: case K::SLT: case K::SLE: case K::FCMP: r = b2v(boolean(e)); break;
      case K::ITE: r = Z3_mk_ite(ctx, boolean(e->a), bv(e->b), bv(e->c)); break;
      case K::CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
      case K::EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, bv(e->a)); break;
      case K::ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
      case K::SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
      case K::FPTOSI: case K::FPTOUI: {
        bool sg = e->k == K::FPTOSI; unsigned fw = e->a->w; Z3_ast x = fp(e->a);
        Z3_ast rtz = Z3_mk_fpa_rtz(ctx); Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, rtz, x);
        auto lit = [&](double d) { return Z3_mk_fpa_to_fp_bv(ctx, num(ExprMgr::fromD(d, fw), fw), fps(fw)); };
        double hi = std::ldexp(1.0, sg ? e->w - 1 : e->w), lo = sg ? -std::ldexp(1.0, e->w - 1) : 0.0;
        Z3_ast cs[2] = {Z3_mk_fpa_lt(ctx, t, lit(hi)), Z3_mk_fpa_geq(ctx, t, lit(lo))};
        Z3_ast conv = sg ? Z3_mk_fpa_to_sbv(ctx, rtz, x, e->w) : Z3_mk_fpa_to_ubv(ctx, rtz, x, e->w);
        r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, cs), conv, num((u128)1 << (e->w - 1), e->w)); break; }
      case K::UF: {
        while (ufd.size() <= e->aux) { auto& u = M.ufs[ufd.size()]; Z3_sort d[2] = {Z3_mk_bv_sort(ctx, 64), Z3_mk_bv_sort(ctx, 64)};
          Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, u.name.c_str()), u.n, d, Z3_mk_bv_sort(ctx, 64)); Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, f)); ufd.push_back(f); }
        Z3_ast as[2] = {bv(e->a), e->b ? bv(e->b) : nullptr};
        r = Z3_mk_app(ctx, ufd[e->aux], e->b ? 2 : 1, as); break; }
      default: r = Z3_mk_fpa_to_ieee_bv(ctx, fp(e)); break;
    }
    Z3_inc_ref(ctx, r); e->z3 = r; return r;
  }
  struct KeyH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); } return h; } };
  struct Res { Sat r; std::vector<std::pair<uint32_t, uint64_t>> m; };
  std::unordered_map<std::vector<uint32_t>, Res, KeyH> cache;

  // --- truth tables of conditions over a single variable of at most 8 bits (used for path feasibility only) ---
  struct Tab { uint64_t b[4]; };
  std::unordered_map<uint32_t, Tab> tabs; uint64_t domQueries = 0;
  bool single(E e) { return !e->hasFp && e->vars->v.size() == 1 && M.varinfo[e->vars->v[0]].w <= 8; }
  const Tab& tab(E e) {
    auto it = tabs.find(e->id); if (it != tabs.end()) return it->second;
    struct One { uint32_t i; uint64_t v; size_t size() const { return (size_t)i + 1; } uint64_t operator[](size_t) const { return v; } };
    uint32_t vi = e->vars->v[0]; unsigned n = 1u << M.varinfo[vi].w; Tab t{{0, 0, 0, 0}};
    for (unsigned x = 0; x < n; x++) { One o{vi, x}; if (M.eval(e, o)) t.b[x >> 6] |= 1ull << (x & 63); }
    return tabs.emplace(e->id, t).first->second;
  }
  // Decides pc AND cond when the slice of cond is one small variable; otherwise returns UNKNOWN (or UNSAT when already decided).
  Sat domain(const std::vector<E>& pc, E cond, Model* model) {
    if (!single(cond)) return Sat::UNKNOWN;
    uint32_t v = cond->vars->v[0]; Tab t = tab(cond); bool exact = true;
    for (E e : pc) { if (e->vars == cond->vars && !e->hasFp) { const Tab& u = tab(e); for (int i = 0; i < 4; i++) t.b[i] &= u.b[i]; }
      else if (exact && std::binary_search(e->vars->v.begin(), e->vars->v.end(), v)) exact = false; }
    int x = -1; for (int i = 0; i < 4 && x < 0; i++) if (t.b[i]) x = i * 64 + __builtin_ctzll(t.b[i]);
    if (x < 0) { domQueries++; return Sat::UNSAT; }
    if (!exact) return Sat::UNKNOWN;
    domQueries++; if (model) { if (model->size() <= v) model->resize(v + 1, 0); (*model)[v] = x; }
    return Sat::SAT;
  }
  // --- cache key modulo renaming of variables ---
  std::unordered_map<const Expr*, uint32_t> canN; std::vector<uint32_t> canVars; std::unordered_map<uint32_t, uint32_t> canVid;
  void canon(E e, std::string& k) {
    auto put = [&](uint64_t x) { k.append((const char*)&x, 8); };
    auto it = canN.find(e); if (it != canN.end()) { k.push_back('#'); put(it->second); return; }
    k.push_back((char)('A' + (int)e->k)); uint32_t ax = e->aux;
    if (e->k == K::VAR) { auto r = canVid.emplace(e->aux, (uint32_t)canVars.size()); if (r.second) canVars.push_back(e->aux); ax = r.first->second; }
    put(((uint64_t)e->w << 32) | ax); if (e->k == K::CONST) { put((uint64_t)e->val); put((uint64_t)(e->val >> 64)); return; }
    if (e->a) canon(e->a, k); if (e->b) canon(e->b, k); if (e->c) canon(e->c, k);
    canN.emplace(e, (uint32_t)canN.size());
  }
  struct CRes { Sat r; std::vector<uint64_t> m; };
  std::unordered_map<std::string, CRes> ccache;

  // Decide pc AND cond. On SAT, *model (initially an assignment satisfying pc) is updated to satisfy both.
  Sat check(const std::vector<E>& pc, E cond, Model* model) {
    if (cond->k == K::CONST && !cond->val) return Sat::UNSAT;
    // slice
    std::vector<uint32_t> vs = cond->vars->v; std::vector<E> cs{cond};
    if (cond->k == K::CONST) { if (pc.empty()) return Sat::SAT; }
    std::vector<char> used(pc.size(), 0);
    bool all = cond->k == K::CONST;
    auto inter = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return true; if (a[i] < b[j]) i++; else j++; } return false; };
    bool ch = true;
    while (ch) { ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!used[i] && (all || inter(vs, pc[i]->vars->v))) {
        used[i] = 1; cs.push_back(pc[i]);
        std::vector<uint32_t> r; std::set_union(vs.begin(), vs.end(), pc[i]->vars->v.begin(), pc[i]->vars->v.end(), std::back_inserter(r));
        if (r.size() != vs.size()) { vs.swap(r); ch = true; } } }
    std::vector<uint32_t> key; for (auto e : cs) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    std::string ck; bool chit = false;
    if (it == cache.end()) {
      canN.clear(); canVars.clear(); canVid.clear(); ck.reserve(4096); for (auto e : cs) { ck.push_back('|'); canon(e, ck); }
      auto ci = ccache.find(ck);
      if (ci != ccache.end()) { Res res; res.r = ci->second.r; for (size_t i = 0; i < ci->second.m.size(); i++) res.m.push_back({canVars[i], ci->second.m[i]}); it = cache.emplace(key, std::move(res)).first; chit = true; cacheHits++; }
    }
    if (chit) {} else if (it == cache.end()) {
      auto t0 = std::chrono::steady_clock::now();
      queries++;
      bool fpq = false; for (auto e : cs) fpq |= e->hasFp;
      Z3_solver s = fpq ? sfp : this->s; if (fpq) nfp++;
      Z3_solver_push(ctx, s);
      for (auto e : cs) Z3_solver_assert(ctx, s, boolean(e));
      Z3_lbool b = Z3_solver_check(ctx, s);
      if (getenv("VP_DUMP") && (b == Z3_L_UNDEF || getenv("VP_DUMP")[0] == (char)(48 + b))) fprintf(stderr, "UNKNOWN:\n%s\n", Z3_solver_to_string(ctx, s));
      Res res; res.r = b == Z3_L_TRUE ? Sat::SAT : b == Z3_L_FALSE ? Sat::UNSAT : Sat::UNKNOWN;
      if (b == Z3_L_TRUE) { nsat++;
        Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
        for (auto v : vs) { E ve = M.var(M.varinfo[v].name, M.varinfo[v].w); Z3_ast out; 
          if (Z3_model_eval(ctx, m, bv(ve), true, &out)) { uint64_t x = 0; Z3_get_numeral_uint64(ctx, out, &x); res.m.push_back({v, x}); } }
        Z3_model_dec_ref(ctx, m);
      } else if (b == Z3_L_FALSE) nunsat++;
      Z3_solver_pop(ctx, s, 1);
      time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (res.r == Sat::UNKNOWN) unknowns++;
      CRes cr; cr.r = res.r; if (res.r == Sat::SAT) for (uint32_t v : canVars) { uint64_t x = 0; for (auto& p : res.m) if (p.first == v) x = p.second; cr.m.push_back(x); }
      ccache.emplace(std::move(ck), std::move(cr));
      it = cache.emplace(std::move(key), std::move(res)).first;
    } else cacheHits++;
    if (it->second.r == Sat::SAT && model) for (auto& p : it->second.m) { if (model->size() <= p.first) model->resize(p.first + 1, 0); (*model)[p.first] = p.second; }
    return it->second.r;
  }
};
