// Instruction and core function references through serialization and back.
#include "val.h"
#include "libqasm/v3x/core_function.hpp"
#include "libqasm/v3x/instruction.hpp"
namespace pr = cqasm::v3x::primitives; using instruction::Instruction; using instruction::InstructionRef; using function::CoreFunction; using function::CoreFunctionRef;
template <typename T> static T round(const T& v) { std::string s; s.push_back('m'); ::tree::cbor::MapWriter w(&s); pr::serialize(v, w); w.close(); vp_observe("bytes", s.size()); ::tree::cbor::MapReader r(s); return pr::deserialize<T>(r); }
struct Ty { unsigned k; i64 size; };
static Ty ty(unsigned nk) { Ty t; t.k = choose("kind", nk); t.size = (i64)sym64("size"); return t; }
static types::Type mk(const Ty& t) { return mktype(t.k, t.size); }
static bool eq(const Ty& a, const Ty& b) { return a.k == b.k && vp_fork(a.size == b.size); }
static i64 tsize(const types::Type& t) { return t->size; }
static void check_type(const types::Type& t, const Ty& w, const char* m) { vp_check(!t.empty() && kind_of(t) == (int)w.k, m); if (!t.empty()) vp_check(tsize(t) == w.size, m); }
extern "C" void vp_main() {
  unsigned mode = vp_param("MODE", 0), n = vp_param("N", 2), nk = vp_param("KINDS", NKIND);
  if (mode == 0) {
    auto ref = ct::make<Instruction>(); ref->name = teststr("name"); std::vector<Ty> ts; for (unsigned i = 0; i < n; i++) { ts.push_back(ty(nk)); ref->operand_types.add(mk(ts[i])); }
    InstructionRef in{ref.get_ptr()}, out = round(in); vp_reach("instruction"); vp_check(!out.empty(), "a reference stays a reference"); if (out.empty()) return;
    check_same(out->name, ref->name, "the name survives"); vp_check(out->operand_types.size() == n, "the number of operand types survives"); if (out->operand_types.size() != n) return;
    for (unsigned i = 0; i < n; i++) check_type(out->operand_types[i], ts[i], "operand types survive in order"); vp_check(*out == *ref, "the deserialized reference is equal");
    vp_check(round(InstructionRef{}).empty(), "an empty reference stays empty");
  } else if (mode == 1) {
    auto ref = ct::make<CoreFunction>(); ref->name = teststr("name"); std::vector<Ty> ts; for (unsigned i = 0; i < n; i++) { ts.push_back(ty(nk)); ref->param_types.add(mk(ts[i])); } Ty rt = ty(nk); ref->return_type = mk(rt);
    CoreFunctionRef in{ref.get_ptr()}, out = round(in); vp_reach("function"); vp_check(!out.empty(), "a reference stays a reference"); if (out.empty()) return;
    check_same(out->name, ref->name, "the name survives"); vp_check(out->param_types.size() == n, "the number of parameter types survives"); if (out->param_types.size() != n) return;
    for (unsigned i = 0; i < n; i++) check_type(out->param_types[i], ts[i], "parameter types survive in order"); check_type(out->return_type, rt, "the return type survives"); vp_check(*out == *ref, "the deserialized reference is equal");
    vp_check(round(CoreFunctionRef{}).empty(), "an empty reference stays empty");
  } else {
    unsigned m = vp_param("M", n); std::string x = symstr("x", vp_param("LEN", 2)), y = symstr("y", vp_param("LEN2", vp_param("LEN", 2))); std::vector<Ty> a, b; for (unsigned i = 0; i < n; i++) a.push_back(ty(nk)); for (unsigned i = 0; i < m; i++) b.push_back(ty(nk));
    bool same_ = n == m && x.size() == y.size() && vp_fork(same(x, y)); for (unsigned i = 0; same_ && i < n; i++) same_ = eq(a[i], b[i]);
    vp_reach(same_ ? "equal" : "different");
    if (mode == 2) { Instruction p, q; p.name = x; q.name = y; for (auto& t : a) p.operand_types.add(mk(t)); for (auto& t : b) q.operand_types.add(mk(t)); vp_check((p == q) == same_, "instructions are equal exactly when name and operand types agree"); vp_check((p != q) == !same_, "instructions differ exactly when name or operand types differ"); vp_check(p == p, "an instruction equals itself"); }
    else { Ty r = ty(nk), s = ty(nk); same_ = same_ && eq(r, s); CoreFunction p, q; p.name = x; q.name = y; for (auto& t : a) p.param_types.add(mk(t)); for (auto& t : b) q.param_types.add(mk(t)); p.return_type = mk(r); q.return_type = mk(s); vp_check((p == q) == same_, "functions are equal exactly when name, parameter and return types agree"); vp_check((p != q) == !same_, "functions differ exactly when name, parameter or return types differ"); }
    vp_observe("same", same_);
  }
}
