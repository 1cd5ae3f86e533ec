// Primitives through serialization and back.
#include "val.h"
#include "libqasm/v3x/primitives.hpp"
namespace pr = cqasm::v3x::primitives;
template <typename T> static T round(const T& v) { std::string s; ::tree::cbor::MapWriter w(&s); s.push_back('m'); pr::serialize(v, w); w.close(); vp_observe("bytes", digest(s)); ::tree::cbor::MapReader r(s); return pr::deserialize<T>(r); }
extern "C" void vp_main() {
  switch (vp_param("TYPE", 0)) {
    case 0: { bool v = symb("v"); vp_check(round<pr::Bool>(v) == v, "a boolean survives serialization"); vp_check(symb("any") | !pr::initialize<pr::Bool>(), "the neutral boolean is false"); vp_reach("boolean"); break; }
    case 1: { i64 v = (i64)sym64("v"); vp_check(round<pr::Int>(v) == v, "an integer survives serialization"); vp_check(pr::initialize<pr::Int>() == 0, "the neutral integer is zero"); vp_reach("integer"); break; }
    case 2: { u64 b = sym64("v"); vp_check(bits(round<pr::Float>(asdouble(b))) == b, "a double survives serialization bit by bit"); vp_check(bits(pr::initialize<pr::Float>()) == 0, "the neutral double is zero"); vp_reach("double"); break; }
    case 3: { std::string s = teststr("s"); check_same(round<pr::Str>(s), s, "a text survives serialization"); vp_check(pr::initialize<pr::Str>().empty(), "the neutral text is empty"); vp_reach("text"); break; }
    case 4: { u64 x = sym64("x"), y = sym64("y"), z = sym64("z"); pr::Axis a{asdouble(x), asdouble(y), asdouble(z)}, b = round<pr::Axis>(a); vp_check((bits(b.x) == x) & (bits(b.y) == y) & (bits(b.z) == z), "an axis survives serialization bit by bit"); auto n = pr::initialize<pr::Axis>(); vp_check((bits(n.x) == bits(1.0)) & (bits(n.y) == 0) & (bits(n.z) == 0), "the neutral axis is x"); vp_reach("axis"); break; }
    case 5: { u64 x = sym64("x"), y = sym64("y"); pr::Complex c(asdouble(x), asdouble(y)), d = round<pr::Complex>(c); vp_check((bits(d.real()) == x) & (bits(d.imag()) == y), "a complex number survives serialization bit by bit"); auto n = pr::initialize<pr::Complex>(); vp_check((bits(n.real()) == 0) & (bits(n.imag()) == 0), "the neutral complex number is zero"); vp_reach("complex"); break; }
    default: { unsigned n = vp_param("LEN", 2); pr::Version v(""); v.clear(); for (unsigned i = 0; i < n; i++) v.push_back((i64)sym64("n")); pr::Version r = round<pr::Version>(v); vp_check(r.size() == v.size(), "a version keeps its number of components"); if (r.size() == v.size()) for (unsigned i = 0; i < n; i++) vp_check(r[i] == v[i], "a version survives serialization"); vp_reach("version"); break; }
  }
}
