// Models of the C and C++ runtime library for the symbolic executor (compiled to bitcode and linked
// with the code under analysis). Everything here is library behaviour; no libqasm code.
#include <cctype>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <new>
#include <typeinfo>
#include <stdexcept>
#include <exception>
#include <optional>
#include <variant>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <locale>
#include <list>
#include <map>
#include <set>
#include <any>
#include <system_error>
#include <filesystem>
#include <unordered_map>

extern "C" int __gxx_personality_v0(...) { return 0; }
extern "C" char* strdup(const char*);
// ---- C++ runtime ----
const std::nothrow_t std::nothrow{};
namespace std {
__cow_string::__cow_string() : _M_p(strdup("")) {}
__cow_string::__cow_string(const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; _M_p = p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(strdup(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = strdup(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(strdup(o._M_p)) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = strdup(o._M_p); } return *this; }

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

#define EXC0(C) C::C(const std::string& s) : _M_msg(s) {} C::C(const char* s) : _M_msg(s, strlen(s)) {} C::~C() noexcept {} const char* C::what() const noexcept { return _M_msg._M_p; } \
  C::C(const C& o) noexcept : exception(o), _M_msg(o._M_msg) {} C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; } \
  C::C(C&& o) noexcept : exception(o), _M_msg(o._M_msg) {} C& C::operator=(C&& o) noexcept { _M_msg = o._M_msg; return *this; }
EXC0(logic_error) EXC0(runtime_error)
#define EXC1(C, B) C::C(const std::string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
EXC1(domain_error, logic_error) EXC1(invalid_argument, logic_error) EXC1(length_error, logic_error) EXC1(out_of_range, logic_error)
EXC1(range_error, runtime_error) EXC1(overflow_error, runtime_error) EXC1(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_weak_ptr_() { throw bad_weak_ptr(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { __builtin_trap(); }

// Any hash function is a correct one: containers must not depend on it. Length only keeps it concrete.
size_t _Hash_bytes(const void*, size_t n, size_t) { return n; }
size_t _Fnv_hash_bytes(const void*, size_t n, size_t) { return n; }
namespace __detail {
static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; } _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize || nb == 1) { size_t want = ne + ni; if (want >= nb) return {true, _M_next_bkt(want + 1 > nb * 2 ? want + 1 : nb * 2)}; _M_next_resize = nb; }
  return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { auto* x = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = x; t = t->_M_prev; } while (t != this); }
}
// Red-black tree hooks: an unbalanced binary search tree has the same observable behaviour.
static _Rb_tree_node_base* rbInc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* rbDec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return rbInc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return rbInc((_Rb_tree_node_base*)x); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return rbDec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return rbDec((_Rb_tree_node_base*)x); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z, _Rb_tree_node_base& h) noexcept {
  auto*& root = h._M_parent; auto*& lm = h._M_left; auto*& rm = h._M_right; auto* y = z; _Rb_tree_node_base* x = nullptr;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; y = z; }
  else { if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto* t = x; while (t->_M_left) t = t->_M_left; lm = t; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto* t = x; while (t->_M_right) t = t->_M_right; rm = t; } } }
  return y; }
bool _Sp_make_shared_tag::_S_eq(const type_info& t) noexcept { return t == typeid(_Sp_make_shared_tag); }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

// ---- streams: state, no locale facets ----
ios_base::ios_base() noexcept {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
locale ios_base::imbue(const locale&) noexcept { return locale(); }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const noexcept { return "ios_base::failure"; }

}

// ---- files: a fixed file system that every sandbox has too ----
namespace std::filesystem {
path::_List::_List() {}
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
void path::_M_split_cmpts() {}
file_status status(const path& p) { const auto& s = p.native(); if (s == "/" || s == "/etc" || s == "/dev") return file_status(file_type::directory); if (s == "/etc/passwd") return file_status(file_type::regular); if (s == "/dev/null") return file_status(file_type::character); return file_status(file_type::not_found); }
file_status status(const path& p, error_code& e) noexcept { e.clear(); return status(p); }
file_status symlink_status(const path& p) { return status(p); }
file_status symlink_status(const path& p, error_code& e) noexcept { e.clear(); return status(p); }
}
