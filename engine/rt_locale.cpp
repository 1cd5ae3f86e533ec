// Locale model for the symbolic executor: the C locale with the facets std::regex needs (ctype<char>, collate<char>).
#include <cctype>
#include <cstring>
#include <locale>
namespace std {
struct vp_impl { int rc; const locale::facet** facets; size_t size; };
extern vp_impl vp_loc;
locale::locale() noexcept : _M_impl((_Impl*)&vp_loc) {}
locale::locale(const locale&) noexcept : _M_impl((_Impl*)&vp_loc) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale&) noexcept { return *this; }
const locale& locale::classic() { static locale l; return l; }
bool locale::operator==(const locale&) const noexcept { return true; }
string locale::name() const { return "C"; }
locale::id ctype<char>::id; 
size_t locale::id::_M_id() const noexcept { return this == &std::ctype<char>::id ? 1 : this == &std::collate<char>::id ? 2 : 0; }
locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
void locale::facet::_S_destroy_c_locale(__c_locale&) {}
__c_locale locale::facet::_S_clone_c_locale(__c_locale&) noexcept { return nullptr; }
const ctype<char>::mask* ctype<char>::classic_table() throw() { return *__ctype_b_loc(); }
ctype<char>::ctype(const mask* t, bool d, size_t refs) : facet(refs), _M_c_locale_ctype(nullptr), _M_del(d), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t ? t : classic_table()), _M_widen_ok(1), _M_narrow_ok(1) { for (int i = 0; i < 256; i++) _M_widen[i] = _M_narrow[i] = (char)i; }
ctype<char>::~ctype() {}
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; a++) *a = do_toupper(*a); return b; }
char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; a++) *a = do_tolower(*a); return b; }
template <> int collate<char>::_M_compare(const char* a, const char* b) const throw() { return strcmp(a, b); }
template <> size_t collate<char>::_M_transform(char* d, const char* s, size_t n) const throw() { size_t l = strlen(s); if (n) { size_t k = l < n - 1 ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
template class collate<char>;
struct vp_ct : ctype<char> { using ctype<char>::ctype; ~vp_ct() {} }; struct vp_co : collate<char> { using collate<char>::collate; ~vp_co() {} };
static vp_ct vp_ctype(nullptr, false, 1);
static vp_co vp_collate(1);
static const locale::facet* vp_facets[3] = {nullptr, &vp_ctype, &vp_collate};
vp_impl vp_loc = {1, vp_facets, 3};
}
