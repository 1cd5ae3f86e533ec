// Stream library models: formatted insertion without locale facets. The functions are defined under
// their mangled names so that they take precedence over the library's template definitions.
#include <cstdio>
#include <cstring>
#include <string>
#include <ostream>
#include <ios>
typedef unsigned long long ull_;
using namespace std;
// basic_ios<char>: no locale caches
struct IosPeek : std::basic_ios<char> { using B = std::basic_ios<char>;
  static void init(std::basic_ios<char>* self, std::basic_streambuf<char>* sb) { auto* s = (IosPeek*)self; ((IosPeek*)self)->ios_base::_M_init(); s->_M_tie = nullptr; s->_M_fill = ' '; s->_M_fill_init = true; s->_M_streambuf = sb; s->_M_ctype = nullptr; s->_M_num_put = nullptr; s->_M_num_get = nullptr; s->_M_exception = goodbit; s->_M_streambuf_state = sb ? goodbit : badbit; } static char fl(std::basic_ios<char>& o) { return ((IosPeek&)o)._M_fill; } };
extern "C" {
unsigned vp_double_to_text(double v, int precision, int style, char* out);  // engine: printf("%.*g/f/e")
void vp_fail(const char*); unsigned vp_udec(ull_ v, char* out);
static unsigned digitsOf(ull_ v, unsigned base, bool up, char* t) { unsigned k = 0; do { unsigned d = (unsigned)(v % base); t[k++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; } while (v); return k; }
static ostream& putPadded(ostream& os, const char* p, size_t n) {
  auto w = os.width(); size_t pad = w > (streamsize)n ? (size_t)w - n : 0; auto adj = os.flags() & ios_base::adjustfield; auto* sb = os.rdbuf();
  if (!sb) { os.setstate(ios_base::badbit); return os; }
  if (!os.good()) { os.width(0); return os; }
  if (pad) { char f = IosPeek::fl(os); if (adj != ios_base::left) for (size_t i = 0; i < pad; i++) sb->sputc(f);
    sb->sputn(p, (streamsize)n); if (adj == ios_base::left) for (size_t i = 0; i < pad; i++) sb->sputc(f); }
  else sb->sputn(p, (streamsize)n);
  os.width(0); return os; }
static ostream& putInt(ostream& os, ull_ v, bool neg, bool isSigned) {
  char t[72]; unsigned k = 0; auto fl = os.flags(); auto bf = fl & ios_base::basefield; bool up = fl & ios_base::uppercase; unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10;
  char r[80]; unsigned n = 0; if (base != 10) k = digitsOf(v, base, up, t);
  if (base == 10 && isSigned) { if (neg) r[n++] = '-'; else if (fl & ios_base::showpos) r[n++] = '+'; }
  if ((fl & ios_base::showbase) && v) { if (base == 16) { r[n++] = '0'; r[n++] = up ? 'X' : 'x'; } if (base == 8) r[n++] = '0'; }
  if (base == 10) n += vp_udec(v, r + n); else while (k) r[n++] = t[--k];
  if ((fl & ios_base::adjustfield) == ios_base::internal && os.width() > (streamsize)n) vp_fail("stream model: internal adjustment not modelled");
  return putPadded(os, r, n); }
static bool dec_(ostream& os) { auto bf = os.flags() & ios_base::basefield; return bf != ios_base::hex && bf != ios_base::oct; }
static ostream& putS(ostream& os, long long v) { bool d = dec_(os); return putInt(os, d && v < 0 ? (ull_)0 - (ull_)v : (ull_)v, v < 0, true); }
ostream& _ZNSo9_M_insertIlEERSoT_(ostream* o, long v) { return putS(*o, v); }
ostream& _ZNSo9_M_insertIxEERSoT_(ostream* o, long long v) { return putS(*o, v); }
ostream& _ZNSo9_M_insertImEERSoT_(ostream* o, unsigned long v) { return putInt(*o, v, false, false); }
ostream& _ZNSo9_M_insertIyEERSoT_(ostream* o, unsigned long long v) { return putInt(*o, v, false, false); }
ostream& _ZNSolsEi(ostream* o, int v) { return putS(*o, dec_(*o) ? (long long)v : (long long)(unsigned)v); }
ostream& _ZNSolsEs(ostream* o, short v) { return putS(*o, dec_(*o) ? (long long)v : (long long)(unsigned short)v); }
ostream& _ZNSo9_M_insertIbEERSoT_(ostream* o, bool v) { if (o->flags() & ios_base::boolalpha) return v ? putPadded(*o, "true", 4) : putPadded(*o, "false", 5); return putPadded(*o, v ? "1" : "0", 1); }
ostream& _ZNSo9_M_insertIdEERSoT_(ostream* o, double v) { char b[400]; auto ff = o->flags() & ios_base::floatfield; unsigned n = vp_double_to_text(v, (int)o->precision(), ff == ios_base::fixed ? 1 : ff == ios_base::scientific ? 2 : 0, b); return putPadded(*o, b, n); }
ostream& _ZNSo9_M_insertIPKvEERSoT_(ostream* o, const void*) { return putPadded(*o, "0x1", 3); }
ostream& _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(ostream& o, const char* p, long n) { return putPadded(o, p, (size_t)n); }
ostream& _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(ostream& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return putPadded(o, s, strlen(s)); }
ostream& _ZNSo5flushEv(ostream* o) { return *o; }
ostream& _ZNSo3putEc(ostream* o, char c) { if (o->good() && o->rdbuf()) o->rdbuf()->sputc(c); return *o; }
ostream& _ZNSo5writeEPKcl(ostream* o, const char* p, long n) { if (o->good() && o->rdbuf()) o->rdbuf()->sputn(p, n); return *o; }
ostream& _ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(ostream& o) { char c = '\n'; if (o.good() && o.rdbuf()) o.rdbuf()->sputc(c); return o; }
void _ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E(std::basic_ios<char>* self, std::basic_streambuf<char>* sb) { IosPeek::init(self, sb); }
void _ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale(std::basic_ios<char>*, const void*) {}
char _ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc(const std::basic_ios<char>*, char c) { return c; }
char _ZNKSt9basic_iosIcSt11char_traitsIcEE6narrowEcc(const std::basic_ios<char>*, char c, char) { return c; }
}
// ---- standard streams: what is written to them is dropped ----
namespace std {
[[gnu::init_priority(101)]] ostream cout(nullptr); [[gnu::init_priority(101)]] ostream cerr(nullptr); [[gnu::init_priority(101)]] ostream clog(nullptr);
}
