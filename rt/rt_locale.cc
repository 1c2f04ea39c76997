// Model of libstdc++'s out-of-line locale, stream and regex support: the classic "C" locale only.
// The templates (streams, num_put, regex compiler and executors) are the real headers' code; only what the
// shared library contains in compiled form is written out here. Compiled with -fno-access-control.
#include <locale>
#include <sstream>
#include <regex>
#include <new>
#include <cstdlib>
#include <system_error>
#include <bits/cxxabi_forced.h>

namespace std {
// ------------------------------------------------------------ ids
_Atomic_word locale::id::_S_refcount;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = (size_t)__atomic_add_fetch(&_S_refcount, 1, __ATOMIC_ACQ_REL); return _M_index - 1; }
locale::id ctype<char>::id; 
// ------------------------------------------------------------ facets
locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
const char* locale::facet::_S_get_c_name() throw() { return "C"; }
void locale::facet::_S_destroy_c_locale(__c_locale&) {}
__c_locale locale::facet::_S_clone_c_locale(__c_locale& c) throw() { return c; }
void locale::facet::_S_create_c_locale(__c_locale& c, const char*, __c_locale) { c = nullptr; }

static ctype_base::mask g_mask[256]; static int g_up[256], g_low[256];
ctype<char>::ctype(const mask* t, bool del, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(del && t), _M_toupper(g_up), _M_tolower(g_low), _M_table(t ? t : g_mask), _M_widen_ok(0), _M_narrow_ok(0) {}
ctype<char>::ctype(__c_locale, const mask* t, bool del, size_t r) : ctype(t, del, r) {}
ctype<char>::~ctype() {}
const ctype<char>::mask* ctype<char>::classic_table() throw() { return g_mask; }
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
const char* ctype<char>::do_toupper(char* l, const char* h) const { for (; l < h; ++l) *l = do_toupper(*l); return h; }
const char* ctype<char>::do_tolower(char* l, const char* h) const { for (; l < h; ++l) *l = do_tolower(*l); return h; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; ++i) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; ++i) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }

template <> int collate<char>::_M_compare(const char* a, const char* b) const throw() { for (;; ++a, ++b) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
template <> size_t collate<char>::_M_transform(char* to, const char* from, size_t n) const throw() { size_t k = 0; while (from[k]) { if (k < n) to[k] = from[k]; ++k; } if (k < n) to[k] = 0; return k; }
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
    if (!_M_data) _M_data = new __numpunct_cache<char>;
    _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false; _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
    for (size_t i = 0; i < __num_base::_S_oend; ++i) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
    for (size_t i = 0; i < __num_base::_S_iend; ++i) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
    _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5;
}
template <> numpunct<char>::~numpunct() {}
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
void __num_base::_S_format_float(const ios_base& io, char* f, char mod) throw() {
    ios_base::fmtflags fl = io.flags(); *f++ = '%'; if (fl & ios_base::showpos) *f++ = '+'; if (fl & ios_base::showpoint) *f++ = '#';
    ios_base::fmtflags ff = fl & ios_base::floatfield; if (ff != (ios_base::fixed | ios_base::scientific)) { *f++ = '.'; *f++ = '*'; }
    if (mod) *f++ = mod; bool up = fl & ios_base::uppercase;
    if (ff == ios_base::fixed) *f++ = 'f'; else if (ff == ios_base::scientific) *f++ = up ? 'E' : 'e'; else if (ff == (ios_base::fixed | ios_base::scientific)) *f++ = up ? 'A' : 'a'; else *f++ = up ? 'G' : 'g';
    *f = 0;
}
bool __verify_grouping(const char*, size_t, const string&) throw() { return true; }

// ------------------------------------------------------------ the one locale
static const locale::facet* g_facets[64]; static const locale::facet* g_caches[64]; static bool g_ready;
alignas(16) static char m_ctype[sizeof(ctype<char>)], m_coll[sizeof(collate<char>)], m_np[sizeof(numpunct<char>)], m_put[sizeof(num_put<char>)], m_get[sizeof(num_get<char>)], m_impl[sizeof(locale::_Impl)], m_cache[sizeof(__numpunct_cache<char>)];
static locale::_Impl* theImpl() {
    locale::_Impl* im = reinterpret_cast<locale::_Impl*>(m_impl);
    if (g_ready) return im;
    g_ready = true;
    for (int i = 0; i < 256; ++i) {
        bool lo = i >= 'a' && i <= 'z', up = i >= 'A' && i <= 'Z', di = i >= '0' && i <= '9'; int m = 0;
        if (lo) m |= ctype_base::lower | ctype_base::alpha; if (up) m |= ctype_base::upper | ctype_base::alpha; if (di) m |= ctype_base::digit;
        if (di || (i >= 'a' && i <= 'f') || (i >= 'A' && i <= 'F')) m |= ctype_base::xdigit;
        if (i == ' ' || (i >= 9 && i <= 13)) m |= ctype_base::space; if (i == ' ' || i == 9) m |= ctype_base::blank;
        if (i >= 32 && i < 127) m |= ctype_base::print; if (i < 32 || i == 127) m |= ctype_base::cntrl;
        if (i > 32 && i < 127 && !lo && !up && !di) m |= ctype_base::punct;
        g_mask[i] = (ctype_base::mask)m; g_up[i] = lo ? i - 32 : i; g_low[i] = up ? i + 32 : i;
    }
    im->_M_refcount = 1000; im->_M_facets = g_facets; im->_M_facets_size = 64; im->_M_caches = g_caches; im->_M_names = nullptr;
    g_facets[ctype<char>::id._M_id()] = new (m_ctype) ctype<char>(nullptr, false, 1);
    static_cast<const ctype<char>*>(g_facets[ctype<char>::id._M_id()])->_M_widen_init();
    static_cast<const ctype<char>*>(g_facets[ctype<char>::id._M_id()])->_M_narrow_init();
    g_facets[collate<char>::id._M_id()] = new (m_coll) collate<char>(1);
    g_facets[numpunct<char>::id._M_id()] = new (m_np) numpunct<char>(new (m_cache) __numpunct_cache<char>(2), 1);
    g_caches[numpunct<char>::id._M_id()] = reinterpret_cast<__numpunct_cache<char>*>(m_cache);
    g_facets[num_put<char>::id._M_id()] = new (m_put) num_put<char>(1);
    g_facets[num_get<char>::id._M_id()] = new (m_get) num_get<char>(1);
    return im;
}
void locale::_Impl::_M_install_cache(const facet* c, size_t i) { if (!g_caches[i]) g_caches[i] = c; else delete c; }
locale::locale() throw() : _M_impl(theImpl()) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::locale(const char*) : _M_impl(theImpl()) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale&) const throw() { return true; }
string locale::name() const { return "C"; }
const locale& locale::classic() { alignas(8) static char b[sizeof(locale)]; static bool r; if (!r) { r = true; new (b) locale(); } return *reinterpret_cast<locale*>(b); }
locale locale::global(const locale& o) { return o; }

// ------------------------------------------------------------ streams
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
void __throw_ios_failure(const char* s, int) { throw runtime_error(s); }
// ------------------------------------------------------------ regex
regex_error::regex_error(regex_constants::error_type e) : runtime_error("regex_error"), _M_code(e) {}
regex_error::~regex_error() throw() {}
void __throw_regex_error(regex_constants::error_type e) { throw regex_error(e); }
} // namespace std
namespace __cxxabiv1 { __forced_unwind::~__forced_unwind() throw() {} }

// ------------------------------------------------------------ function-local statics
extern "C" {
void sx_yield();
char __libc_single_threaded = 0;
int __cxa_guard_acquire(long long* g) {
    char* b = reinterpret_cast<char*>(g);
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    while (__atomic_exchange_n(b + 1, 1, __ATOMIC_ACQ_REL)) { if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0; sx_yield(); }
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE); return 0; }
    return 1;
}
void __cxa_guard_release(long long* g) { char* b = reinterpret_cast<char*>(g); __atomic_store_n(b, 1, __ATOMIC_RELEASE); __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE); }
void __cxa_guard_abort(long long* g) { __atomic_store_n(reinterpret_cast<char*>(g) + 1, 0, __ATOMIC_RELEASE); }
}
