// Model of the C library functions the code under test uses; executed by the engine as LLVM IR.
// No C library headers here: their declarations differ in details (const overloads, macros).
typedef __SIZE_TYPE__ size_t;
#include <stdarg.h>
extern "C" { long double sx_strtold(const char*, size_t*); int sx_fmt(char* buf, size_t n, const char* fmt, long double v, int prec, int width); [[noreturn]] void sx_terminate(const char*); int memcmp(const void*, const void*, size_t); void* malloc(size_t); void free(void*); }
// ---------------------------------------------------------------- C library
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { for (;; ++a, ++b) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcasecmp(const char* a, const char* b) { for (;; ++a, ++b) { int x = (unsigned char)*a, y = (unsigned char)*b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { int x = (unsigned char)*a, y = (unsigned char)*b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return const_cast<char*>(s); if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return const_cast<char*>(r); } }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for (;; ++h) { if (strncmp(h, n, k) == 0) return const_cast<char*>(h); if (!*h) return nullptr; } }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char* strpbrk(const char* s, const char* a) { for (; *s; ++s) if (strchr(a, *s)) return const_cast<char*>(s); return nullptr; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { ++d; ++s; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* q = static_cast<const unsigned char*>(p); while (n--) if (q[n] == (unsigned char)c) return const_cast<unsigned char*>(q + n); return nullptr; }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { if (nn > hn) return nullptr; for (size_t i = 0; i + nn <= hn; ++i) if (!memcmp(static_cast<const char*>(h) + i, n, nn)) return const_cast<char*>(static_cast<const char*>(h) + i); return nullptr; }
void* rawmemchr(const void* p, int c) { const unsigned char* q = static_cast<const unsigned char*>(p); while (*q != (unsigned char)c) ++q; return const_cast<unsigned char*>(q); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int isalpha(int c) { return islower(c) | isupper(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static int g_errno;
int* __errno_location() { return &g_errno; }
static int digitOf(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static unsigned long long parseU(const char* s, char** e, int base, bool& neg, bool& ovf) {
    const char* p = s; while (isspace((unsigned char)*p)) ++p; neg = false; ovf = false;
    if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitOf((unsigned char)p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false;
    while (true) { int d = digitOf((unsigned char)*p); if (d >= base) break; any = true; if (v > (~0ULL - (unsigned)d) / (unsigned)base) ovf = true; v = v * (unsigned)base + (unsigned)d; ++p; }
    if (e) *e = const_cast<char*>(any ? p : s);
    return v;
}
unsigned long long strtoull(const char* s, char** e, int b) { bool n, o; auto v = parseU(s, e, b, n, o); if (o) { g_errno = 34; return ~0ULL; } return n ? 0 - v : v; }
unsigned long strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
long long strtoll(const char* s, char** e, int b) { bool n, o; auto v = parseU(s, e, b, n, o); if (n) { if (o || v > 1ULL << 63) { g_errno = 34; return (long long)(1ULL << 63); } return (long long)(0 - v); } if (o || v >> 63) { g_errno = 34; return (long long)(~0ULL >> 1); } return (long long)v; }
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
long double strtold(const char* s, char** e) { size_t n = 0; long double r = sx_strtold(s, &n); if (e) *e = const_cast<char*>(s) + n; return r; }
double strtod(const char* s, char** e) { return (double)strtold(s, e); }
float strtof(const char* s, char** e) { return (float)strtold(s, e); }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }

// printf family: integers, strings and characters symbolically; floating point concretely
static void outc(char* b, size_t n, size_t& k, char c) { if (k + 1 < n) b[k] = c; ++k; }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
    size_t k = 0;
    for (; *f; ++f) {
        if (*f != '%') { outc(b, n, k, *f); continue; }
        ++f; bool left = false, zero = false, plus = false, space = false, alt = false;
        for (;; ++f) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
        int w = 0, p = -1;
        if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = true; w = -w; } ++f; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
        if (*f == '.') { ++f; p = 0; if (*f == '*') { p = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') p = p * 10 + (*f++ - '0'); }
        int lng = 0; bool big = false; 
        for (;; ++f) { if (*f == 'l') ++lng; else if (*f == 'h') --lng; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'L') big = true; else break; }
        char tmp[72]; const char* s = nullptr; size_t sn = 0; char sign = 0; const char* pre = "";
        switch (*f) {
        case '%': outc(b, n, k, '%'); continue;
        case 'c': tmp[0] = (char)va_arg(ap, int); s = tmp; sn = 1; zero = false; break;
        case 's': s = va_arg(ap, const char*); if (!s) s = "(null)"; sn = p >= 0 ? strnlen(s, (size_t)p) : strlen(s); p = -1; zero = false; break;
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
            unsigned long long v; bool sg = *f == 'd' || *f == 'i'; int base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
            if (*f == 'p') { v = (unsigned long long)va_arg(ap, void*); alt = true; }
            else if (lng >= 1) { v = va_arg(ap, unsigned long long); if (sg && (long long)v < 0) { sign = '-'; v = 0 - v; } }
            else { unsigned x = va_arg(ap, unsigned); if (lng == -1) x = sg ? (unsigned)(short)x : (unsigned short)x; if (lng == -2) x = sg ? (unsigned)(signed char)x : (unsigned char)x; if (sg && (int)x < 0) { sign = '-'; x = 0 - x; } v = x; }
            if (sg && !sign) { if (plus) sign = '+'; else if (space) sign = ' '; }
            char* e = tmp + sizeof tmp; char* q = e; bool nz = v != 0;
            while (v) { unsigned d = (unsigned)(v % (unsigned)base); v /= (unsigned)base; *--q = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); }
            if (!nz && p != 0) *--q = '0';
            while (p > e - q && q > tmp) *--q = '0';
            if (p >= 0) zero = false;
            if (alt && base == 16 && nz) pre = *f == 'X' ? "0X" : "0x";
            s = q; sn = (size_t)(e - q); break;
        }
        case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': {
            long double v = big ? va_arg(ap, long double) : (long double)va_arg(ap, double);
            char fm[8]; int z = 0; if (left) fm[z++] = '-'; if (zero) fm[z++] = '0'; if (plus) fm[z++] = '+'; if (space) fm[z++] = ' '; if (alt) fm[z++] = '#'; fm[z++] = *f; fm[z] = 0;
            char* fb = static_cast<char*>(malloc(5200)); int q = sx_fmt(fb, 5200, fm, v, p, w); for (int i = 0; i < q; ++i) outc(b, n, k, fb[i]); free(fb); continue;
        }
        default: sx_terminate("unsupported printf conversion");
        }
        size_t pl = strlen(pre), tot = sn + pl + (sign ? 1 : 0);
        if (!left && !zero) for (size_t i = tot; i < (size_t)w; ++i) outc(b, n, k, ' ');
        if (sign) outc(b, n, k, sign);
        for (size_t i = 0; i < pl; ++i) outc(b, n, k, pre[i]);
        if (!left && zero) for (size_t i = tot; i < (size_t)w; ++i) outc(b, n, k, '0');
        for (size_t i = 0; i < sn; ++i) outc(b, n, k, s[i]);
        if (left) for (size_t i = tot; i < (size_t)w; ++i) outc(b, n, k, ' ');
    }
    if (n) b[k < n ? k : n - 1] = 0;
    return (int)k;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, (size_t)1 << 30, f, ap); }
}
