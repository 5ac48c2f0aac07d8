/* C library functions, as the symbolic executor sees them (plain C, executed symbolically). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include "../include/sym.h"
void* malloc(size_t);
void free(void*);
void* memcpy(void*, const void*, size_t);
void* memset(void*, int, size_t);

size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* strcpy(char* d, const char* s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
char* stpcpy(char* d, const char* s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) return d + i; } }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
int strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char* a, const char* b, size_t n) { size_t i = 0; for (; i < n; i++) { if (a[i] != b[i] || !a[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = p; size_t i; for (i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
size_t strcspn(const char* s, const char* r) { size_t n = 0; while (s[n] && !strchr(r, s[n])) n++; return n; }
size_t strspn(const char* s, const char* r) { size_t n = 0; while (s[n] && strchr(r, s[n])) n++; return n; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* d = malloc(n); if (d) memcpy(d, s, n); return d; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* d = malloc(n + 1); if (d) { memcpy(d, s, n); d[n] = 0; } return d; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void bzero(void* d, size_t n) { memset(d, 0, n); }

int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
static unsigned short ctab[384];
static const unsigned short* ctabp;
const unsigned short** __ctype_b_loc(void)
{
    if (!ctabp)
    {
        int c;
        for (c = 0; c < 128; c++)
        {
            unsigned short v = 0;
            if (isupper(c)) v |= 1 << 8;
            if (islower(c)) v |= 1 << 9;
            if (isalpha(c)) v |= 1 << 10;
            if (isdigit(c)) v |= 1 << 11;
            if (isxdigit(c)) v |= 1 << 12;
            if (isspace(c)) v |= 1 << 13;
            if (isprint(c)) v |= 1 << 14;
            if (isprint(c) && c != ' ') v |= 1 << 15;
            if (iscntrl(c)) v |= 1 << 1;
            if (ispunct(c)) v |= 1 << 2;
            if (isalnum(c)) v |= 1 << 3;
            ctab[128 + c] = v;
        }
        ctabp = ctab + 128;
    }
    return &ctabp;
}

static __thread int errno_;
int* __errno_location(void) { return &errno_; }

static unsigned long long conv(const char* s, char** end, int base, int* neg, int* ovf, int* any)
{
    unsigned long long v = 0;
    const char* p = s;
    *neg = 0; *ovf = 0; *any = 0;
    while (isspace((unsigned char)*p)) p++;
    if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { base = 16; p += 2; }
    else if (base == 0 && p[0] == '0') base = 8;
    else if (base == 0) base = 10;
    for (;; p++)
    {
        int c = (unsigned char)*p, d;
        if (isdigit(c)) d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        *any = 1;
        if (v > (~0ull - (unsigned)d) / (unsigned)base) *ovf = 1;
        else v = v * (unsigned)base + (unsigned)d;
    }
    if (end) *end = (char*)(*any ? p : s);
    return v;
}
unsigned long long strtoull(const char* s, char** e, int b)
{
    int neg, ovf, any; unsigned long long v = conv(s, e, b, &neg, &ovf, &any);
    if (ovf) { errno_ = 34; return ~0ull; }
    return neg ? -v : v;
}
unsigned long strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
long long strtoll(const char* s, char** e, int b)
{
    int neg, ovf, any; unsigned long long v = conv(s, e, b, &neg, &ovf, &any);
    if (ovf || v > (neg ? (1ull << 63) : (1ull << 63) - 1)) { errno_ = 34; return neg ? (long long)(1ull << 63) : (long long)((1ull << 63) - 1); }
    return neg ? (long long)-v : (long long)v;
}
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
long long atoll(const char* s) { return strtoll(s, 0, 10); }
char* getenv(const char* n) { (void)n; return 0; }
unsigned short htons(unsigned short x) { return (unsigned short)((x << 8) | (x >> 8)); }
unsigned short ntohs(unsigned short x) { return htons(x); }
unsigned htonl(unsigned x) { return __builtin_bswap32(x); }
unsigned ntohl(unsigned x) { return __builtin_bswap32(x); }

/* ---- formatted output */
struct sink { char* p; size_t cap; size_t n; };
static void put(struct sink* s, char c) { if (s->n + 1 < s->cap) s->p[s->n] = c; s->n++; }
static void putnum(struct sink* s, unsigned long long v, unsigned base, int neg, int width, int zero, int left, int upper, int alt)
{
    char tmp[32]; int n = 0, i, len;
    do { unsigned d = (unsigned)(v % base); tmp[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v /= base; } while (v);
    len = n + (neg ? 1 : 0) + (alt ? 2 : 0);
    if (!zero && !left) for (i = len; i < width; i++) put(s, ' ');
    if (neg) put(s, '-');
    if (alt) { put(s, '0'); put(s, 'x'); }
    if (zero && !left) for (i = len; i < width; i++) put(s, '0');
    while (n) put(s, tmp[--n]);
    if (left) for (i = len; i < width; i++) put(s, ' ');
}
int vsnprintf(char* out, size_t cap, const char* f, va_list ap)
{
    struct sink s = {out, cap, 0};
    for (; *f; f++)
    {
        int zero = 0, left = 0, width = 0, lng = 0, prec = -1, alt = 0;
        if (*f != '%') { put(&s, *f); continue; }
        f++;
        for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '#') alt = 1; else if (*f == '+' || *f == ' ') {} else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
        for (;; f++) { if (*f == 'l' || *f == 'j' || *f == 'z' || *f == 't') lng++; else if (*f == 'h') lng--; else break; }
        switch (*f)
        {
        case 'd': case 'i': { long long v = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); if (lng == -1) v = (short)v; if (lng == -2) v = (signed char)v; putnum(&s, v < 0 ? -(unsigned long long)v : (unsigned long long)v, 10, v < 0, width, zero, left, 0, 0); break; }
        case 'u': { unsigned long long v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; putnum(&s, v, 10, 0, width, zero, left, 0, 0); break; }
        case 'x': case 'X': { unsigned long long v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; putnum(&s, v, 16, 0, width, zero, left, *f == 'X', alt); break; }
        case 'p': { unsigned long long v = (uintptr_t)va_arg(ap, void*); putnum(&s, v, 16, 0, width, zero, left, 0, 1); break; }
        case 'c': put(&s, (char)va_arg(ap, int)); break;
        case 's': { const char* p = va_arg(ap, const char*); int n = 0, i; if (!p) p = "(null)"; while ((prec < 0 || n < prec) && p[n]) n++; if (!left) for (i = n; i < width; i++) put(&s, ' '); for (i = 0; i < n; i++) put(&s, p[i]); if (left) for (i = n; i < width; i++) put(&s, ' '); break; }
        case '%': put(&s, '%'); break;
        default: sym_silent_exit();
        }
    }
    if (cap) out[s.n < cap ? s.n : cap - 1] = 0;
    return (int)s.n;
}
int snprintf(char* o, size_t c, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(o, c, f, ap); va_end(ap); return r; }
int sprintf(char* o, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(o, 1u << 20, f, ap); va_end(ap); return r; }
int vsprintf(char* o, const char* f, va_list ap) { return vsnprintf(o, 1u << 20, f, ap); }
int printf(const char* f, ...) { (void)f; return 0; }
int fprintf(void* s, const char* f, ...) { (void)s; (void)f; return 0; }
int puts(const char* s) { (void)s; return 0; }
int putchar(int c) { return c; }
void perror(const char* s) { (void)s; }

int vsscanf_(const char* s, const char* f, va_list ap)
{
    int n = 0; const char* s0 = s;
    for (; *f; f++)
    {
        if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
        if (*f != '%') { if (!*s && n == 0) return -1; if (*s != *f) return n; s++; continue; }
        f++;
        {
            int sup = 0, width = 0, lng = 0;
            if (*f == '*') { sup = 1; f++; }
            while (isdigit(*f)) width = width * 10 + (*f++ - '0');
            for (;; f++) { if (*f == 'l') lng++; else if (*f == 'h') lng--; else break; }
            switch (*f)
            {
            case 'u': case 'd': case 'x': case 'i':
            {
                unsigned long long v = 0; int any = 0, neg = 0, ovf = 0; unsigned base = *f == 'x' ? 16 : 10;
                while (isspace((unsigned char)*s)) s++;
                if (!*s) return n ? n : -1;
                if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
                while (width == 0 || any < width)
                {
                    int c = (unsigned char)*s, d;
                    if (isdigit(c)) d = c - '0'; else if (base == 16 && isxdigit(c)) d = tolower(c) - 'a' + 10; else break;
                    if (any >= 15 && (v > ~0ull / base || (v == ~0ull / base && (unsigned)d > ~0ull % base))) ovf = 1;
                    v = v * base + (unsigned)d; any++; s++;
                }
                if (!any) return n;
                if (*f == 'd' || *f == 'i') /* as strtol */
                { if (ovf || v > 9223372036854775807ull + (unsigned)neg) v = neg ? 1ull << 63 : ~0ull >> 1; else if (neg) v = -v; }
                else if (ovf) v = ~0ull;
                else if (neg) v = -v;
                if (!sup) { if (lng > 0) *va_arg(ap, unsigned long*) = v; else if (lng == -1) *va_arg(ap, unsigned short*) = (unsigned short)v; else if (lng == -2) *va_arg(ap, unsigned char*) = (unsigned char)v; else *va_arg(ap, unsigned*) = (unsigned)v; n++; }
                break;
            }
            case 'c': if (!*s) return n ? n : -1; if (!sup) { *va_arg(ap, char*) = *s; n++; } s++; break;
            case 's': { char* d = sup ? 0 : va_arg(ap, char*); int k = 0; while (isspace((unsigned char)*s)) s++; if (!*s) return n ? n : -1; while (*s && !isspace((unsigned char)*s) && (!width || k < width)) { if (d) d[k] = *s; k++; s++; } if (d) { d[k] = 0; n++; } break; }
            case 'n': *va_arg(ap, int*) = (int)(s - s0); break;
            default: sym_silent_exit();
            }
        }
    }
    return n;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf_(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf_(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf_(s, f, ap); va_end(ap); return r; }

void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*))
{
    char* b = base; size_t i, j, k;
    for (i = 1; i < n; i++)
        for (j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--)
            for (k = 0; k < sz; k++) { char t = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = b[j * sz + k]; b[j * sz + k] = t; }
}
void __eng_yield(void);
int usleep(unsigned us) { (void)us; __eng_yield(); return 0; }
unsigned sleep(unsigned us) { (void)us; __eng_yield(); return 0; }
int nanosleep(const void* a, void* b) { (void)a; (void)b; __eng_yield(); return 0; }
int sched_yield(void) { __eng_yield(); return 0; }
int fflush(void* f) { (void)f; return 0; }
int atexit(void (*f)(void)) { (void)f; return 0; }
