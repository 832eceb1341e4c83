// libc stand-ins executed by the engine (symbolic runs only; native replays use glibc).
#include "sym.h"
#include <wchar.h>
extern "C" {
int memcmp(const void* a, const void* b, size_t n) {
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; int r = 0;
    for (size_t i = n; i-- > 0;) { int d = (int)x[i] - (int)y[i]; r = d ? d : r; }
    return r;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
// glibc's vector code gives wrong answers for wide strings that are not aligned
void __sym_walign(const wchar_t* s) { if ((uint64_t)s & 3) sym_fail("a wide string is used at an unaligned address"); }
size_t wcslen(const wchar_t* s) { __sym_walign(s); size_t n = 0; while (s[n]) n++; return n; }
size_t wcsnlen(const wchar_t* s, size_t m) { __sym_walign(s); size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { for (size_t i = 0;; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { char* r = 0; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
char* strpbrk(const char* s, const char* a) { for (; *s; s++) for (const char* q = a; *q; q++) if (*q == *s) return (char*)s; return 0; }
size_t strspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* q = a; while (*q && *q != s[n]) q++; if (!*q) break; } return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* q = a; while (*q && *q != s[n]) q++; if (*q) break; } return n; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (strncmp(h, n, l) == 0) return (char*)h; if (!*h) return 0; } }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
long strtol(const char* s, char** e, int base) { bool neg = false; long v = 0; const char* p = s; while (isspace(*p)) p++; if (*p == '-' || *p == '+') neg = *p++ == '-'; while (isdigit(*p)) v = v * 10 + (*p++ - '0'); if (e) *e = (char*)p; return neg ? -v : v; }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
int* __errno_location() { static int e; return &e; }
}
extern "C" void bzero(void* p, size_t n) { char* q = (char*)p; for (size_t i = 0; i < n; i++) q[i] = 0; }
extern "C" {
double modf(double x, double* ip) { *ip = __builtin_trunc(x); return x - *ip; }
long lround(double x) { return (long)__builtin_round(x); }
long long llround(double x) { return (long long)__builtin_round(x); }
long lrint(double x) { return (long)__builtin_rint(x); }
long long llrint(double x) { return (long long)__builtin_rint(x); }
}
