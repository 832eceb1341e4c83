// In-memory stdio for symbolic runs.
#include "sym.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <wchar.h>
#include <time.h>
#define FILE MFILE_
#include <stdint.h>
#undef FILE
struct MF { int kind; const char* data; size_t len, pos; bool eof; bool err; int unget; unsigned char* out; size_t outLen, outCap; };
extern "C" {
typedef struct MF FILE_;
enum { KIN = 1, KOUT = 2 };
static struct { char name[32]; const char* data; size_t len; } files[8]; static int nfiles;
uint64_t ghost_fopens, ghost_open_files;
void *stdin, *stdout, *stderr;
uint64_t ghost_stderr;
void mfile_set(const char* name, const char* data, size_t len) {
    int i = 0; for (; i < nfiles; i++) if (!strcmp(files[i].name, name)) break;
    if (i == nfiles) nfiles++;
    strcpy(files[i].name, name); files[i].data = data; files[i].len = len;
}
static MF* newMF(int kind) { MF* f = (MF*)malloc(sizeof(MF)); memset(f, 0, sizeof *f); f->kind = kind; f->unget = -1; return f; }
MF* fopen(const char* name, const char* mode) {
    for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].name, name)) { MF* f = newMF(KIN); f->data = files[i].data; f->len = files[i].len; ghost_fopens++; ghost_open_files++; return f; }
    return 0;
}
int fclose(MF* f) { ghost_open_files--; if (f->out) free(f->out); free(f); return 0; }
size_t fread(void* p, size_t sz, size_t n, MF* f) {
    size_t want = sz * n, got = 0; char* d = (char*)p;
    if (!want) return 0;
    if (f->unget >= 0 && want) { d[got++] = (char)f->unget; f->unget = -1; }
    size_t av = f->len - f->pos; size_t take = want - got;
    if (take > av) { take = av; f->eof = true; }
    memcpy(d + got, f->data + f->pos, take); f->pos += take; got += take;
    return got / sz;
}
int fgetc(MF* f) {
    if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
    if (f->pos >= f->len) { f->eof = true; return -1; }
    return (unsigned char)f->data[f->pos++];
}
int getc(MF* f) { return fgetc(f); }
int ungetc(int c, MF* f) { if (c == -1) return -1; f->unget = (unsigned char)c; f->eof = false; return c; }
int feof(MF* f) { return f->eof; }
int ferror(MF* f) { return f->err; }
void clearerr(MF* f) { f->eof = false; }
int fseek(MF* f, long off, int wh) { f->pos = wh == 0 ? off : wh == 1 ? f->pos - (f->unget >= 0) + off : f->len + off; f->unget = -1; f->eof = false; return 0; }
long ftell(MF* f) { return (long)f->pos - (f->unget >= 0); }
void rewind(MF* f) { fseek(f, 0, 0); }
int fflush(MF*) { return 0; }

MF* sink_open(void) { return newMF(KOUT); }
size_t sink_size(MF* f) { return f->outLen; }
const unsigned char* sink_data(MF* f) { return f->out ? f->out : (const unsigned char*)""; }
void sink_close(MF* f) { free(f->out); free(f); }
void sink_clear(MF* f) { f->outLen = 0; }
static void put(MF* f, const void* p, size_t n) {
    if (f->outLen + n > f->outCap) { size_t c = f->outCap ? f->outCap * 2 : 256; while (c < f->outLen + n) c *= 2; f->out = (unsigned char*)realloc(f->out, c); f->outCap = c; }
    memcpy(f->out + f->outLen, p, n); f->outLen += n;
}
static void putLit(MF* f, char c) { unsigned char b[2] = {1, (unsigned char)c}; put(f, b, 2); }
struct __attribute__((packed)) Conv { unsigned char tag, conv; uint16_t flags; int32_t width, prec; uint64_t lo; uint64_t hi; };
uint64_t ghost_badfmt;
static void padc(MF* f, int n) { while (n-- > 0) putLit(f, ' '); }
// Integers with a known value and plain text are rendered, so that the same text printed by
// different calls gives the same atoms.
static void putNum(MF* f, Conv& c, uint64_t v, bool sgn) {
    if (sym_is_concrete(v) && c.flags == 0 && c.width == 0 && c.prec == -1 && (c.conv == 'd' || c.conv == 'u')) {
        char b[24]; int n = 0; bool neg = sgn && (int64_t)v < 0; if (neg) v = 0 - v;
        do { b[n++] = '0' + v % 10; v /= 10; } while (v);
        if (neg) putLit(f, '-');
        while (n) putLit(f, b[--n]);
        return;
    }
    c.lo = v; put(f, &c, sizeof c);
}
int vfprintf(MF* f, const char* fmt, va_list ap) {
    if (!f) { ghost_stderr++; return 0; }
    if (f->kind != KOUT) sym_fail("printing to a stream that is not an output stream");
    for (size_t i = 0; fmt[i];) {
        if (fmt[i] != '%') { putLit(f, fmt[i++]); continue; }
        i++;
        Conv c; memset(&c, 0, sizeof c); c.tag = 2; c.width = 0; c.prec = -1;
        for (;; i++) { char x = fmt[i]; if (x == '-') c.flags |= 1; else if (x == '+') c.flags |= 2; else if (x == ' ') c.flags |= 4; else if (x == '#') c.flags |= 8; else if (x == '0') c.flags |= 16; else if (x == '\'') c.flags |= 32; else break; }
        if (fmt[i] == '*') { int w = va_arg(ap, int); bool neg = w < 0; c.flags |= neg ? 1 : 0; c.width = neg ? (int)(0u - (unsigned)w) : w; i++; }
        else while (fmt[i] >= '0' && fmt[i] <= '9') c.width = c.width * 10 + (fmt[i++] - '0');
        if (fmt[i] == '.') {
            i++;
            if (fmt[i] == '*') { int p = va_arg(ap, int); c.prec = p < 0 ? -1 : p; i++; }
            else { c.prec = 0; while (fmt[i] >= '0' && fmt[i] <= '9') c.prec = c.prec * 10 + (fmt[i++] - '0'); }
        }
        int len = 0; // 1 hh 2 h 3 l 4 ll 5 j 6 z 7 t 8 L
        if (fmt[i] == 'h') { i++; len = 2; if (fmt[i] == 'h') { i++; len = 1; } }
        else if (fmt[i] == 'l') { i++; len = 3; if (fmt[i] == 'l') { i++; len = 4; } }
        else if (fmt[i] == 'q') { i++; len = 4; }
        else if (fmt[i] == 'j') { i++; len = 5; } else if (fmt[i] == 'z' || fmt[i] == 'Z') { i++; len = 6; } else if (fmt[i] == 't') { i++; len = 7; } else if (fmt[i] == 'L') { i++; len = 8; }
        char k = fmt[i]; if (k) i++;
        c.conv = (unsigned char)k;
        switch (k) {
        case '%': putLit(f, '%'); continue;
        case 'd': case 'i': { c.conv = 'd'; long v; if (len >= 3) v = va_arg(ap, long); else { int q = va_arg(ap, int); v = len == 1 ? (signed char)q : len == 2 ? (short)q : q; } putNum(f, c, (uint64_t)v, true); continue; }
        case 'u': case 'o': case 'x': case 'X': { unsigned long v; if (len >= 3) v = va_arg(ap, unsigned long); else { unsigned q = va_arg(ap, unsigned); v = len == 1 ? (unsigned char)q : len == 2 ? (unsigned short)q : q; } putNum(f, c, v, false); continue; }
        case 'c': { int v = va_arg(ap, int); if (len != 3 && sym_is_concrete((uint64_t)c.width) && sym_is_concrete(c.flags)) { if (!(c.flags & 1)) padc(f, c.width - 1); putLit(f, (char)v); if (c.flags & 1) padc(f, c.width - 1); continue; } c.lo = len == 3 ? (unsigned)v : (unsigned char)v; c.hi = len == 3; put(f, &c, sizeof c); continue; }
        case 'p': { void* v = va_arg(ap, void*); putNum(f, c, (uint64_t)v, true); continue; }
        case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': case 'a': case 'A': {
            if (len == 8) { long double v = va_arg(ap, long double); c.hi = 0; memcpy(&c.lo, &v, 8); memcpy(&c.hi, (char*)&v + 8, 2); c.hi |= 1ULL << 32; }
            else { double v = va_arg(ap, double); memcpy(&c.lo, &v, 8); }
            put(f, &c, sizeof c); continue; }
        case 's': {
            const wchar_t* ws = 0; const char* ns = 0; size_t n = 0;
            if (len == 3) { ws = va_arg(ap, const wchar_t*); if (!ws) ws = L"(null)"; if ((uint64_t)ws & 3) sym_fail("a wide string is used at an unaligned address"); 
                // a precision counts the bytes written (of UTF-8), and no part of a character is
                for (size_t by = 0; c.prec < 0 || by < (size_t)c.prec; n++) { uint32_t w = (uint32_t)ws[n]; if (!w) break; by += w < 0x80 ? 1 : w < 0x800 ? 2 : w < 0x10000 ? 3 : 4; if (c.prec >= 0 && by > (size_t)c.prec) break; } }
            else { ns = va_arg(ap, const char*); if (!ns) ns = "(null)"; while ((c.prec < 0 || n < (size_t)c.prec) && ns[n]) n++; }
            bool plain = sym_is_concrete((uint64_t)c.width) && sym_is_concrete(c.flags) && !ws;
            if (plain) { if (!(c.flags & 1)) padc(f, c.width - (int)n); for (size_t j = 0; j < n; j++) putLit(f, ns[j]); if (c.flags & 1) padc(f, c.width - (int)n); continue; }
            c.prec = -1; c.lo = n; c.flags &= 1; put(f, &c, sizeof c);
            for (size_t j = 0; j < n; j++) { uint32_t w = ws ? (uint32_t)ws[j] : (unsigned char)ns[j]; put(f, &w, 4); }
            continue; }
        default: ghost_badfmt++; c.conv = 0xff; put(f, &c, sizeof c); continue;
        }
    }
    return 1;
}
int fprintf(MF* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int fputs(const char* s, MF* f) { if (!f) ghost_stderr++; if (f) for (; *s; s++) putLit(f, *s); return 1; }
int fputc(int c, MF* f) { if (f) putLit(f, (char)c); return c; }
int putc(int c, MF* f) { return fputc(c, f); }
size_t fwrite(const void* p, size_t sz, size_t n, MF* f) { if (!f) ghost_stderr++; if (f) for (size_t i = 0; i < sz * n; i++) putLit(f, ((const char*)p)[i]); return n; }
int printf(const char* fmt, ...) { return 0; }
int puts(const char*) { return 0; }
int putchar(int c) { return c; }
void perror(const char*) {}
int snprintf(char* b, size_t n, const char* fmt, ...) { if (n) b[0] = 0; return 0; }
// wall clock
int64_t ghost_localtime_arg; uint64_t ghost_localtime_calls;
time_t ghost_time = 1500000000;
time_t time(time_t* t) { if (t) *t = ghost_time; return ghost_time; }
struct tm* localtime(const time_t* t) { static struct tm tmv; ghost_localtime_arg = *t; ghost_localtime_calls++; return &tmv; }
struct tm* localtime_r(const time_t* t, struct tm* r) { ghost_localtime_arg = *t; ghost_localtime_calls++; return r; }
size_t strftime(char* b, size_t n, const char* fmt, const struct tm*) {
    // the text stands for the converted instant: 8 raw bytes shown as 19 characters without NULs
    if (n < 20) { if (n) b[0] = 0; return 0; }
    for (int i = 0; i < 19; i++) b[i] = 'T';
    b[19] = 0;
    return 19;
}
// first position at or after 'from' where the literal text t starts; -1 if absent
long sink_find(MF* f, size_t from, const char* t) {
    size_t tl = strlen(t);
    for (size_t p = from; p < f->outLen;) {
        unsigned char tag = f->out[p];
        if (tag == 1) {
            bool ok = p + 2 * tl <= f->outLen;
            for (size_t i = 0; ok && i < tl; i++) { unsigned char g = f->out[p + 2 * i], c = f->out[p + 2 * i + 1]; if (g != 1) { ok = false; break; } if (!sym_is_concrete(c)) { ok = false; break; } if (c != (unsigned char)t[i]) { ok = false; break; } }
            if (ok) return (long)p;
            p += 2;
        } else { Conv c; memcpy(&c, f->out + p, sizeof c); p += sizeof c; if (c.conv == 's') p += 4 * c.lo; }
    }
    return -1;
}
size_t sink_textlen(const char* t) { return 2 * strlen(t); }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) d++, s++; return d; }
char* strerror(int) { return (char*)"error"; }
}
// The instant printed at position 'from' of a sink (the latest one converted, and the nanoseconds field behind it).
extern "C" int sink_time(MF* f, size_t from, int64_t* sec, int64_t* nano) {
    *sec = ghost_localtime_arg;
    if (!sym_is_concrete(from)) sym_incomplete("position of a printed time");
    bool dot = false;
    for (size_t p = from; p < f->outLen;) {
        if (f->out[p] == 1) {
            char c = (char)f->out[p + 1];
            if (dot && c >= '0' && c <= '9') { int64_t v = 0; int d = 0; while (p < f->outLen && f->out[p] == 1 && f->out[p + 1] >= '0' && f->out[p + 1] <= '9') { v = v * 10 + (f->out[p + 1] - '0'); p += 2; d++; } *nano = v; return d == 9; }
            dot = c == '.'; p += 2; continue;
        }
        if (!dot) { Conv c; memcpy(&c, f->out + p, sizeof c); p += sizeof c; if (c.conv == 's') p += 4 * c.lo; continue; }
        Conv c; memcpy(&c, f->out + p, sizeof c);
        if (c.width != 9 || c.flags != 16) return 0;
        if (c.conv == 'f' && c.prec == 0) { double v; memcpy(&v, &c.lo, 8); if (!(v >= -1e18 && v <= 1e18)) return 0; *nano = (int64_t)__builtin_rint(v); return 1; }
        if ((c.conv == 'd' || c.conv == 'u') && c.prec == -1) { *nano = (int64_t)c.lo; return 1; }
        return 0;
    }
    return 0;
}
