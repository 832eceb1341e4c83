// C04: the application's (compile-time) and the decompressor's reading of a format string.
// Format strings are built from their grammar, so the conversions they contain are known by
// construction: literal text, "%%", and % flags width precision length specifier, each part and each
// character of it chosen freely.
#define NL_RUNTIME
#define NL_GENERATED_STUBS
#include "nl.h"
using namespace NanoLogInternal::Log;

struct Conv { int dynWidth, dynPrec, prec; /* -1 none, else static value */ int type; bool str; int at, end; };
static char fmt[64]; static int len, nconv; static Conv conv[4];
static void put(char c) { fmt[len++] = c; }
static void literal(int maxn) {
    int n = sym_choose(maxn + 1, "literal characters");
    for (int i = 0; i < n; i++) {
        if (sym_choose(2, "double percent")) { put('%'); put('%'); }
        else { char c = sym<char>("literal"); sym_assume(c != '%' && c != 0); put(c); }
    }
}
static char oneOf(const char* set) { char c = sym<char>("char"); unsigned ok = 0; for (int i = 0; set[i]; i++) ok |= (unsigned)(c == set[i]); sym_assume(ok); return c; }
enum { F_FULL, F_SHORT };
// kinds of argument: what printf would fetch for the conversion
enum Kind { SCHAR, SHORT, INT, LONG, LLONG, IMAX, SSIZE, PTRDIFF, UCHAR, USHORT, UINT, ULONG, ULLONG, UMAX, USIZE, UPTRDIFF, DOUBLE, LDOUBLE, WINT, PTR, STR, WSTR };
static void conversion(int detail) {
    Conv& c = conv[nconv++]; c.dynWidth = c.dynPrec = 0; c.prec = -1; c.at = len; c.str = false;
    put('%');
    int nf = sym_choose(detail == F_FULL ? 3 : 2, "flags"); if (nf == 2) nf = 3; for (int i = 0; i < nf; i++) put(oneOf("-+ #0"));
    int w = sym_choose(detail == F_FULL ? 4 : 3, "width form");
    if (w == 1) { put('*'); c.dynWidth = 1; }
    if (w == 2) put(oneOf("123456789"));
    if (w == 3) { put(oneOf("123456789")); put(oneOf("0123456789")); put(oneOf("0123456789")); }
    int p = sym_choose(detail == F_FULL ? 5 : 3, "precision form");
    if (p >= 1) put('.');
    if (p == 1) { put('*'); c.dynPrec = 1; }
    if (p == 2 && detail == F_FULL) c.prec = 0;
    if (p == 2 && detail != F_FULL) { char d = oneOf("0123456789"); put(d); c.prec = d - '0'; }
    if (p == 3) { char d = oneOf("0123456789"); put(d); c.prec = d - '0'; }
    if (p == 4) { char d = oneOf("0123456789"), e = oneOf("0123456789"), f = oneOf("0123456789"); put(d); put(e); put(f); c.prec = 100 * (d - '0') + 10 * (e - '0') + (f - '0'); }
    static const char* L[] = {"", "hh", "h", "l", "ll", "j", "z", "t"};
    int k = sym_choose(detail == F_FULL ? 22 : 6, "conversion"), kind;
    if (detail != F_FULL) { static const int m[] = {INT, ULLONG, DOUBLE, STR, PTR, LDOUBLE}; k = m[k]; }
    if (nconv == 1 && sym_param(10)) sym_assume(k == sym_param(10) - 1);
    kind = k;
    if (k < UCHAR) { for (const char* l = L[k - SCHAR == 0 ? 1 : k == SHORT ? 2 : k == INT ? 0 : k == LONG ? 3 : k == LLONG ? 4 : k == IMAX ? 5 : k == SSIZE ? 6 : 7]; *l; l++) put(*l); put(k == INT ? oneOf("dic") : oneOf("di")); }
    else if (k < DOUBLE) { int u = k - UCHAR; for (const char* l = L[u == 0 ? 1 : u == 1 ? 2 : u == 2 ? 0 : u == 3 ? 3 : u == 4 ? 4 : u == 5 ? 5 : u == 6 ? 6 : 7]; *l; l++) put(*l); put(oneOf("uoxX")); }
    else if (k == DOUBLE) { if (sym_choose(2, "l")) put('l'); put(oneOf("fFeEgGaA")); }
    else if (k == LDOUBLE) { put('L'); put(oneOf("fFeEgGaA")); }
    else if (k == WINT) { put('l'); put('c'); }
    else if (k == PTR) put('p');
    else if (k == STR) { put('s'); c.str = true; }
    else { put('l'); put('s'); c.str = true; }
    c.type = kind; c.end = len;
}
// What the decompressor's type code makes it read: width in bytes (negative: signed), floating point and pointers apart.
static int codeOf(int t) {
    switch (t) {
    case unsigned_char_t: return 1; case unsigned_short_int_t: return 2; case unsigned_int_t: return 4; case unsigned_long_int_t: return 8;
    case unsigned_long_long_int_t: return 8; case uintmax_t_t: return 8; case size_t_t: return 8; case wint_t_t: return 40;
    case signed_char_t: return 1; case short_int_t: return 2; case int_t: return 4; case long_int_t: return 8; case long_long_int_t: return 8; case intmax_t_t: return 8; case ptrdiff_t_t: return 8;
    case double_t: return 100; case long_double_t: return 101; case const_void_ptr_t: return 102; case const_char_ptr_t: return 103; case const_wchar_t_ptr_t: return 104;
    }
    return -1;
}
static int codeOfKind(int k) {
    switch (k) {
    case SCHAR: case UCHAR: return 1; case SHORT: case USHORT: return 2; case INT: case UINT: return 4;
    case DOUBLE: return 100; case LDOUBLE: return 101; case PTR: return 102; case STR: return 103; case WSTR: return 104; case WINT: return 40;
    }
    return 8;
}
#ifdef SYMBOLIC_BUILD
#include <stdexcept>
namespace std { invalid_argument::invalid_argument(const char* m) : logic_error((sym_fail("the application does not accept a valid format"), m)) {} }
#endif
template<int N> static void analyse(ParamType* out, int* np, int* nib) {
    const char (&f)[N] = *reinterpret_cast<const char (*)[N]>(fmt);
    *np = countFmtParams(f); *nib = getNumNibblesNeeded(f);
    for (int i = 0; i < *np && i < 12; i++) out[i] = getParamInfo(f, i);
    sym_check(getParamInfo(f, *np) == ParamType::INVALID, "more parameters than counted");
}
typedef void (*AnFn)(ParamType*, int*, int*);
template<int... I> static AnFn table(int n, std::integer_sequence<int, I...>) { static AnFn t[] = {analyse<I + 1>...}; return t[n]; }
extern "C" void c04_format() {
    int n = (int)sym_param(0), lit0 = (int)sym_param(1), lit1 = (int)sym_param(2), lit2 = (int)sym_param(3);
    // the parts
    literal(lit0);
    for (int i = 0; i < n; i++) { conversion(sym_param(4 + i) ? F_FULL : F_SHORT); literal(i + 1 < n ? lit1 : lit2); }
    fmt[len] = 0;
    // application side
    ParamType pt[12]; int np = 0, nib = 0;
    try { table(len, std::make_integer_sequence<int, 40>())(pt, &np, &nib); } catch (std::exception&) { sym_fail("the application does not accept a valid format"); }
    int want = 0, wantNib = 0;
    for (int i = 0; i < n; i++) {
        Conv& c = conv[i];
        if (c.dynWidth) { sym_check(want < np && pt[want] == ParamType::DYNAMIC_WIDTH, "a run-time width is not seen by the application"); want++; wantNib++; }
        if (c.dynPrec) { sym_check(want < np && pt[want] == ParamType::DYNAMIC_PRECISION, "a run-time precision is not seen by the application"); want++; wantNib++; }
        sym_check(want < np, "an argument is not seen by the application");
        ParamType t = pt[want++];
        if (!c.str) { sym_check(t == ParamType::NON_STRING, "the application takes a number for a string"); wantNib++; }
        else if (c.dynPrec) sym_check(t == ParamType::STRING_WITH_DYNAMIC_PRECISION, "a string's run-time precision is not seen by the application");
        else if (c.prec < 0) sym_check(t == ParamType::STRING_WITH_NO_PRECISION, "the application gives a string a precision it does not have");
        else sym_check((int)t == c.prec, "the application reads a string's precision wrong");
    }
    sym_check(np == want, "the application counts a different number of arguments");
    sym_check(nib == wantNib, "the application counts a different number of nibbles");
    // decompressor side
    char* mem = (char*)malloc(4096); char* p = mem;
    bool ok = Decoder::createMicroCode(&p, fmt, "file.cc", 77, 2);
    sym_check(ok, "the decompressor does not accept a valid format");
    FormatMetadata* fm = (FormatMetadata*)mem;
    sym_check(fm->numNibbles == wantNib, "the decompressor counts a different number of nibbles");
    sym_check(fm->numPrintFragments == (n ? n : 1), "the decompressor splits the format into a different number of pieces");
    sym_check(fm->lineNumber == 77 && fm->logLevel == 2 && !strcmp(fm->filename, "file.cc"), "static information is not kept");
    char* q = mem + sizeof(FormatMetadata) + fm->filenameLength;
    int at = 0;
    for (int i = 0; i < fm->numPrintFragments; i++) {
        PrintFragment* pf = (PrintFragment*)q;
        int fl = (int)strlen(pf->formatFragment);
        sym_check(fl + 1 == pf->fragmentLength, "a piece's length is wrong");
        sym_check(at + fl <= len && memcmp(pf->formatFragment, fmt + at, fl) == 0, "the pieces put together are not the format string");
        if (n) {
            sym_check(conv[i].at >= at && conv[i].end <= at + fl, "a piece does not hold its conversion");
            sym_check(codeOf(pf->argType) == codeOfKind(conv[i].type), "the decompressor reads an argument as another type");
            sym_check(!!pf->hasDynamicWidth == !!conv[i].dynWidth && !!pf->hasDynamicPrecision == !!conv[i].dynPrec, "the decompressor misreads a run-time width or precision");
            if (i + 1 < n) sym_check(conv[i + 1].at >= at + fl, "a piece holds two conversions");
        } else sym_check(pf->argType == FormatType::NONE, "an argument is read for plain text");
        at += fl; q += sizeof(PrintFragment) + pf->fragmentLength;
    }
    sym_check(at == len, "the pieces put together are not the format string");
    sym_check(p >= q && p <= q + 8, "the decompressor's format data overlaps what follows");
    sym_reach("format");
}
