// C16: arguments stored in a LogMessage, and arguments of decoded messages.
#define NL_RUNTIME
#define NL_GENERATED_STUBS
#include "nl.h"
using namespace NanoLogInternal::Log;
enum { K_INT, K_LONG, K_DOUBLE, K_PTR, K_CHAR, K_SHORT, K_UNSIGNED, K_SCHAR, K_LDOUBLE, K_ULL, NK };
struct A { int k; uint64_t bits; };
static A a[64];
template<typename T> static uint64_t bitsOf(T v) { uint64_t b = 0; memcpy(&b, &v, sizeof v); return b; }
template<typename T> static T of(uint64_t b) { T v; memcpy(&v, &b, sizeof v); return v; }
static void push(LogMessage& m, A& x, int fixedKind) {
    x.k = fixedKind >= 0 ? fixedKind : sym_choose(NK, "type"); x.bits = sym<uint64_t>("value");
    switch (x.k) {
    case K_INT: m.push(of<int>(x.bits)); break; case K_LONG: m.push(of<long>(x.bits)); break;
    case K_DOUBLE: m.push(of<double>(x.bits)); break; case K_PTR: m.push(of<const char*>(x.bits)); break;
    case K_CHAR: m.push(of<unsigned char>(x.bits)); break; case K_SHORT: m.push(of<short>(x.bits)); break;
    case K_UNSIGNED: m.push(of<unsigned>(x.bits)); break; case K_SCHAR: m.push(of<signed char>(x.bits)); break;
    case K_LDOUBLE: m.push((long double)1.5); break; case K_ULL: m.push(of<unsigned long long>(x.bits)); break;
    }
}
static bool same(LogMessage& m, A& x, int i) {
    switch (x.k) {
    case K_INT: return m.get<int>(i) == of<int>(x.bits); case K_LONG: return m.get<long>(i) == of<long>(x.bits);
    case K_DOUBLE: return bitsOf(m.get<double>(i)) == x.bits; case K_PTR: return (uint64_t)m.get<const char*>(i) == x.bits;
    case K_CHAR: return m.get<unsigned char>(i) == of<unsigned char>(x.bits); case K_SHORT: return m.get<short>(i) == of<short>(x.bits);
    case K_UNSIGNED: return m.get<unsigned>(i) == of<unsigned>(x.bits); case K_SCHAR: return m.get<signed char>(i) == of<signed char>(x.bits);
    case K_LDOUBLE: return true; case K_ULL: return m.get<unsigned long long>(i) == x.bits;
    }
    return false;
}
// params: 0.. number of arguments (largest) in each use of the message object; 3: all types free (else they rotate)
extern "C" void c16_store() {
    LogMessage* mp = new LogMessage(); LogMessage& m = *mp;
    sym_check(!m.valid() && m.getNumArgs() == 0, "a new message is not empty");
    for (int use = 0; use < 3 && sym_param(use) >= 0; use++) {
        int mx = (int)sym_param(use), n = sym_param(4) ? mx - sym_choose((int)sym_param(4), "arguments") : mx;
        FormatMetadata* fm = (FormatMetadata*)malloc(64);
        uint32_t id = sym<uint32_t>("id"); uint64_t ts = sym<uint64_t>("ts");
        int way = sym_choose(3, "reset");                       // none of this may leave anything of the previous use
        if (way == 1) { m.reset(); sym_check(!m.valid() && m.getNumArgs() == 0, "a reset message is not empty"); }
        if (way == 2 && use == 0) { m.reserve(mx); }
        m.reset(fm, id, ts);
        sym_check(m.valid() && m.getLogId() == id && m.getTimestamp() == ts && m.getNumArgs() == 0, "a message's id or timestamp is wrong");
        bool lastUse = use == 2 || sym_param(use + 1) < 0;
        int free0 = sym_param(3) && lastUse ? (int)sym_choose(n > 0 ? n : 1, "free position") : -1;
        for (int i = 0; i < n; i++) {
            push(m, a[i], i == free0 ? -1 : (i * 3 + use) % NK);
            sym_check(m.getNumArgs() == i + 1, "the number of arguments is wrong");
        }
        unsigned ok = 1; for (int i = 0; i < n; i++) ok &= (unsigned)same(m, a[i], i);
        sym_check(ok, "an argument changed");
        sym_check(m.getLogId() == id && m.getTimestamp() == ts && m.getNumArgs() == n && m.valid(), "a message's id, timestamp or argument count changed");
    }
    delete mp;
    sym_reach("stored");
}
// Decoded messages: the same message object is used for messages with different numbers of arguments.
static void rec(int which, int i, const char* s, int64_t v, double d, char c) {
    switch (which) {
    case 0: NANO_LOG(NOTICE, "none"); break;
    case 1: NANO_LOG(NOTICE, "%d %s %ld", (int)v, s, (long)v); break;
    case 2: NANO_LOG(NOTICE, "%d%d%d%d %s %c %f %hd %lu %p %x", 1, 2, 3, 4, s, c, d, (short)v, (unsigned long)v, (void*)v, (unsigned)v); break;
    case 3: NANO_LOG(NOTICE, "%*d %.*s %hhu %lld %s %d %d %d %d %d %d %d %d %d %d %d %d %d %d %ld %s", 3, 7, 1, s, (unsigned char)v, (long long)v, s, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, (long)v, s); break;
    case 4: NANO_LOG(NOTICE, "%f%f%f%f%f%f%f%f%f %s %ld", d, d, d, d, d, d, d, d, d, s, (long)v); break;
    }
}
struct R { int which; int64_t v; char s[3]; double d; char c; uint64_t ts; };
static R rs[4];
extern "C" void c16_decoded() {
    int k = (int)sym_param(0);
    RuntimeLogger& rl = RuntimeLogger::nanoLogSingleton;
    PerfUtils::Cycles::mockTscValue = 7;
    for (int i = 0; i < k; i++) {
        R& r = rs[i]; r.which = (int)sym_param(1 + i); r.v = sym<int64_t>("v"); r.d = sym<double>("d"); r.c = sym<char>("c");
        sym_assume(r.v < 256 && (r.v >= 0 || r.v < -0x100000000000)); sym_assume(r.d == r.d);
        sym_bytes(r.s, 2, "s"); r.s[2] = 0; if (k > 1) { r.s[1] = 0; if (i) sym_assume(r.v >= 0); } r.ts = sym<uint8_t>("ts"); sym_assume(r.ts >= 7);
        PerfUtils::Cycles::mockTscValue = r.ts;
        rec(r.which, i, r.s, r.v, r.d, r.c);
    }
    char* ob = (char*)malloc(8192); PerfUtils::Cycles::mockTscValue = 7; Encoder enc(ob, 8192);
    uint32_t pos = 0; enc.encodeNewDictionaryEntries(pos, rl.invocationSites);
    uint64_t n = 0, cnt = 0; char* p = RuntimeLogger::stagingBuffer->peek(&n);
    long rd = enc.encodeLogMsgs(p, n, 1, true, rl.invocationSites, &cnt);
    sym_check((uint64_t)rd == n, "messages were not consumed");
    size_t len = enc.getEncodedBytes(); char* img = (char*)malloc(len); memcpy(img, ob, len); mfile_set("c16log", img, len);
    Decoder* d = new Decoder(); sym_check(d->open("c16log"), "the log cannot be opened");
    FILE* out = sym_param(5) ? sink_open() : nullptr;
    LogMessage m;
    uint32_t firstId[5]; int ids = 0; for (int i = 0; i < 5; i++) firstId[i] = 99;
    for (int i = 0; i < k; i++) {
        R& r = rs[i];
        sym_check(d->getNextLogStatement(m, out), "a message is missing");
        if (firstId[r.which] == 99) firstId[r.which] = ids++;
        sym_check(m.valid() && m.getLogId() == firstId[r.which], "a message has the wrong id");
        sym_check(m.getTimestamp() == r.ts, "a message has the wrong timestamp");
        char s1[3]; strcpy(s1, r.s); if (r.which == 3) s1[1] = 0;
        switch (r.which) {
        case 0: sym_check(m.getNumArgs() == 0, "wrong number of arguments"); break;
        case 1: sym_check(m.getNumArgs() == 3, "wrong number of arguments");
            sym_check(m.get<int>(0) == (int)r.v && !strcmp(m.get<const char*>(1), r.s) && m.get<long>(2) == r.v, "an argument changed"); break;
        case 2: sym_check(m.getNumArgs() == 11, "wrong number of arguments");
            sym_check(m.get<int>(0) == 1 && m.get<int>(3) == 4, "an argument changed");
            sym_check(!strcmp(m.get<const char*>(4), r.s), "a string argument changed");
            sym_check((char)m.get<int>(5) == r.c, "an argument changed"); sym_check(bitsOf(m.get<double>(6)) == bitsOf(r.d), "a floating-point argument changed");
            sym_check(m.get<short>(7) == (short)r.v, "an argument changed"); sym_check(m.get<unsigned long>(8) == (unsigned long)r.v, "an argument changed");
            sym_check(m.get<const void*>(9) == (void*)r.v, "an argument changed"); sym_check(m.get<unsigned>(10) == (unsigned)r.v, "an argument changed"); break;
        case 3: sym_check(m.getNumArgs() == 21, "wrong number of arguments");
            sym_check(m.get<int>(0) == 7, "an argument changed"); sym_check(!strcmp(m.get<const char*>(1), s1), "a string argument changed");
            sym_check(m.get<unsigned char>(2) == (unsigned char)r.v, "an argument changed");
            sym_check(m.get<long long>(3) == r.v, "an argument changed"); sym_check(!strcmp(m.get<const char*>(4), r.s), "a string argument changed");
            for (int j = 0; j < 14; j++) sym_check(m.get<int>(5 + j) == j + 1, "an argument changed");
            sym_check(m.get<long>(19) == r.v && !strcmp(m.get<const char*>(20), r.s), "an argument changed"); break;
        case 4: sym_check(m.getNumArgs() == 11, "wrong number of arguments");
            for (int j = 0; j < 9; j++) sym_check(bitsOf(m.get<double>(j)) == bitsOf(r.d), "a floating-point argument changed");
            sym_check(!strcmp(m.get<const char*>(9), r.s), "a string argument changed"); sym_check(m.get<long>(10) == r.v, "an argument changed"); break;
        }
    }
    sym_check(!d->getNextLogStatement(m, out) && !m.valid() && m.getNumArgs() == 0, "a message after the last one");
    sym_reach("decoded");
}
