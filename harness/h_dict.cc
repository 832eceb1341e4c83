// C10: the dictionary that the encoder writes gives back every call site's static information.
#define NL_RUNTIME
#define NL_GENERATED_STUBS
#include "nl.h"
using namespace NanoLogInternal::Log;
static const char* TAG = "logcase.cc";
static const char* SEV[] = {"(none)", "ERROR", "WARNING", "NOTICE", "DEBUG"};
struct Site { char* file; uint32_t line; uint8_t sev; char* fmt; bool arg; int id; FILE* text; int arity; };
static Site sites[8]; static int ns;
static const ParamType onearg[] = {ParamType::NON_STRING};
static char image[1 << 18]; static size_t ilen;
static void append(const char* p, size_t n) { memcpy(image + ilen, p, n); ilen += n; }
static const char* publish(const char* name) { char* img = (char*)malloc(ilen ? ilen : 1); memcpy(img, image, ilen); mfile_set(name, img, ilen); return name; }
static RuntimeLogger& rl() { return RuntimeLogger::nanoLogSingleton; }
// A new call site with arbitrary static information; it prints itself into 'text'.
static void site(uint32_t tid, int maxTail, int big, int bigFile) {
    Site& s = sites[ns];
    if (ns && maxTail > 1) maxTail = 1;
    int fl = sym_choose(maxTail + 1, "file characters"), tl = sym_choose(maxTail + 1, "format characters");
    size_t fpad = bigFile; s.file = (char*)malloc(11 + fl + fpad); strcpy(s.file, "logcase.cc"); sym_bytes(s.file + 10, fl, "file"); s.file[10 + fl] = 0;
    for (int i = 0; i < fl; i++) sym_assume(s.file[10 + i] != 0);
    for (size_t i = 0; i < fpad; i++) s.file[10 + fl + i] = 'A' + i % 26;
    s.file[10 + fl + fpad] = 0;
    s.line = sym<uint32_t>("line"); bool free1 = ns == 0 || sym_param(4) > 1;   // later sites differ in a fixed way
    s.sev = 1 + (free1 ? sym_choose(4, "severity") : ns % 4);
    s.arg = free1 ? sym_choose(2, "argument") : ns % 2;
    size_t pad = big ? (size_t)big : 0;
    s.fmt = (char*)malloc(pad + tl + 8); char* f = s.fmt;
    for (size_t i = 0; i < pad; i++) *f++ = 'a' + i % 26;
    char* t = f; sym_bytes(f, tl, "format"); f += tl;
    for (int i = 0; i < tl; i++) sym_assume(t[i] != 0 && t[i] != '%');
    if (s.arg) { *f++ = '%'; *f++ = 'd'; } *f = 0;
    s.text = sink_open(); s.id = -1;
    fprintf(s.text, "%s:%u %s[%u]: ", s.file, s.line, SEV[s.sev], tid);
    if (s.arg) fprintf(s.text, s.fmt, 100 + ns); else fprintf(s.text, "%s", s.fmt);
    fprintf(s.text, "\r\n");
    StaticLogInfo info(s.arg ? &compress<int> : &compress<>, s.file, s.line, s.sev, s.fmt, s.arg, s.arg, onearg);
    size_t before = rl().invocationSites.size();
    RuntimeLogger::registerInvocationSite(info, s.id);
    sym_check(s.id == ns && rl().invocationSites.size() == before + 1, "call sites are not numbered in the order of registration");
    if (sym_param(9)) { int id = s.id; RuntimeLogger::registerInvocationSite(info, id); sym_check(id == s.id && rl().invocationSites.size() == before + 1, "a registered call site is registered again"); }
    ns++;
}
static size_t message(char* at, int id) {
    UncompressedEntry* e = (UncompressedEntry*)at; bool a = sites[id].arg;
    e->fmtId = id; e->timestamp = 1000 + id; e->entrySize = sizeof(UncompressedEntry) + (a ? 4 : 0);
    if (a) { int v = 100 + id; memcpy(e->argData, &v, 4); }
    return e->entrySize;
}
// params: 0 sites in the first batch, 1 in the second, 2 smallest capacity, 3 largest, 4 tail characters, 5 decode mode, 6 length of the first format, 7 of the first file name, 9 register twice
extern "C" void c10_dict() {
    int n1 = (int)sym_param(0), n2 = (int)sym_param(1); size_t lo = sym_param(2), hi = sym_param(3);
    int mode = (int)sym_param(5); const uint32_t tid = 3;
    size_t maxHi = hi;
    char* cur = (char*)malloc(1024); size_t curCap = 1024;
    PerfUtils::Cycles::mockTscValue = 5;
    Encoder enc(cur, 1024);
    uint32_t& pos = rl().nextInvocationIndexToBePersisted;
    int seen = 0, spilled = 0, steps = 0;
    for (int batch = 0; batch < 2; batch++) {
        for (int i = 0; i < (batch ? n2 : n1); i++) site(tid, (int)sym_param(4), !batch && !i ? (int)sym_param(6) : 0, !batch && !i ? (int)sym_param(7) : 0);
        for (int step = 0; pos < (uint32_t)ns; step++, steps++) {
            // a fresh output buffer of any size; the last resort is a large one
            bool last = step == 1;
            size_t cap = last ? 1 << 17 : (size_t)sym<uint16_t>("capacity");
            if (!last) sym_assume(cap >= lo && cap <= hi);
            size_t room = last ? cap : maxHi; const size_t slack = 32;
            char* b = (char*)malloc(room + slack); memset(b, 0xA5, room + slack);
            char* ob; size_t ol, osz; enc.swapBuffer(b, cap, &ob, &ol, &osz);
            append(ob, ol); cur = b; curCap = cap;
            uint32_t p0 = pos;
            enc.encodeNewDictionaryEntries(pos, rl().invocationSites);
            sym_check(pos >= p0 && pos <= (uint32_t)ns, "the number of entries written is wrong");
            sym_check(enc.getEncodedBytes() <= cap, "the dictionary overran its buffer");
            size_t top = 0; for (size_t k = enc.getEncodedBytes(); k < room + slack; k++) if (b[k] != (char)0xA5) top = k + 1;
            sym_check(top <= cap, "the dictionary overran its buffer");
            if (last) sym_check(pos == (uint32_t)ns, "entries that fit were not written");
            if (pos < (uint32_t)ns) spilled = 1;
            // messages of every site: those whose entry is not written yet must not be taken
            if (cap - enc.getEncodedBytes() >= 512) {
                // the background thread's copy of what is persisted
                std::vector<StaticLogInfo> shadow; for (uint32_t k = 0; k < pos; k++) shadow.push_back(rl().invocationSites.at(k));
                char* src = (char*)malloc(64 * 8); size_t n = 0, have = 0;
                for (int k = seen; k < ns; k++) { n += message(src + n, k); if ((uint32_t)k < pos) have = n; }
                uint64_t cnt = 0; long rd = enc.encodeLogMsgs(src, n, tid, false, shadow, &cnt);
                sym_check((size_t)rd == have, "a message was written before its call site's entry, or held back after it");
                sym_check(enc.getEncodedBytes() <= cap, "output overran its buffer");
                seen = pos;
            }
        }
    }
    if (seen < ns) {
        char* b = (char*)malloc(2048); char* ob; size_t ol, osz; enc.swapBuffer(b, 2048, &ob, &ol, &osz); append(ob, ol); cur = b;
        char* src = (char*)malloc(64 * 8); size_t n = 0; for (int k = seen; k < ns; k++) n += message(src + n, k);
        uint64_t cnt = 0; long rd = enc.encodeLogMsgs(src, n, tid, false, rl().invocationSites, &cnt);
        sym_check((size_t)rd == n && cnt == (uint64_t)(ns - seen), "messages were not consumed");
    }
    append(cur, enc.getEncodedBytes());
    Decoder* d = new Decoder();
    sym_check(d->open(publish("c10log")), "the log cannot be opened");
    FILE* out = sink_open(); int64_t r;
    if (mode == 0) r = d->decompressTo(out); else if (mode == 1) r = d->decompressUnordered(out);
    else { LogMessage m; r = 0; while (d->getNextLogStatement(m, out)) { sym_check(m.getLogId() == (uint32_t)r, "a message has the wrong id"); r++; if (r > ns) break; } }
    sym_check(r == ns, "the number of messages differs");
    size_t from = 0;
    for (int i = 0; i < ns; i++) {
        long t = sink_find(out, from, TAG); size_t n = sink_size(sites[i].text);
        sym_check(t >= 0 && t + n <= sink_size(out) && sink_eq_range(out, t, n, sites[i].text, 0, n), "a call site's static information changed");
        from = t + n;
    }
    sym_reach("dict"); if (spilled) sym_reach("spilled");
}
