// C02, C09, C11, C12, C13: messages recorded with NANO_LOG, compressed by the real Encoder into
// extents of several threads / output passes / executions, and read back by the real Decoder.
#define NL_RUNTIME
#define NL_GENERATED_STUBS
#include "nl.h"
#undef __FILE__
#define __FILE__ "logcase.cc"
static const char* TAG = "logcase.cc:";
using PerfUtils::Cycles;

// ---------------------------------------------------------------- C02
static void c02_one(const Log::UncompressedEntry* e, uint64_t last, char*& p, char* end) {
    (void)end;
    char* b = p;
    size_t n = Log::compressLogHeader(e, &p, last);
    sym_check(p > b && (size_t)(p - b) <= sizeof(Log::UncompressedEntry), "a compressed header is larger than the uncompressed one");
    sym_check(n == (size_t)(p - b), "the reported header size is not the number of bytes written");
}
extern "C" void c02_header() {
    int k = (int)sym_param(0);                     // headers in a row
    char* buf = (char*)malloc(16 * k);             // exactly the space that is accounted for
    Log::UncompressedEntry e[3]; uint64_t last[3];
    char* p = buf;
    uint64_t prev = sym<uint64_t>("last");
    for (int i = 0; i < k; i++) {
        e[i].fmtId = sym<uint32_t>("id"); e[i].entrySize = 16; e[i].timestamp = sym<uint64_t>("ts"); last[i] = prev;
        if (i + 1 < k) sym_assume(e[i].fmtId < 256 && e[i].timestamp - prev < 65536);   // only the last header of a run is unrestricted
        c02_one(&e[i], prev, p, buf + 16 * k);
        prev = e[i].timestamp;
    }
    size_t n = p - buf; char* in = (char*)malloc(n); memcpy(in, buf, n);    // decoding may not read further
    const char* r = in;
    for (int i = 0; i < k; i++) {
        uint32_t id = 0; uint64_t ts = 0;
        sym_check(Log::peekEntryType(r) == Log::EntryType::LOG_MSGS_OR_DIC, "a header is not recognised as a message");
        sym_check(Log::decompressLogHeader(&r, last[i], id, ts), "a header that was written is not accepted");
        sym_check(id == e[i].fmtId, "log id changed");
        sym_check(ts == e[i].timestamp, "timestamp changed");
    }
    sym_check((size_t)(r - in) == n, "decoding consumed a different number of bytes than encoding wrote");
    sym_reach("header");
}

// ---------------------------------------------------------------- messages
struct Msg { uint32_t tid; uint64_t ts; int exec, pass, idx; FILE* text; bool out; uint32_t id; uint64_t arg; };
static Msg msgs[12]; static int nm;
static int lineOf[4];
// Record message number 'nm' at a call site; its expected printed line is kept beside it.
static void rec(int site, uint32_t tid, uint64_t ts, int64_t v, const char* s) {
    Msg& m = msgs[nm++]; m.tid = tid; m.ts = ts; m.text = sink_open(); m.out = false; m.arg = (uint64_t)v;
    Cycles::mockTscValue = ts;
    switch (site) {
    case 0: fprintf(m.text, "%s%d NOTICE[%u]: num %d.\r\n", TAG, __LINE__ + 1, tid, (int)v);
        NANO_LOG(NOTICE, "num %d.", (int)v); break;
    case 1: fprintf(m.text, "%s%d WARNING[%u]: str %s!\r\n", TAG, __LINE__ + 1, tid, s);
        NANO_LOG(WARNING, "str %s!", s); break;
    case 2: fprintf(m.text, "%s%d ERROR[%u]: fixed text\r\n", TAG, __LINE__ + 1, tid);
        NANO_LOG(ERROR, "fixed text"); break;
    case 3: fprintf(m.text, "%s%d NOTICE[%u]: both %ld and %s.\r\n", TAG, __LINE__ + 1, tid, (long)v, s);
        NANO_LOG(NOTICE, "both %ld and %s.", (long)v, s); break;
    case 4: { char c = (char)v;   // as many bytes as arguments: does not compress at all
        fprintf(m.text, "%s%d NOTICE[%u]: %c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c\r\n", TAG, __LINE__ + 1, tid, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c);
        NANO_LOG(NOTICE, "%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c", c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c); break; }
    }
}
static uint64_t recorded(char** p) { uint64_t n = 0; *p = RuntimeLogger::stagingBuffer->peek(&n); return n; }
static char image[1 << 14]; static size_t ilen;
static void append(const char* p, size_t n) { memcpy(image + ilen, p, n); ilen += n; }
static const char* publish(const char* name) { char* img = (char*)malloc(ilen ? ilen : 1); memcpy(img, image, ilen); mfile_set(name, img, ilen); return name; }
// position of the next printed message; which one it is
static long nextLine(FILE* out, size_t from) { return sink_find(out, from, TAG); }
static bool isMsg(FILE* out, long at, const Msg& m) {
    size_t n = sink_size(m.text);
    return at + n <= sink_size(out) && sink_eq_range(out, at, n, m.text, 0, n);
}
static void checkFileOrder(FILE* out, int from, int n) {
    long pos = 0;
    for (int i = 0; i < n; i++) {
        long t = nextLine(out, pos);
        sym_check(t >= 0, "a message is missing from the output");
        sym_check(isMsg(out, t, msgs[from + i]), "a message was printed wrong, out of place or twice");
        pos = t + sink_size(msgs[from + i].text);
    }
    sym_check(nextLine(out, pos) < 0, "more messages were printed than logged");
}
static char* symstr(int cap) { char* b = (char*)malloc(cap + 1); sym_bytes(b, cap, "str"); b[cap] = 0; return b; }

// ---------------------------------------------------------------- C09
// param 0: number of messages, 1..: sites; capacity of the first output buffer is chosen freely
extern "C" void c09_encode() {
    int k = (int)sym_param(0), maxcap = (int)sym_param(1), mincap = (int)sym_param(2);
    uint32_t tid = sym<uint32_t>("thread");
    if (k > 1 || sym_param(3) == 4) sym_assume(tid < 16 || (tid > 0x10000 && tid < 0x1000000));
    for (int i = 0; i < k; i++) {
        int site = (int)sym_param(3 + i);
        int64_t v = site == 3 ? sym<int64_t>("v") : site == 0 ? (int64_t)sym<int32_t>("v") : site == 4 ? (int64_t)sym<int8_t>("v") : 0;
        uint64_t ts = sym<uint64_t>("ts"); sym_assume(site == 4 ? ts >= (1ULL << 60) : ts >= 1000 && ts < 1256);
        if (k > 1 && site == 3) sym_assume((v >= 0 && v < 256) || v < -0x1000000000000);
        if (k > 1 && site == 0) sym_assume((v >= 0 && v < 256) || v >= 0x1000000);
        rec(site, tid, ts, v, site == 1 || site == 3 ? symstr(k > 1 ? 1 : 2) : "");
    }
    RuntimeLogger& rl = RuntimeLogger::nanoLogSingleton;
    // The dictionary goes out first, in a buffer of its own.
    char* b0 = (char*)malloc(1024);
    Log::Encoder enc(b0, 1024);
    uint32_t pos = 0; enc.encodeNewDictionaryEntries(pos, rl.invocationSites);
    sym_check(pos == rl.invocationSites.size(), "dictionary did not fit");
    size_t cap = sym<uint16_t>("capacity"); sym_assume(cap >= (size_t)mincap && cap <= (size_t)maxcap);
    const size_t slack = 64;
    char* b1 = (char*)malloc(maxcap + slack); memset(b1, 0xA5, maxcap + slack);
    char* ob; size_t ol, osz;
    enc.swapBuffer(b1, cap, &ob, &ol, &osz);
    sym_check(ob == b0 && osz == 1024 && ol <= 1024, "swapBuffer does not return the previous buffer");
    append(ob, ol);
    char* p; uint64_t avail = recorded(&p);
    uint64_t before = avail, total = 0, cnt = 0;
    uint64_t edges[8]; int ne = 0; edges[ne++] = 0;
    { uint64_t o = 0; for (int i = 0; i < k; i++) { o += ((Log::UncompressedEntry*)(p + o))->entrySize; edges[ne++] = o; } sym_check(o == before, "recorded sizes do not add up"); }
    // a partially visible message at the end must be left alone
    uint64_t cut = sym_choose(2, "partial") ? 4 : 0;
    char* src = (char*)malloc(avail - cut > 0 ? avail - cut : 1); memcpy(src, p, avail - cut);
    uint64_t bytes = avail - cut;
    int steps = 0;
    bool pass = sym_choose(2, "pass");
    uint64_t rd1 = enc.encodeLogMsgs(src, bytes, tid, pass, rl.invocationSites, &cnt);
    int done = -1; for (int i = 0; i < ne; i++) if (edges[i] == rd1) done = i;
    sym_check(done >= 0, "a step consumed part of a message");
    sym_check(cnt == (uint64_t)done, "the number of messages consumed is reported wrong");
    sym_check(rd1 <= bytes, "more was consumed than given");
    sym_check(enc.getEncodedBytes() <= cap, "output overran its buffer");
    size_t e1 = enc.getEncodedBytes();
    if (sym_choose(2, "same buffer")) {              // encode again without swapping: nothing may break
        uint64_t c2 = 0, rd2 = rd1 < bytes ? enc.encodeLogMsgs(src + rd1, bytes - rd1, tid, false, rl.invocationSites, &c2) : 0;
        rd1 += rd2; cnt += c2;
        done = -1; for (int i = 0; i < ne; i++) if (edges[i] == rd1) done = i;
        sym_check(done >= 0 && cnt == (uint64_t)done, "a second step consumed part of a message");
        sym_check(enc.getEncodedBytes() <= cap && enc.getEncodedBytes() >= e1, "output overran its buffer");
    }
    // the rest goes into a fresh, large buffer
    { unsigned ok = 1; for (size_t i = enc.getEncodedBytes(); i < maxcap + slack; i++) if (b1[i] != (char)0xA5) ok &= (unsigned)(i < cap); sym_check(ok, "output overran its buffer"); }
    char* b2 = (char*)malloc(2048);
    enc.swapBuffer(b2, 2048, &ob, &ol, &osz);
    sym_check(ob == b1 && osz == cap && ol <= cap, "swapBuffer does not return the previous buffer");
    append(ob, ol);
    int whole = cut ? k - 1 : k;
    if (rd1 < bytes) {
        uint64_t c2 = 0, rd2 = enc.encodeLogMsgs(src + rd1, bytes - rd1, tid, false, rl.invocationSites, &c2);
        sym_check(rd1 + rd2 == edges[whole], "messages with enough output space were not consumed");
        sym_check(c2 == (uint64_t)(whole - done), "the number of messages consumed is reported wrong");
    } else sym_check(done == whole, "wrong amount consumed");
    append(b2, enc.getEncodedBytes());
    Log::Decoder* d = new Log::Decoder();
    sym_check(d->open(publish("c09log")), "the log cannot be opened");
    FILE* out = sink_open();
    int64_t r = d->decompressUnordered(out);
    sym_check(r == whole, "the number of decoded messages differs");
    checkFileOrder(out, 0, whole);
    sym_obs("first", rd1); sym_obs("bytes", ilen);
    sym_reach("encoded");
    if (rd1 == 0) sym_reach("nofit");
    if (done > 0 && done < whole) sym_reach("partial");
}
// A full staging buffer of messages whose arguments do not compress must still be readable.
extern "C" void c09_expand() {
    long a = sym<long>("a"); sym_assume((uint64_t)a > (1ULL << 56) && (uint64_t)a < (1ULL << 63));
    char c = sym<char>("c");
    RuntimeLogger& rl = RuntimeLogger::nanoLogSingleton;
    int n = 0;
    Cycles::mockTscValue = 0x7fffffffff;
    for (;;) {
        uint64_t used = 0; if (RuntimeLogger::stagingBuffer) RuntimeLogger::stagingBuffer->peek(&used);
        uint64_t need = sym_param(0) ? 16 + 24 * 8 : 16 + 24;
        if (used + need >= NanoLogConfig::STAGING_BUFFER_SIZE) break;
        Cycles::mockTscValue += 0x7000000000ULL;
        if (sym_param(0)) NANO_LOG(NOTICE, "%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld%ld", a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a, a);
        else NANO_LOG(NOTICE, "%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c", c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c);
        n++;
    }
    char* ob = (char*)malloc(NanoLogConfig::OUTPUT_BUFFER_SIZE);
    Log::Encoder enc(ob, NanoLogConfig::OUTPUT_BUFFER_SIZE);
    uint32_t pos = 0; enc.encodeNewDictionaryEntries(pos, rl.invocationSites);
    char* p; uint64_t avail = recorded(&p), cnt = 0;
    uint64_t rd = enc.encodeLogMsgs(p, avail, 300, true, rl.invocationSites, &cnt);
    sym_check(rd == avail && cnt == (uint64_t)n, "a full buffer was not consumed");
    append(ob, enc.getEncodedBytes());
    Log::Decoder* d = new Log::Decoder();
    sym_check(d->open(publish("c09x")), "the log cannot be opened");
    FILE* out = sink_open();
    int64_t r = sym_param(1) ? d->decompressTo(out) : d->decompressUnordered(out);
    sym_check(r == n, "messages of a full buffer were lost in decompression");
    sym_reach("expanded");
}

// ---------------------------------------------------------------- C11
// Structure: nx extents; for each: thread, number of messages, starts a new pass, new execution first.
// Encoded in params as groups of 4; a value of CH (9) means "any", within maxMsgs messages in all. Timestamps are free within the stated ordering assumption.
static int maxMsgs = 100, maxExec = 2, argLimit = 0; static const int CH = 9; static bool padding = false; static int fullAtPass = 0;
static void flush(char*& ob, Log::Encoder* enc) {      // what was encoded goes to the file, padded if it was opened with O_DIRECT
    append(ob, enc->getEncodedBytes());
    if (padding) { static const int P[3] = {0, 1, 5}; int n = P[sym_choose(3, "padding")]; memset(image + ilen, 0, n); ilen += n; char* o; size_t l, z; ob = (char*)malloc(2048); enc->swapBuffer(ob, 2048, &o, &l, &z); }
}
static int pick(int v, int n, const char* what) { return v == CH ? sym_choose(n, what) : v; }
static void build(int nx, int base, bool sortedTs, bool symArgs) {
    RuntimeLogger& rl = RuntimeLogger::nanoLogSingleton;
    char* ob = (char*)malloc(2048);
    int exec = 0, pass = 0; uint32_t pos = 0;
    Cycles::mockTscValue = 5;
    Log::Encoder* enc = new Log::Encoder(ob, 2048);
    for (int x = 0; x < nx; x++) {
        uint32_t tid = (uint32_t)sym_param(base + 4 * x);
        bool ne = pick((int)sym_param(base + 4 * x + 3), 2, "new execution");
        // One pass visits the buffers by index, so going back to a lower one means a new pass.
        bool np = ne || (sortedTs && x && tid < (uint32_t)sym_param(base + 4 * (x - 1))) || pick((int)sym_param(base + 4 * x + 2), 2, "new pass");
        int cnt = pick((int)sym_param(base + 4 * x + 1), 3, "messages");
        if (nm + cnt > maxMsgs || exec + ne >= maxExec || (x && !np && tid == (uint32_t)sym_param(base + 4 * (x - 1)))) sym_assume(false);
        if (x && padding) flush(ob, enc);
        if (ne) { if (!padding) append(ob, enc->getEncodedBytes()); ob = (char*)malloc(2048); Cycles::mockTscValue = 5; enc = new Log::Encoder(ob, 2048); pos = 0; exec++; pass = 0; }
        if (np) pass++;
        for (int i = 0; i < cnt; i++) {
            uint64_t ts;
            if (sortedTs && nx <= 3) { uint64_t hi = sym<uint8_t>("seconds"), lo = sym<uint8_t>("ts"); sym_assume(hi < 2 && lo >= 1 && lo < 128); ts = (hi << 33) + lo; }
            else { ts = sym<uint8_t>("ts"); sym_assume(ts >= 1 && ts < 128); }
            int id = nm;
            if (sortedTs) {
                for (int j = 0; j < nm; j++) {
                    if (msgs[j].exec != exec) continue;
                    if (msgs[j].tid == tid) sym_assume(msgs[j].ts < ts);                  // each thread's clock runs forward
                    // A message recorded before extent (p,i) was written is handed out by the next two peeks of
                    // its buffer j at the latest: one up to the end of the ring, one from its start.
                    if (msgs[j].pass + 3 <= pass || (msgs[j].pass + 2 == pass && (int)tid > msgs[j].idx)) sym_assume(msgs[j].ts <= ts);
                }
            }
            if (symArgs) { int site = id % 4; int64_t v = site == 0 ? (int64_t)sym<int32_t>("v") : site == 3 ? (int64_t)sym<int64_t>("v") : 0; if (argLimit + nx > 1) sym_assume(v < 256 && (v >= 0 || (argLimit + nx == 2 && v < (site == 0 ? -0x1000000 : -0x10000000000)))); const char* str = site & 1 ? symstr(1) : ""; rec(site, tid, ts, v, str); }
            else rec(exec & 1 ? 3 : 0, tid, ts, 100 + id, "x");
            msgs[id].exec = exec; msgs[id].pass = pass; msgs[id].idx = (int)tid;
        }
        char* p; uint64_t avail = recorded(&p), c = 0;
        enc->encodeNewDictionaryEntries(pos, rl.invocationSites);
        char* src = (char*)malloc(avail ? avail : 1); memcpy(src, p, avail);
        static int fulls; if (fulls < fullAtPass && np && x && cnt && sym_choose(2, "output full at the start of a pass")) {   // the output buffer has room for the start of an extent only; it is written out, then the pass goes on
            fulls++; uint64_t c0 = 0; enc->endOfBuffer = enc->writePos + 20;
            sym_check(enc->encodeLogMsgs(src, avail, tid, np, rl.invocationSites, &c0) == 0 && c0 == 0, "a message was encoded that does not fit");
            append(ob, enc->getEncodedBytes());
            char* o; size_t l, z; ob = (char*)malloc(2048); enc->swapBuffer(ob, 2048, &o, &l, &z);
        }
        uint64_t rd = enc->encodeLogMsgs(src, avail, tid, np, rl.invocationSites, &c);
        sym_check(rd == avail && c == (uint64_t)cnt, "messages were not consumed");
        RuntimeLogger::stagingBuffer->consume(rd);
    }
    flush(ob, enc);
}
extern "C" void c11_sorted() {
    int nx = (int)sym_param(0);
    RuntimeLogger::preallocate();
    maxMsgs = (int)sym_param(1) % 16; fullAtPass = (int)sym_param(1) / 16;
    build(nx, 2, true, false);
    Log::Decoder* d = new Log::Decoder();
    sym_check(d->open(publish("c11log")), "the log cannot be opened");
    FILE* out = sink_open();
    int64_t r = d->decompressTo(out);
    long pos = 0; int last = -1;
    for (int i = 0; i < nm; i++) {
        long t = nextLine(out, pos);
        sym_check(t >= 0, "a message is missing from the sorted output");
        int hit = -1;
        for (int j = 0; j < nm; j++) if (!msgs[j].out && isMsg(out, t, msgs[j])) { hit = j; break; }
        sym_check(hit >= 0, "a sorted message was printed wrong or twice");
        for (int j = 0; j < hit; j++) {
            sym_check(msgs[j].exec == msgs[hit].exec || msgs[j].out, "executions are not printed one after the other");
            sym_check(msgs[j].exec != msgs[hit].exec || msgs[j].tid != msgs[hit].tid || msgs[j].out, "messages of one thread were reordered");
        }
        if (last >= 0 && msgs[last].exec == msgs[hit].exec) sym_check(msgs[last].ts <= msgs[hit].ts, "messages are not in time order");
        msgs[hit].out = true; last = hit; pos = t + sink_size(msgs[hit].text);
    }
    sym_check(nextLine(out, pos) < 0, "more messages were printed than logged");
    sym_check(r == nm, "the number of decoded messages is reported wrong");
    sym_reach("sorted");
}

// ---------------------------------------------------------------- C12
extern "C" void c12_file() {          // mode (0 unsorted, 1 iterative with output, 2 iterative without), extents
    int mode = (int)sym_param(0), nx = (int)sym_param(1);
    RuntimeLogger::preallocate();
    maxMsgs = (int)sym_param(2);
    padding = mode >= 4; mode &= 3;          // 4-7: the same with padded output; 7: sorted
    build(nx, 3, mode == 3, mode != 3);
    Log::Decoder* d = new Log::Decoder();
    sym_check(d->open(publish("c12log")), "the log cannot be opened");
    FILE* out = sink_open();
    if (mode == 0) { int64_t r = d->decompressUnordered(out); sym_check(r == nm, "the number of decoded messages is reported wrong"); }
    else if (mode == 3) { for (int i = 1; i < nm; i++) if (msgs[i].exec == msgs[i - 1].exec) sym_assume(msgs[i - 1].ts < msgs[i].ts); int64_t r = d->decompressTo(out); sym_check(r == nm, "the number of decoded messages is reported wrong"); checkFileOrder(out, 0, nm); }
    else {
        Log::LogMessage m;
        for (int i = 0; i < nm; i++) {
            sym_check(d->getNextLogStatement(m, mode == 1 ? out : nullptr), "the decoder stopped before the end of the log");
            sym_check(m.valid(), "a decoded message is marked invalid");
            sym_check(m.getTimestamp() == msgs[i].ts, "a decoded message has the wrong timestamp");
            int site = i % 4;
            sym_check(m.getLogId() == (uint32_t)site, "a decoded message has the wrong id");
            sym_check(m.getNumArgs() == (site == 2 ? 0 : site == 3 ? 2 : 1), "a decoded message has the wrong number of arguments");
            if (site == 0) sym_check(m.get<int>(0) == (int)msgs[i].arg, "an argument changed");
            if (site == 3) sym_check(m.get<long>(0) == (long)msgs[i].arg, "an argument changed");
        }
        sym_check(!d->getNextLogStatement(m, mode == 1 ? out : nullptr), "the decoder invents a message after the end of the log");
        sym_check(!m.valid(), "no message, but it is marked valid");
        sym_check(!d->getNextLogStatement(m, mode == 1 ? out : nullptr), "the decoder invents a message after the end of the log");
    }
    if (mode < 2) checkFileOrder(out, 0, nm);
    sym_reach("read");
}
// Open a second log after reading k messages of the first one; nothing of the first may show up.
extern "C" void c12_reopen() {
    int mode = (int)sym_param(0);
    RuntimeLogger::preallocate();
    argLimit = 3; maxExec = 4;
    if (int nx = (int)sym_param(9)) build(nx, 10, false, true); else build(1, 1, false, true);   // first log: params 1..4, or 9.. extents
    publish("first");
    int nfirst = nm; size_t l1 = ilen; (void)l1; ilen = 0;
    build(1, 5, false, true);                          // second log: params 5..8
    publish("second");
    Log::Decoder* d = new Log::Decoder();
    sym_check(d->open("first"), "the first log cannot be opened");
    FILE* o1 = sink_open(); Log::LogMessage m;
    int k = sym_choose(nfirst + 2, "read of first");
    if (k == nfirst + 1) d->decompressUnordered(o1); else for (int i = 0; i < k; i++) sym_check(d->getNextLogStatement(m, o1), "cannot read the first log");
    if (sym_choose(2, "missing file")) sym_check(!d->open("no such file"), "opening a missing file succeeds");
    sym_check(d->open("second"), "the second log cannot be opened");
    FILE* out = sink_open(); int n2 = nm - nfirst;
    if (mode == 0) { int64_t r = d->decompressUnordered(out); sym_check(r == n2, "the number of messages counts those of another file"); }
    else if (mode == 1) { int64_t r = d->decompressTo(out); sym_check(r == n2, "the number of messages counts those of another file"); }
    else { for (int i = 0; i < n2; i++) sym_check(d->getNextLogStatement(m, out), "the decoder stopped before the end of the log"); sym_check(!d->getNextLogStatement(m, out), "the decoder invents a message after the end of the log"); }
    if (mode != 1) checkFileOrder(out, nfirst, n2);
    sym_reach("reopened");
}

// ---------------------------------------------------------------- C13
// The file ends at an arbitrary byte: all messages of complete extents before it are printed.
static size_t extEnd[8]; static int extMsgs[8], extExec[8]; static int nExt; static size_t execEnd[4];
static void buildCut(int nx, int base) {
    RuntimeLogger& rl = RuntimeLogger::nanoLogSingleton;
    char* ob = (char*)malloc(2048); uint32_t pos = 0; int exec = 0;
    Cycles::mockTscValue = 5;
    Log::Encoder* enc = new Log::Encoder(ob, 2048);
    execEnd[0] = enc->getEncodedBytes();
    for (int x = 0; x < nx; x++) {
        uint32_t tid = (uint32_t)sym_param(base + 4 * x); int cnt = (int)sym_param(base + 4 * x + 1); bool np = sym_param(base + 4 * x + 2); bool ne = sym_param(base + 4 * x + 3);
        if (ne) { append(ob, enc->getEncodedBytes()); ob = (char*)malloc(2048); Cycles::mockTscValue = 5; enc = new Log::Encoder(ob, 2048); pos = 0; exec++; }
        for (int i = 0; i < cnt; i++) {
            int id = nm, site = id % 4;
            int64_t v = site == 0 || site == 3 ? (int64_t)sym<int8_t>("v") : 0; const char* str = site & 1 ? symstr(1) : ""; rec(site, tid, 20 + id, v, str);
            msgs[id].exec = exec;
        }
        char* p; uint64_t avail = recorded(&p), c = 0;
        enc->encodeNewDictionaryEntries(pos, rl.invocationSites);
        uint64_t rd = enc->encodeLogMsgs(p, avail, tid, np, rl.invocationSites, &c);
        sym_check(rd == avail && c == (uint64_t)cnt, "messages were not consumed");
        RuntimeLogger::stagingBuffer->consume(rd);
        extEnd[nExt] = ilen + enc->getEncodedBytes(); extMsgs[nExt] = nm; extExec[nExt] = exec; nExt++;
    }
    append(ob, enc->getEncodedBytes());
}
extern "C" void c13_cut() {              // mode 0 sorted, 1 unsorted, 2 iterative
    int mode = (int)sym_param(0), nx = (int)sym_param(1);
    RuntimeLogger::preallocate();
    buildCut(nx, 2);
    size_t full = ilen;
    size_t cut = sym_choose((int)full + 1, "cut");
    int want = 0; for (int i = 0; i < nExt; i++) if (extEnd[i] <= cut) want = extMsgs[i];
    ilen = cut;
    publish("c13log");
    Log::Decoder* d = new Log::Decoder();
    bool ok = d->open("c13log");
    if (cut >= execEnd[0]) sym_check(ok, "a log with an intact start cannot be opened"); else { sym_check(!ok, "a log without a complete checkpoint is accepted"); sym_reach("unopenable"); }
    FILE* out = sink_open(); int64_t r = -1;
    if (mode == 0) r = d->decompressTo(out);
    else if (mode == 1) r = d->decompressUnordered(out);
    else { Log::LogMessage m; int n = 0; while (d->getNextLogStatement(m, out)) { n++; sym_check(n <= nm, "messages were invented"); } r = n; }
    if (ok) {
        checkFileOrder(out, 0, want);
        if (mode != 1) sym_check(r == want, "the number of messages is reported wrong");
        sym_reach("cut");
    } else sym_check(nextLine(out, 0) < 0, "messages from a log that could not be opened");
}
