// C14: sync() and the flush at exit, with the real background thread.
#define NL_RUNTIME
#define NL_GENERATED_STUBS
#include "nl.h"
#include "NanoLog.h"
#include "mt.h"
#undef __FILE__
#define __FILE__ "sync.cc"
typedef RuntimeLogger RL;
namespace {
struct Who { char next; int n, tid; };      // messages are <a0? <a1? ...; thread x's n-th message is <xn and an arbitrary character
Who who[6]; int nw;
struct Msg { char t[5]; bool done, printed; int site, line; uint32_t id; }; Msg all[24]; int nall;
RL* rl;
#define X30 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
#define LONG "long %s" X30 X30 X30 X30 X30 X30 X30 X30 X30 X30 X30 X30 X30 X30 X30 "xxxxxxxxxxxxxxxxxxxx"
static_assert(sizeof(LONG) == 478, "");      // its dictionary entry fits an empty output buffer, but not one that holds a message
void say(int w, int site) {
    Msg& m = all[nall++]; m.t[0] = '<'; m.t[1] = (char)('a' + w); m.t[2] = (char)('0' + who[w].n++); m.t[4] = 0;
    sym_bytes(&m.t[3], 1, "content"); sym_assume(m.t[3] != 0 && m.t[3] != '<' && m.t[3] != 's');
    if (site == 1) { m.line = __LINE__; NANO_LOG(NOTICE, "two %s", m.t); } else if (site == 2) { m.line = __LINE__; NANO_LOG(NOTICE, LONG, m.t); } else { m.line = __LINE__; NANO_LOG(NOTICE, "one %s", m.t); }
    m.id = RL::stagingBuffer->getId(); m.site = site;
    m.done = true;
}
int countIn(const char* d, size_t n, const char* t) { int c = 0; for (size_t i = 0; i + 4 <= n; i++) if (d[i] == t[0] && d[i + 1] == t[1] && d[i + 2] == t[2]) { c++; sym_check(d[i + 3] == t[3], "a message is changed on its way to the log"); } return c; }
int onFile(const char* t) { int c = 0; for (int f = 0; f < mt_nfiles; f++) c += countIn(mt_files[f].data, mt_files[f].len, t); return c; }
bool due[24];
void beforeSync() { for (int i = 0; i < nall; i++) due[i] = all[i].done; }
void afterSync(const char* what) { for (int i = 0; i < nall; i++) if (due[i]) { int c = onFile(all[i].t); sym_check(c >= 1, what); sym_check(c <= 1, "a message is in the log twice"); } }
struct Plan { int w, k, site; bool syncs, early; }; Plan plans[6];
void shareBuffer(RL::StagingBuffer* sb) { sym_shared(&sb->producerPos, 8); sym_shared((void*)&sb->consumerPos, 8); sym_shared(&sb->endOfRecordedSpace, 8); sym_shared(&sb->shouldDeallocate, 1); }
void worker(void* a) {
    Plan* p = (Plan*)a;
    if (p->early) { NanoLog::preallocate(); shareBuffer(RL::stagingBuffer); }
    for (int i = 0; i < p->k; i++) say(p->w, p->site >= 0 ? p->site : (p->w + i) & 1);
    if (p->syncs) { int upto = nall; bool d[24]; for (int i = 0; i < upto; i++) d[i] = all[i].done;
        NanoLog::sync();
        for (int i = 0; i < upto; i++) if (d[i]) sym_check(onFile(all[i].t) == 1, "sync() returned before earlier messages were on file"); }
    if (p->k < 0) NanoLog::preallocate();
}
void shareBuffers() {
    for (RL::StagingBuffer* sb : rl->threadBuffers) shareBuffer(sb);
}
void share() {
    sym_shared(&rl->threadBuffers, sizeof rl->threadBuffers); sym_shared(&rl->invocationSites, sizeof rl->invocationSites);
    sym_shared(&rl->nextInvocationIndexToBePersisted, 4); sym_shared(&rl->syncStatus, 4); sym_shared(&rl->compressionThreadShouldExit, 1);
    sym_shared(&rl->hasOutstandingOperation, 1); sym_shared(&rl->outputFd, 4); sym_shared(&rl->nextBufferId, 4);
    shareBuffers();
}
void join(int t) { while (!sym_thread_done(t)) sym_block(0xF000000000000000ULL + t); }
int spawn(int k, bool syncs, int site = -1, bool early = false) { int w = ++nw; plans[w].site = site; plans[w].early = early; plans[w].w = w; plans[w].k = k; plans[w].syncs = syncs; return who[w].tid = sym_thread_create(worker, &plans[w]); }
void readBack() {                            // every log file decodes to exactly the messages, each once
    int seen = 0;
    for (int f = 0; f < mt_nfiles; f++) {
        char nm[3] = {'f', (char)('0' + f), 0}; char* img = (char*)malloc(mt_files[f].len); memcpy(img, mt_files[f].data, mt_files[f].len); mfile_set(nm, img, mt_files[f].len);
        if (mt_files[f].len == 0) continue;
        Log::Decoder* d = new Log::Decoder(); sym_check(d->open(nm), "the log cannot be opened");
        FILE* out = sink_open(); sym_check(d->decompressUnordered(out) >= 0, "the log cannot be read");
        if (NanoLogConfig::FILE_PARAMS & O_DIRECT) sym_check(mt_files[f].len % 512 == 0, "the log is not written in whole sectors although it was opened with O_DIRECT");
        size_t from = 0; int last[6] = {0};
        for (long at; (at = sink_find(out, from, "sync.cc:")) >= 0; ) {
            bool hit = false;
            for (int i = 0; i < nall && !hit; i++) {
                Msg& m = all[i]; if (m.printed) continue;
                FILE* t = sink_open(); fprintf(t, "sync.cc:%d %s[%u]: ", m.line, "NOTICE", m.id); if (m.site == 1) fprintf(t, "two %s\r\n", m.t); else if (m.site == 2) fprintf(t, LONG "\r\n", m.t); else fprintf(t, "one %s\r\n", m.t);
                size_t n = sink_size(t); hit = at + n <= sink_size(out) && sink_eq_range(out, at, n, t, 0, n);
                if (hit) { int w = m.t[1] - 'a', k = m.t[2] - '0'; sym_check(last[w] <= k, "messages of one thread are out of order"); last[w] = k; m.printed = true; seen++; from = at + n; }
            }
            sym_check(hit, "a line is printed that is not a message, or a message twice");
        }
    }
    sym_check(seen == nall, "not every message is in the log");
    bool used[3] = {false, false, false};
    for (int i = 0; i < nall; i++) { used[all[i].site] = true; for (int j = 0; j < i; j++) sym_check((all[i].t[1] == all[j].t[1]) == (all[i].id == all[j].id), "two threads share an id, or one has several"); }
    sym_check(rl->invocationSites.size() == (size_t)(used[0] + used[1] + used[2]), "a call site is registered twice or not at all");
}
}
// params: 0 script (base 16 digits, see below), 1 spurious wake-ups, 2 delayed polls of a write, 3 run to exit and read back
//  1 main logs         2 main syncs and checks       3 spawn a thread that logs one message and ends
//  4 spawn one that only allocates its buffer        5 spawn one that logs two          6 spawn one that logs and syncs
//  7 wait for all threads        8 switch to another log file      9 switch points on     a main logs with a long format     b spawn a thread that logs one through the same site as main's first
//  c spawn a thread that allocates its buffer, logs one and ends
extern "C" void c14_sync() {
    uint64_t script = (uint64_t)sym_param(0); mt_spurious = 0; mt_aioDelays = 0;
    rl = &RL::nanoLogSingleton; mt_ready = true;
    PerfUtils::Cycles::mockTscValue = 100;
    for (; script; script /= 16) switch (script % 16) {
        case 1: say(0, nall & 1); break;
        case 2: beforeSync(); NanoLog::sync(); afterSync("sync() returned before earlier messages were on file"); sym_reach("synced"); break;
        case 3: spawn(1, false); break;
        case 4: spawn(-1, false); break;
        case 5: spawn(2, false); break;
        case 6: spawn(1, true); break;
        case 7: for (int w = 1; w <= nw; w++) join(who[w].tid); break;
        case 8: beforeSync(); NanoLog::setLogFile("other"); afterSync("the log file was switched before earlier messages were on it"); break;
        case 10: say(0, 2); break;
        case 11: spawn(1, false, 0); break;
        case 12: spawn(1, false, -1, true); break;
        case 9: share(); mt_spurious = (int)sym_param(1); mt_aioDelays = (int)sym_param(2); sym_threads_on(1); break;
    }
    if (sym_param(3)) {
        for (int w = 1; w <= nw; w++) join(who[w].tid);
        beforeSync(); rl->~RL(); afterSync("the exit flush returned before earlier messages were on file");
        sym_reach("exit");
        if (sym_param(3) == 2) { sym_threads_on(0); readBack(); sym_reach("read back"); }
    }
}
