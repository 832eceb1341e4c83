// C15: severity filtering.
#define NL_RUNTIME
#define NL_GENERATED_STUBS
#include "nl.h"
#include "NanoLog.h"
#undef __FILE__
#define __FILE__ "logcase.cc"
static const char* TAG = "logcase.cc:";
static FILE* texts[8]; static int nm, evals;
template<typename T> static T once(T v) { evals++; return v; }
static uint64_t used() { uint64_t n = 0; if (RuntimeLogger::stagingBuffer) RuntimeLogger::stagingBuffer->peek(&n); return n; }
static void logAt(int sev, bool on, int v, const char* s) {
    FILE* t = sink_open();
    switch (sev) {
    case 0: fprintf(t, "%s%d %s[1]: s %d\r\n", TAG, __LINE__, "(none)", v); NANO_LOG(SILENT_LOG_LEVEL, "s %d", once(v)); break;
    case 1: fprintf(t, "%s%d %s[1]: e %d\r\n", TAG, __LINE__, "ERROR", v); NANO_LOG(ERROR, "e %d", once(v)); break;
    case 2: fprintf(t, "%s%d %s[1]: w %.2s\r\n", TAG, __LINE__, "WARNING", on ? s : ""); NANO_LOG(WARNING, "w %.2s", once(s)); break;
    case 3: fprintf(t, "%s%d %s[1]: n %s\r\n", TAG, __LINE__, "NOTICE", on ? s : ""); NANO_LOG(NOTICE, "n %s", once(s)); break;
    case 4: fprintf(t, "%s%d %s[1]: d %d\r\n", TAG, __LINE__, "DEBUG", v); NANO_LOG(DEBUG, "d %d", once(v)); break;
    }
    if (on) texts[nm++] = t;
}
// param 0: number of steps; each is a level change or a message
extern "C" void c15_level() {
    int k = (int)sym_param(0);
    RuntimeLogger& rl = RuntimeLogger::nanoLogSingleton;
    int level = NanoLog::getLogLevel();
    sym_check(level == NanoLog::NOTICE, "the initial level is not NOTICE");
    PerfUtils::Cycles::mockTscValue = 100;
    static bool seen[5]; bool any = false;
    for (int i = 0; i < k; i++) {
        bool set = sym_param(1) ? i % 2 == 0 : sym_choose(2, "set level");
        if (set) {
            int l = sym<int>("level");
            NanoLog::setLogLevel((NanoLog::LogLevel)l);
            int want = l < 0 ? 0 : l > 4 ? 4 : l;
            level = NanoLog::getLogLevel();
            sym_check(level == want, "the level is not clamped to the nearest valid one");
        } else {
            int sev = sym_choose(5, "severity");
            bool on = sev <= level;                     // forks
            int v = sym<int8_t>("v"); sym_assume(v >= 0); char* s = (char*)malloc(2); s[0] = 'q'; s[1] = 0;
            const char* arg = on ? s : (const char*)8;  // must not be touched when disabled
            uint64_t u = used(); size_t sites = rl.invocationSites.size(); int e = evals;
            RuntimeLogger::StagingBuffer* sb = RuntimeLogger::stagingBuffer;
            logAt(sev, on, v, arg);
            s[0] = 'X';
            if (on) {
                sym_check(used() > u, "an enabled message was not recorded");
                sym_check(evals == e + 1, "the arguments of an enabled message are not evaluated once");
                sym_check(rl.invocationSites.size() == sites + (seen[sev] ? 0 : 1), "the call site of a recorded message is not registered once");
                seen[sev] = true; any = true;
            } else {
                sym_check(used() == u, "a disabled message was recorded");
                sym_check(RuntimeLogger::stagingBuffer == sb, "a disabled message allocates a buffer");
                sym_check(evals == e, "the arguments of a disabled message are evaluated");
                sym_check(rl.invocationSites.size() == sites, "a disabled message left a trace in the dictionary");
            }
        }
    }
    char* ob = (char*)malloc(4096); Log::Encoder enc(ob, 4096);
    uint32_t pos = 0; enc.encodeNewDictionaryEntries(pos, rl.invocationSites);
    if (any) {
        uint64_t n = 0, cnt = 0; char* p = RuntimeLogger::stagingBuffer->peek(&n);
        long rd = enc.encodeLogMsgs(p, n, 1, true, rl.invocationSites, &cnt);
        sym_check((uint64_t)rd == n && cnt == (uint64_t)nm, "the enabled messages were not all recorded");
    }
    size_t len = enc.getEncodedBytes(); char* img = (char*)malloc(len); memcpy(img, ob, len); mfile_set("c15log", img, len);
    Log::Decoder* d = new Log::Decoder(); sym_check(d->open("c15log"), "the log cannot be opened");
    FILE* out = sink_open();
    sym_check(d->decompressTo(out) == nm, "the log does not hold exactly the enabled messages");
    size_t from = 0;
    for (int i = 0; i < nm; i++) {
        long t = sink_find(out, from, TAG); size_t n = sink_size(texts[i]);
        sym_check(t >= 0 && t + n <= sink_size(out) && sink_eq_range(out, t, n, texts[i], 0, n), "an enabled message was recorded wrong");
        from = t + n;
    }
    sym_check(sink_find(out, from, TAG) < 0, "a disabled message was printed");
    sym_reach("filtered"); if (any) sym_reach("recorded");
}
