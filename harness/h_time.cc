// C17: the wall-clock time printed for a message.
#define NL_RUNTIME
#define NL_GENERATED_STUBS
#include "nl.h"
using namespace NanoLogInternal::Log;
static void msg(uint64_t ts) { PerfUtils::Cycles::mockTscValue = ts; NANO_LOG(NOTICE, "m"); }
// params: 0 tick rate, 1 base (ticks after the calibration point), 2 half window, 3 messages, 4 calibration tick, 5 time of the calibration point (0: the clock's)
// One message: the nanoseconds field and (small windows) the value. Two messages: their order.
extern "C" void c17_time() {
    uint64_t cps = sym_param(0); int64_t base = sym_param(1), win = sym_param(2); int k = (int)sym_param(3); uint64_t ck = sym_param(4);
    RuntimeLogger& rl = RuntimeLogger::nanoLogSingleton;
    PerfUtils::Cycles::cyclesPerSec = (double)cps;
    char* ob = (char*)malloc(4096); PerfUtils::Cycles::mockTscValue = ck;
    Encoder enc(ob, 4096);
    int64_t d[2];
    for (int i = 0; i < k; i++) {
        int64_t o;
        if (win <= 127) { int8_t w = sym<int8_t>("ticks"); sym_assume(w >= -win && w <= win); if (i) sym_assume(base + w >= d[i - 1]); o = w; }
        else { o = sym<int64_t>("ticks"); sym_assume(o >= -win && o <= win); }
        d[i] = base + o;
        msg(ck + (uint64_t)d[i]);
    }
    uint32_t pos = 0; enc.encodeNewDictionaryEntries(pos, rl.invocationSites);
    uint64_t n = 0, cnt = 0; char* p = RuntimeLogger::stagingBuffer->peek(&n);
    enc.encodeLogMsgs(p, n, 1, true, rl.invocationSites, &cnt);
    int64_t unix0 = ((Checkpoint*)ob)->unixTime;
    sym_check(((Checkpoint*)ob)->cyclesPerSecond == (double)cps && ((Checkpoint*)ob)->rdtsc == ck, "the calibration point is recorded wrong");
    // the log may be of a later era, and read on a machine with another clock
    if (sym_param(5)) ((Checkpoint*)ob)->unixTime = unix0 = (int64_t)sym_param(5);
    PerfUtils::Cycles::cyclesPerSec = (double)(cps / 2 + 12345);
    size_t len = enc.getEncodedBytes(); char* img = (char*)malloc(len); memcpy(img, ob, len); mfile_set("c17log", img, len);
    Decoder* dec = new Decoder(); sym_check(dec->open("c17log"), "the log cannot be opened");
    LogMessage m; FILE* out = sink_open(); int64_t sec[2], nano[2]; size_t from = 0;
    for (int i = 0; i < k; i++) {
        sym_check(dec->getNextLogStatement(m, out), "a message is missing");
        int ok = sink_time(out, from, &sec[i], &nano[i]); from = sink_size(out);
        sym_check(ok && (k > 1 || (nano[i] >= 0 && nano[i] <= 999999999)), "the nanoseconds field is not between 0 and 999999999");
    }
    for (int i = 0; i < k && k == 1 && win <= 127; i++) {
        // within 2 ns of the exact value
        int64_t s = sec[i] - unix0, whole = base / (int64_t)cps;
        sym_check(s >= whole - 2 && s <= whole + 2, "the printed time is not the calibration point plus the elapsed time");
        int64_t o = (s - whole) * 1000000000 + nano[i];       // nanoseconds after 'whole'
        int64_t t = d[i] - whole * (int64_t)cps;               // ticks after 'whole'
        // |o / 1e9 - t / cps| <= 2e-9, in two parts to stay within 64 bits
        __int128 diff = (__int128)o * cps - (__int128)t * 1000000000;
        sym_check(diff <= (__int128)2 * cps && diff >= -(__int128)2 * cps, "the printed time is not the calibration point plus the elapsed time");
    }
    if (k > 1) sym_check(sec[0] < sec[1] || (sec[0] == sec[1] && nano[0] <= nano[1]), "an earlier message is shown as later");
    sym_reach("time");
}
