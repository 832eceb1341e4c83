#define NL_GENERATED_STUBS
#include "c03.h"
static char outbuf[8192];
void c03_decode_and_compare(FILE* expected, int nmsgs, uint32_t line, const char* level) {
    RuntimeLogger& rl = RuntimeLogger::nanoLogSingleton;
    memset(outbuf, 0xA5, sizeof outbuf);
    Log::Encoder enc(outbuf, sizeof outbuf);
    uint32_t pos = 0;
    enc.encodeNewDictionaryEntries(pos, rl.invocationSites);
    sym_check(pos == rl.invocationSites.size(), "dictionary entry did not fit");
    uint64_t avail = 0, cnt = 0;
    char* p = RuntimeLogger::stagingBuffer->peek(&avail);
    sym_check(nmsgs == 0 || avail > 0, "nothing was recorded");
    long rd = avail ? enc.encodeLogMsgs(p, avail, RuntimeLogger::stagingBuffer->getId(), false, rl.invocationSites, &cnt) : 0;
    sym_check((uint64_t)rd == avail, "not everything recorded was compressed");
    sym_check(cnt == (uint64_t)nmsgs, "number of compressed messages differs");
    RuntimeLogger::stagingBuffer->consume(rd);
    size_t n = enc.getEncodedBytes();
    char* img = (char*)malloc(n); memcpy(img, outbuf, n);
    mfile_set("c03log", img, n);
    Log::Decoder* d = new Log::Decoder();
    sym_check(d->open("c03log"), "the log cannot be opened");
    FILE* out = sink_open();
    int64_t r = d->decompressUnordered(out);
    sym_check(r == nmsgs, "number of decoded messages differs");
    if (nmsgs == 0) { sym_check(sink_find(out, 0, TAG) < 0, "a message appeared that was not logged"); sym_reach("none"); return; }
    FILE* pre = sink_open();
    fprintf(pre, "%s:%u %s[%u]: ", TAG, line, level, RuntimeLogger::stagingBuffer->getId());
    long t = sink_find(out, 0, TAG);
    sym_check(t >= 0, "the decoded message does not name its source file");
    sym_check(sink_eq_range(out, t, sink_size(pre), pre, 0, sink_size(pre)), "file, line, level or thread of the decoded message differs");
    fprintf(expected, "\r\n\r\n\r\n# Decompression Complete after printing %lu log messages\r\n", (unsigned long)nmsgs);
    size_t b = t + sink_size(pre);
    sym_check(sink_eq_range(out, b, sink_size(out) - b, expected, 0, sink_size(expected)), "decoded text differs from printf of the same arguments");
    sym_obs("raw", avail);
    sym_reach("decoded");
}
