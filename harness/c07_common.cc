#include "c07.h"
static char outbuf[OUTCAP];
static FILE* aggsink;
static void aggregate(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfprintf(aggsink, fmt, ap); va_end(ap); }
static void compare(FILE* out, const char* dflt, Expect* e, int n) {
    size_t b = 0;
    for (int i = 0; i < n; i++) {
        const char* file = e[i].file ? e[i].file : dflt;
        FILE* pre = sink_open();
        fprintf(pre, "%s:%u %s[%u]: ", file, e[i].line, e[i].level, RuntimeLogger::stagingBuffer->getId());
        long t = sink_find(out, b, file);
        sym_check(t >= 0, "a decoded message does not name its source file");
        sym_check(sink_size(out) >= t + sink_size(pre) && sink_eq_range(out, t, sink_size(pre), pre, 0, sink_size(pre)), "file, line, level or thread of a decoded message differs");
        b = t + sink_size(pre);
        size_t l = sink_size(e[i].text);
        FILE* end = sink_open(); fprintf(end, "\r\n");
        sym_check(sink_size(out) >= b + l + sink_size(end) && sink_eq_range(out, b, l, e[i].text, 0, l) && sink_eq_range(out, b + l, sink_size(end), end, 0, sink_size(end)), "decoded text differs from printf of the same arguments");
        b += l + sink_size(end);
    }
    FILE* end = sink_open();
    fprintf(end, "\r\n\r\n# Decompression Complete after printing %lu log messages\r\n", (unsigned long)n);
    sym_check(sink_eq_range(out, b, sink_size(out) - b, end, 0, sink_size(end)), "text beyond the logged messages");
}
void c07_decode_and_compare(const char* file, Expect* e, int n) {
    memset(outbuf, 0xA5, sizeof outbuf);
    Log::Encoder enc(outbuf, sizeof outbuf);
    uint64_t avail = 0, cnt = 0;
    int ids[5] = {-1, -1, -1, -1, -1};
    if (RuntimeLogger::stagingBuffer == nullptr) { sym_check(n == 0, "nothing was recorded"); sym_reach("none"); return; }
    char* p = RuntimeLogger::stagingBuffer->peek(&avail);
    sym_check((n == 0) == (avail == 0), "a message above the log level was recorded, or one below it was not");
    char* q = p;
    for (int i = 0; i < n; i++) {
        auto* u = (Log::UncompressedEntry*)q;
        sym_check(u->entrySize >= sizeof(Log::UncompressedEntry) && u->entrySize <= avail - (q - p), "the size of a recorded entry is wrong");
        if (i < 5) ids[i] = u->fmtId;
        q += u->entrySize;
    }
    sym_check((uint64_t)(q - p) == avail, "the recorded entries do not fill the space that was reserved");
    // the entries are compressed from a copy of exactly their size into a buffer of exactly the space that is checked for
    char* copy = (char*)malloc(avail + 1); memcpy(copy, p, avail);
    long rd = avail ? enc.encodeLogMsgs(copy, avail, RuntimeLogger::stagingBuffer->getId(), false, &cnt) : 0;
    memset(copy, 'Z', avail); free(copy);
    sym_check((uint64_t)rd == avail, "not everything recorded was compressed");
    sym_check(cnt == (uint64_t)n, "number of compressed messages differs");
    RuntimeLogger::stagingBuffer->consume(rd);
    size_t len = enc.getEncodedBytes();
    char* img = (char*)malloc(len); memcpy(img, outbuf, len);
    mfile_set("c07log", img, len);
    Log::Decoder* d = new Log::Decoder();
    sym_check(d->open("c07log"), "the log cannot be opened");
    FILE* out = sink_open();
    int64_t r = d->decompressUnordered(out);
    sym_check(r == n, "number of decoded messages differs");
    if (n) compare(out, file, e, n);
    for (int i = 0; i < n && i < 5; i++) {
        // generated decompression code, the aggregation function sees the statement's own arguments
        bool first = true;
        for (int k = 0; k < i; k++) if (ids[k] == ids[i]) first = false;
        if (!first) continue;
        aggsink = sink_open();
        FILE* want = sink_open(); size_t at = 0;
        Log::Decoder* g = new Log::Decoder();
        sym_check(g->open("c07log"), "the log cannot be opened");
        out = sink_open();
        sym_check(g->internalDecompressUnordered(out, ids[i], aggregate), "generated code cannot decode the log");
        sym_check(g->logMsgsPrinted == (uint64_t)n, "number of messages decoded by generated code differs");
        compare(out, file, e, n);
        for (int k = i; k < n; k++) if (ids[k] == ids[i]) {
            size_t l = sink_size(e[k].text);
            sym_check(sink_size(aggsink) >= at + l && sink_eq_range(aggsink, at, l, e[k].text, 0, l), "the aggregation function did not get the arguments of the log statement");
            at += l;
        }
        sym_check(at == sink_size(aggsink), "the aggregation function was called for other messages");
    }
    sym_obs("raw", avail);
    sym_reach("decoded");
}
