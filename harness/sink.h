// "Printed text" as the harness sees it. Symbolic runs capture printf calls as canonical atoms
// (literal characters, and conversions with their normalised flags, width, precision and value);
// native replays capture the real text. Two sinks are equal iff the text is (native) or if the
// atoms are (symbolic, sufficient for equal text).
#pragma once
#include "sym.h"
#include <cstdio>
struct Sink;
extern "C" {
FILE* sink_open(void);                       // new capture stream
size_t sink_size(FILE*);                     // atoms (bytes) captured so far
const unsigned char* sink_data(FILE*);
void sink_close(FILE*);
void sink_clear(FILE*);
long sink_find(FILE*, size_t from, const char* text);  // position of literal text, -1 if absent
size_t sink_textlen(const char* text);       // length of literal text in a sink
int sink_time(FILE*, size_t from, int64_t* sec, int64_t* nano);  // the time printed there; 0 if malformed
// in-memory input files for fopen()
void mfile_set(const char* name, const char* data, size_t len);
}
static inline bool sink_equal(FILE* a, FILE* b) {
    size_t n = sink_size(a);
    if (n != sink_size(b)) return false;
    return __builtin_memcmp(sink_data(a), sink_data(b), n) == 0;
}
