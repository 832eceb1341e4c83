// Common header for harnesses that drive the NanoLog runtime.
#pragma once
#include <cassert>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <wchar.h>
#include <aio.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <condition_variable>
#include <fstream>
#include <iostream>
#include <limits>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
#include "sym.h"
#include "sink.h"
#define private public
#include "Cycles.h"
#undef private
#include "Log.h"
#include "GeneratedCode.h"
#if defined(NL_RUNTIME) || defined(NL_PREPROC)
#include "RuntimeLogger.h"
#endif
#ifdef NL_RUNTIME
#include "NanoLogCpp17.h"
#endif
using namespace NanoLogInternal;
#ifdef NL_GENERATED_STUBS
// Preprocessor tables: empty in C++17 mode.
namespace GeneratedFunctions {
size_t numLogIds = 0;
struct LogMetadata logId2Metadata[1];
ssize_t (*compressFnArray[1])(NanoLogInternal::Log::UncompressedEntry*, char*);
void (*decompressAndPrintFnArray[1])(const char**, FILE*, void (*)(const char*, ...));
long int writeDictionary(char*, char*) { return 0; }
}
#endif
#define IDTEXT(id) (id)
static inline bool sink_eq_range(FILE* a, size_t ao, size_t an, FILE* b, size_t bo, size_t bn) {
    if (an != bn) return false;
    return __builtin_memcmp(sink_data(a) + ao, sink_data(b) + bo, an) == 0;
}
// Text of the n-th printed message line: everything between the "]: " that ends its prefix and
// the line end. Message prefixes carry the unique file name TAG so they can be located.
struct Line { long tag, body, end; };
static inline Line sink_line(FILE* f, size_t from, const char* tag) {
    Line l; l.tag = sink_find(f, from, tag); l.body = l.end = -1;
    if (l.tag < 0) return l;
    long b = sink_find(f, (size_t)l.tag, "]: ");
    if (b < 0) return l;
    l.body = b + (long)sink_textlen("]: ");
    return l;
}
