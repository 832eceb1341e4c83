// C07: log statements processed by the real preprocessor (parser.py + FunctionGenerator.py): the generated
// record function -> staging buffer -> generated compression -> file -> both decoders, compared with printf.
#pragma once
#define NL_PREPROC
#include "nl.h"
#include "NanoLog.h"
#ifndef STRCAP
#define STRCAP 3
#endif
#ifndef WSTRCAP
#define WSTRCAP 2
#endif
static inline bool okld(const long double& v) { uint64_t m; uint16_t e; memcpy(&m, &v, 8); memcpy(&e, (const char*)&v + 8, 2); e &= 0x7fff; return (e == 0) == !(m >> 63); }
struct Expect { FILE* text; uint32_t line; const char* level; const char* file = nullptr; };
// the recorded messages are compressed, written to a log and decoded: with the dictionary in the log, and (if agg is a log id) by the generated code
void c07_decode_and_compare(const char* file, Expect* e, int n);
