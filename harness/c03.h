// C03 / C15: a log statement through the real C++17 path (NANO_LOG -> staging buffer -> encoder ->
// file -> decoder), compared with printf on the same arguments.
#pragma once
#define NL_RUNTIME
#include "nl.h"
#ifndef STRCAP
#define STRCAP 3
#endif
#ifndef WSTRCAP
#define WSTRCAP 2
#endif
static const char* TAG = "c03case.cc";
// x87 values that are valid encodings (no pseudo-denormals, unnormals)
static inline bool okld(const long double& v) { uint64_t m; uint16_t e; memcpy(&m, &v, 8); memcpy(&e, (const char*)&v + 8, 2); e &= 0x7fff; return (e == 0) == !(m >> 63); }
void c03_decode_and_compare(FILE* expected, int nmsgs, uint32_t line, const char* level);
