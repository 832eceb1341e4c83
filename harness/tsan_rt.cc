// Thread units are compiled with clang's thread-sanitizer instrumentation; every instrumented access becomes a
// switch point here, in the engine and natively alike.
#include "sym.h"
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(N) \
void __tsan_read##N(void* p) { sym_access(p, N, 0); } \
void __tsan_write##N(void* p) { sym_access(p, N, 1); } \
void __tsan_unaligned_read##N(void* p) { sym_access(p, N, 0); } \
void __tsan_unaligned_write##N(void* p) { sym_access(p, N, 1); } \
void __tsan_volatile_read##N(void* p) { sym_access(p, N, 0); } \
void __tsan_volatile_write##N(void* p) { sym_access(p, N, 1); } \
void __tsan_read_write##N(void* p) { sym_access(p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, u64 n) { sym_access(p, n, 0); }
void __tsan_write_range(void* p, u64 n) { sym_access(p, n, 1); }
void* __tsan_memcpy(void* d, const void* s, u64 n) { sym_access(s, n, 0); sym_access(d, n, 1); return __builtin_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, u64 n) { sym_access(s, n, 0); sym_access(d, n, 1); return __builtin_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, u64 n) { sym_access(d, n, 1); return __builtin_memset(d, c, n); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* p, int) { sym_access((void*)p, B / 8, 0); return *p; } \
void __tsan_atomic##B##_store(volatile T* p, T v, int) { sym_access((void*)p, B / 8, 1); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { sym_access((void*)p, B / 8, 1); T o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { sym_access((void*)p, B / 8, 1); T o = *p; *p = (T)(o + v); return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { sym_access((void*)p, B / 8, 1); T o = *p; *p = (T)(o - v); return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { sym_access((void*)p, B / 8, 1); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { sym_access((void*)p, B / 8, 1); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { sym_access((void*)p, B / 8, 1); T o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { sym_access((void*)p, B / 8, 1); T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { sym_access((void*)p, B / 8, 1); T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { sym_access((void*)p, B / 8, 1); T o = *p; if (o == c) *p = v; return o; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
