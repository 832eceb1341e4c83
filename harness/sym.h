// Harness API. Symbolic runs: implemented by the engine. Native replays: sym_native.cc.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
void sym_bytes(void* p, size_t n, const char* name);    // make n bytes arbitrary
void sym_int(void* p, size_t n, const char* name);      // the same, kept as one variable (position arithmetic)
int64_t sym_param(int i);
int sym_symbolic(void);
void sym_assume(int c);
void sym_check(int c, const char* msg);                 // the property
void sym_fail(const char* msg) __attribute__((noreturn));
void sym_reach(const char* label);                      // reachability witness
void sym_stop(void) __attribute__((noreturn));
void sym_incomplete(const char* why) __attribute__((noreturn));
void sym_note(const char* m);
void sym_debug(const char* m, uint64_t v);
void sym_obs(const char* name, uint64_t v);             // compared between engine and native run
uint64_t sym_concretize(uint64_t v);
int sym_is_concrete(uint64_t v);
int sym_choose(int n, const char* name);
void sym_exit_ok(int);
uint64_t sym_bytes_left(const void* p);
int sym_is_heap(const void* p);
int sym_thread_create(void (*fn)(void*), void* arg);
void sym_threads_on(int);
int sym_self(void);
int sym_thread_done(int);
void sym_shared(const void* p, size_t n);
void sym_yield(void);
void sym_pass(void);                     // let another thread run
void sym_access(const void* p, size_t n, int write);   // a switch point if p is shared
void sym_block(uint64_t key);
int sym_block_timed(uint64_t key);
int sym_wake(uint64_t key, int n);
uint64_t sym_tsc(void);
}
template <typename T> static inline T sym(const char* name) { T v; sym_bytes(&v, sizeof(T), name); return v; }
template <typename T> static inline T symi(const char* name) { T v; sym_int(&v, sizeof(T), name); return v; }
#define SYM_ATOMIC __attribute__((annotate("sym_atomic")))
