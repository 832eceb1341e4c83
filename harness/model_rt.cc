// Environment of RuntimeLogger for single-threaded harnesses, symbolic runs: the background thread
// is never started and the default log file is not created.
#include "sym.h"
#include <cstdlib>
#include <cstring>
extern "C" {
int open(const char*, int, ...) { return 3; }
int open64(const char*, int, ...) { return 3; }
int close(int) { return 0; }
int access(const char*, int) { return 0; }
int posix_memalign(void** p, size_t al, size_t n) { *p = aligned_alloc(al, n); return 0; }
int sched_getcpu(void) { return 0; }
struct tv { long s, us; };
int gettimeofday(struct tv* t, void*) { static long n; n += 20000; t->s = 1500000000 + n / 1000000; t->us = n % 1000000; return 0; }
int pthread_mutex_lock(void*) { return 0; }
int pthread_mutex_unlock(void*) { return 0; }
}
