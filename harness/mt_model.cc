// Threads, mutexes, condition variables and asynchronous file writes for harnesses that run the real background
// thread. The same file serves the engine and the native replay; only blocking and scheduling go through sym.h.
#include "mt_pre.h"
#include "sym.h"
#include "mt.h"
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <errno.h>
#include <mutex>
#include <thread>
#include <time.h>
int mt_spurious, mt_aioDelays;
MtFile mt_files[4]; int mt_nfiles; int mt_busy; bool mt_ready;
namespace {
struct Mx { void* m; int held; };
Mx mx[16]; int nmx;
Mx& find(void* m) { for (int i = 0; i < nmx; i++) if (mx[i].m == m) return mx[i]; mx[nmx].m = m; return mx[nmx++]; }
int waiters, idle;
void lockM(void* m) { Mx& x = find(m); while (x.held) sym_block((uint64_t)m); x.held = 1; }
void unlockM(void* m) { Mx& x = find(m); sym_check(x.held, "a mutex that is not held is unlocked"); x.held = 0; sym_wake((uint64_t)m, 0); }
struct Op { struct aiocb* cb; char* copy; int delays; int st; } op;   // st: 0 none, 1 in progress, 2 done
void complete() {
    MtFile& f = mt_files[op.cb->aio_fildes - 3]; size_t n = op.cb->aio_nbytes; const char* b = (const char*)op.cb->aio_buf;
    sym_check(memcmp(b, op.copy, n) == 0, "the output buffer is changed while it is being written");
    sym_check(f.len + n <= sizeof f.data, "harness: log larger than expected");
    memcpy(f.data + f.len, b, n); f.len += n; op.st = 2; idle = 0;
}
void run(void* p) { std::thread::_State* s = (std::thread::_State*)p; s->_M_run(); delete s; }
}
extern "C" {
int mt_mutex_lock(pthread_mutex_t* m) { if (!mt_ready) return 0; sym_yield(); if (sym_self() != 1) idle = 0; lockM(m); return 0; }
int mt_mutex_unlock(pthread_mutex_t* m) { if (!mt_ready) return 0; unlockM(m); return 0; }
int mt_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) {
    unlockM(m);
    if (waiters) sym_check(++idle < 8, "a call blocks for ever although the background thread runs"); else idle = 0;
    int w = sym_block_timed((uint64_t)c);
    lockM(m); return w ? 0 : ETIMEDOUT;
}
int mt_cond_destroy(pthread_cond_t*) { return 0; }
int mt_aio_write(struct aiocb* cb) {
    sym_check(op.st != 1, "a write is started while another one is in progress");
    sym_check(op.st == 0, "the result of a write is never collected");
    sym_check(cb->aio_fildes >= 3 && cb->aio_fildes < 3 + mt_nfiles && mt_files[cb->aio_fildes - 3].isOpen, "the log is written to a file that is not open");
    op.cb = cb; op.copy = (char*)malloc(cb->aio_nbytes); memcpy(op.copy, (const char*)cb->aio_buf, cb->aio_nbytes); op.delays = 0; op.st = 1; idle = 0;
    return 0;
}
int mt_aio_error(const struct aiocb* cb) {
    if (op.st == 1) { if (mt_aioDelays > 0 && sym_choose(2, "write still in progress")) { mt_aioDelays--; return EINPROGRESS; } complete(); }
    return 0;
}
ssize_t mt_aio_return(struct aiocb* cb) { sym_check(op.st == 2, "the result of a write is collected before it is done"); op.st = 0; free(op.copy); return cb->aio_nbytes; }
int mt_aio_suspend(const struct aiocb* const*, int, const struct timespec*) { if (op.st == 1) complete(); return 0; }
int mt_open(const char*, int, ...) { int n = mt_nfiles++; mt_files[n].isOpen = true; return 3 + n; }
int mt_close(int fd) { sym_check(!(op.st == 1 && op.cb->aio_fildes == fd), "the log file is closed during a write"); mt_files[fd - 3].isOpen = false; return 0; }
int mt_access(const char*, int) { return 0; }
int mt_getcpu(void) { return 0; }
}
namespace std {
void thread::_M_start_thread(_State_ptr p, void (*)()) { _M_id = id(sym_thread_create(run, p.release())); }
void thread::join() { int t = (int)_M_id._M_thread; while (!sym_thread_done(t)) sym_block(0xF000000000000000ULL + t); _M_id = id(); }
thread::_State::~_State() {}
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::notify_one() noexcept { sym_wake((uint64_t)this, 1); }
void condition_variable::notify_all() noexcept { sym_wake((uint64_t)this, 0); }
void condition_variable::wait(unique_lock<mutex>& l) {
    void* m = l.mutex()->native_handle();
    unlockM(m); waiters++;
    if (mt_spurious > 0) { if (!sym_block_timed((uint64_t)this)) mt_spurious--; } else sym_block((uint64_t)this);
    waiters--; lockM(m);
}
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1000)); }
} }
}
