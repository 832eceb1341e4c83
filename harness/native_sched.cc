// Native replay of a recorded schedule: real threads, exactly one of which runs at a time.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <vector>
extern "C" void native_result(int code, const char* what);
extern "C" int __asan_address_is_poisoned(void const volatile*);
extern std::deque<std::pair<uint64_t, int>> native_sched;      // filled by sym_native
struct NativeAcc { int r, t, w; }; extern std::vector<NativeAcc> native_acc;     // accesses of the other threads
enum St { Run, Blocked, Timed, Done };
struct NT { St st = Run; uint64_t key = 0; int woken = 0; sem_t sem; void (*fn)(void*) = nullptr; void* arg = nullptr; };
#define EARLY __attribute__((init_priority(101)))
static std::vector<NT*> th EARLY; static int cur = 0; static bool on = false; static uint64_t pts = 0, alone = 0; static pthread_key_t endKey;
static thread_local int self = 0;
static std::vector<std::pair<uintptr_t, uintptr_t>> shared EARLY;
static void init() { if (th.empty()) { th.push_back(new NT); sem_init(&th[0]->sem, 0, 0); } }
static bool next(uint64_t k, int& t) { if (!native_sched.empty() && native_sched.front().first == k) { t = native_sched.front().second; native_sched.pop_front(); return true; } return false; }
static void start(int t) { NT* n = th[t]; if (n->st == Timed) { n->st = Run; } cur = t; alone = 0; sem_post(&n->sem); }
static void go(int t) { int me = self; alone = 0; if (t == me) { if (th[me]->st == Timed) th[me]->st = Run; return; } start(t); while (sem_wait(&th[me]->sem)) {} }
static int pick() { if (getenv("SYM_TRACE")) fprintf(stderr, "T%d pick %lu\n", self, (unsigned long)pts + 1);
    int t; pts++;
    if (next(pts, t)) return t;
    bool any = false; for (NT* n : th) any |= n->st == Run || n->st == Timed;
    if (!any) native_result(77, "all threads blocked");
    native_result(66, "no schedule left"); return 0;
}
static void ended(void*) {
    NT* n = th[self]; n->st = Done;
    for (NT* u : th) if (u->st == Blocked && u->key == 0xF000000000000000ULL + self) u->st = Run;
    start(pick());
}
static void* body(void* a) { self = (int)(long)a; while (sem_wait(&th[self]->sem)) {} pthread_setspecific(endKey, (void*)1); th[self]->fn(th[self]->arg); return nullptr; }
static int tr = getenv("SYM_TRACE") != 0;
static void point() { if (tr) fprintf(stderr, "T%d point %lu\n", self, (unsigned long)pts + 1); if (!on) return; int t; pts++; if (next(pts, t)) go(t); }
extern "C" {
int sym_thread_create(void (*fn)(void*), void* arg) {
    init(); static bool once = (pthread_key_create(&endKey, ended), true); (void)once;
    NT* n = new NT; n->fn = fn; n->arg = arg; sem_init(&n->sem, 0, 0); int id = (int)th.size(); th.push_back(n);
    pthread_t p; if (pthread_create(&p, nullptr, body, (void*)(long)id)) native_result(66, "pthread_create"); pthread_detach(p);
    return id;
}
void sym_threads_on(int v) { init(); on = v; }
int sym_self(void) { return self; }
int sym_thread_done(int t) { return t < (int)th.size() && th[t]->st == Done; }
void sym_shared(const void* p, size_t n) { shared.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
void sym_yield(void) { point(); }
void sym_access(const void* p, size_t n, int w) {
    if (__asan_address_is_poisoned(p) || (n && __asan_address_is_poisoned((const char*)p + n - 1))) native_result(78, "access to freed or foreign memory");
    if (!on) return;
    bool need = false, in = false;
    for (size_t i = 0; i < shared.size(); i++) if ((uintptr_t)p < shared[i].second && (uintptr_t)p + n > shared[i].first) {
        in = true;
        for (auto& a : native_acc) if (a.r == (int)i && a.t != self && (w || a.w)) need = true; }
    if (need) point(); else if (in && ++alone >= 400) { alone = 0; point(); }
}
void sym_pass(void) { if (!on) return; init(); go(pick()); }
void sym_block(uint64_t key) { init(); NT* n = th[self]; n->st = Blocked; n->key = key; go(pick()); }
int sym_block_timed(uint64_t key) { init(); NT* n = th[self]; n->st = Timed; n->key = key; n->woken = 0; go(pick()); return n->woken; }
int sym_wake(uint64_t key, int cnt) {
    init(); std::vector<int> c; for (size_t i = 0; i < th.size(); i++) if ((th[i]->st == Blocked || th[i]->st == Timed) && th[i]->key == key) c.push_back((int)i);
    auto wake = [](int i) { NT* n = th[i]; if (n->st == Timed) n->woken = 1; n->st = Run; };
    if (cnt == 0 || (int)c.size() <= cnt) for (int i : c) wake(i);
    else { int t; if (!next(1000000 + pts, t)) native_result(66, "no wake choice"); wake(t); }
    return (int)c.size();
}
}
