// Native replay runtime: feeds the recorded inputs to the same harness.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <exception>

namespace {
struct In { std::string name; std::vector<unsigned char> b; };
std::vector<In> ins; size_t inPos; std::vector<long long> params; std::string entry;
struct Ob { std::string name; uint64_t v; }; std::vector<Ob> obs; size_t obPos; int obsBad;
int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
}
#include <deque>
std::deque<std::pair<uint64_t, int>> native_sched __attribute__((init_priority(101))); struct NativeAcc { int r, t, w; }; std::vector<NativeAcc> native_acc __attribute__((init_priority(101)));
extern "C" {
void native_result(int code, const char* what) { printf("REPLAY-RESULT %d %s\n", code, what); fflush(stdout); _exit(code); }
void sym_bytes(void* p, size_t n, const char* name) {
    if (inPos >= ins.size() || ins[inPos].name != name || ins[inPos].b.size() != n) {
        if (inPos < ins.size()) fprintf(stderr, "replay mismatch: want %s/%zu have %s/%zu\n", name, n, ins[inPos].name.c_str(), ins[inPos].b.size());
        if (inPos >= ins.size()) { memset(p, 0, n); return; }
        native_result(66, "input mismatch");
    }
    memcpy(p, ins[inPos].b.data(), n); inPos++;
}
void sym_int(void* p, size_t n, const char* name) { sym_bytes(p, n, name); }
int sym_choose(int n, const char* name) { int v = 0; sym_bytes(&v, 4, name); return v; }
int64_t sym_param(int i) { return i < (int)params.size() ? params[i] : 0; }
int sym_symbolic(void) { return 0; }
void sym_assume(int c) { if (!c) native_result(65, "assumption violated"); }
void sym_check(int c, const char* msg) { if (!c) native_result(77, msg); }
void sym_fail(const char* msg) { native_result(77, msg); abort(); }
void sym_reach(const char*) {}
void sym_stop(void) { native_result(obsBad ? 67 : 0, "stop"); abort(); }
void sym_incomplete(const char* why) { native_result(68, why); abort(); }
void sym_note(const char*) {}
void sym_debug(const char* m, uint64_t v) { if (getenv("SYM_DEBUG")) fprintf(stderr, "%s = %lu\n", m, (unsigned long)v); }
void sym_obs(const char* name, uint64_t v) {
    if (obPos < obs.size()) { if (obs[obPos].name != name || obs[obPos].v != v) { fprintf(stderr, "observation %s: engine %s=%016lx native %016lx\n", name, obs[obPos].name.c_str(), (unsigned long)obs[obPos].v, (unsigned long)v); obsBad = 1; } }
    obPos++;
}
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_concrete(uint64_t) { return 1; }
void sym_exit_ok(int) {}
uint64_t sym_bytes_left(const void*) { return 1ULL << 40; }
int sym_is_heap(const void*) { return 1; }
uint64_t sym_tsc(void) { static uint64_t t; return ++t * 1000; }
void onsig(int sg) { char b[32]; snprintf(b, 32, "signal %d", sg); native_result(78, b); }
}
static void onterm() { native_result(79, "uncaught exception"); }
#include <locale.h>
int main(int argc, char** argv) {
    setlocale(LC_CTYPE, "C.UTF-8");
    std::ifstream f(argv[1]); std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string k; is >> k;
        if (k == "in") { In x; std::string h; size_t sp = line.rfind(' '); x.name = line.substr(3, sp - 3); h = line.substr(sp + 1); if (h != "-") for (size_t i = 0; i + 1 < h.size(); i += 2) x.b.push_back(hexv(h[i]) * 16 + hexv(h[i + 1])); ins.push_back(x); }
        else if (k == "param") { long long v; is >> v; params.push_back(v); }
        else if (k == "sched") { uint64_t a; int t; is >> a >> t; native_sched.push_back({a, t}); }
        else if (k == "acc") { NativeAcc a; is >> a.r >> a.t >> a.w; native_acc.push_back(a); }
        else if (k == "entry") is >> entry;
        else if (k == "obs") { Ob o; std::string h; size_t sp = line.rfind(' '); o.name = line.substr(4, sp - 4); h = line.substr(sp + 1); o.v = strtoull(h.c_str(), 0, 16); obs.push_back(o); }
    }
    if (!getenv("SYM_NOSIG")) { for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, onsig); }
    std::set_terminate(onterm);
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
    if (!fn) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 64; }
    alarm(60);
    fn();
    native_result(obsBad ? 67 : 0, "completed");
}
