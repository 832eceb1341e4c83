// The background thread object is created but never runs (single-threaded harnesses).
#include "sym.h"
#include <condition_variable>
#include <mutex>
#include <thread>
namespace std {
void thread::_M_start_thread(_State_ptr p, void (*)()) { (void)p; }
#ifdef SYMBOLIC_BUILD
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::notify_one() noexcept {}
void condition_variable::notify_all() noexcept {}
void condition_variable::wait(unique_lock<mutex>&) { sym_incomplete("blocked on a condition variable"); }
thread::_State::~_State() {}
#endif
}
