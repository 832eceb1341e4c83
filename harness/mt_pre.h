// Included first in every file of a unit that runs the real background thread: the calls that mt_model.cc stands in for.
#pragma once
#define pthread_mutex_lock mt_mutex_lock
#define pthread_mutex_unlock mt_mutex_unlock
#define pthread_cond_clockwait mt_cond_clockwait
#define pthread_cond_destroy mt_cond_destroy
#define aio_write mt_aio_write
#define aio_error mt_aio_error
#define aio_return mt_aio_return
#define aio_suspend mt_aio_suspend
#include <cassert>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <wchar.h>
#include <aio.h>
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <condition_variable>
#include <fstream>
#include <iostream>
#include <limits>
#include <mutex>
#include <sstream>
#include <string>
#define private public
#include <thread>
#undef private
#include <type_traits>
#include <utility>
#include <vector>
extern "C" int mt_open(const char*, int, ...);
extern "C" int mt_close(int);
extern "C" int mt_access(const char*, int);
extern "C" int mt_getcpu(void);
#define open mt_open
#define close mt_close
#define access mt_access
#define sched_getcpu mt_getcpu
