// The real implementation file, with its atomics and threads under the
// scheduler's control.
#include "common/sched.h"
#include <algorithm>
#include <condition_variable>
#include <cstddef>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <utility>
#include <vector>
#define atomic sched_atomic
#define thread sched_thread
#include "arolla/util/threading.cc"
