// A cooperative scheduler that decides which thread takes the next step.
//
// Real code is compiled with its std::atomic / std::thread renamed to the
// instrumented types below (by macros, after the standard headers have been
// included), so every atomic access and thread start/join is a step that the
// schedule controls.  Only one managed thread runs at a time.  A thread that
// blocks outside of the scheduler's control loses its turn after a timeout, so
// code using other primitives still makes progress.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace sched {

using real_thread = std::thread;
template <class T>
using real_atomic = std::atomic<T>;

struct Controller {
  std::mutex mu;
  std::condition_variable cv;
  std::vector<int> schedule;
  size_t pos = 0;
  bool active = false;
  int current = -1;
  long progress = 0;
  int steps = 0;
  std::map<int, bool> runnable;  // id -> may run
  std::map<int, bool> done;
  std::vector<real_thread> threads;
  std::function<void(int, const char*, const char*)> on_step;

  static Controller& get() {
    static Controller* c = new Controller;
    return *c;
  }
  static int& self() {
    thread_local int id = -1;
    return id;
  }

  void pick() {  // mu held
    std::vector<int> ids;
    for (auto& [id, r] : runnable)
      if (r && !done[id]) ids.push_back(id);
    if (ids.empty()) {
      current = -1;
      return;
    }
    int want = pos < schedule.size() ? schedule[pos] : current + 1;
    ++pos;
    int best = ids[0];
    for (int id : ids)
      if (id >= want) {
        best = id;
        break;
      }
    current = best;
    ++progress;
    cv.notify_all();
  }
  void wait_turn(std::unique_lock<std::mutex>& lk, int me) {
    while (current != me) {
      long p = progress;
      if (cv.wait_for(lk, std::chrono::milliseconds(400)) ==
              std::cv_status::timeout &&
          p == progress && current != me) {
        // The current thread is stuck outside of our control: move on.
        current = me;
        ++progress;
        cv.notify_all();
      }
    }
  }
  // A scheduling point of the calling thread.
  void point() {
    int me = self();
    if (!active || me < 0) return;
    std::unique_lock<std::mutex> lk(mu);
    if (current == me) pick();
    wait_turn(lk, me);
  }
  void note(const char* kind, const char* ord) {
    int me = self();
    if (active && me >= 0 && on_step) on_step(me, kind, ord);
  }
  // Registers a new managed thread; it runs when scheduled.
  int spawn(std::function<void()> fn, int id = -1) {
    std::unique_lock<std::mutex> lk(mu);
    if (id < 0) id = runnable.empty() ? 0 : runnable.rbegin()->first + 1;
    runnable[id] = true;
    done[id] = false;
    threads.emplace_back([this, id, fn = std::move(fn)] {
      self() = id;
      {
        std::unique_lock<std::mutex> lk2(mu);
        wait_turn(lk2, id);
      }
      fn();
      std::unique_lock<std::mutex> lk2(mu);
      done[id] = true;
      if (current == id) pick();
      ++progress;
      cv.notify_all();
    });
    return id;
  }
  void join(int id) {
    std::unique_lock<std::mutex> lk(mu);
    int me = self();
    if (me < 0) {
      cv.wait(lk, [&] { return done[id]; });
      return;
    }
    while (!done[id]) {
      runnable[me] = false;
      if (current == me) pick();
      cv.wait_for(lk, std::chrono::milliseconds(400));
      runnable[me] = true;
      if (done[id]) break;
    }
    runnable[me] = true;
    if (current < 0) current = me;
    wait_turn(lk, me);
  }
  // Runs the registered threads to completion.
  void begin(std::vector<int> s) {
    schedule = std::move(s);
    pos = 0;
    current = -1;
    active = true;
    runnable.clear();
    done.clear();
  }
  void go() {
    std::unique_lock<std::mutex> lk(mu);
    pick();
    cv.wait(lk, [&] {
      for (auto& [id, d] : done)
        if (!d) return false;
      return true;
    });
    lk.unlock();
    for (size_t i = 0; i < threads.size(); ++i) threads[i].join();
    threads.clear();
    active = false;
  }
};

// A mutex whose contention the schedule controls.
class mutex {
  mutable bool held_ = false;
  mutable std::vector<int> waiters_;

 public:
  void lock() const {
    auto& c = Controller::get();
    int me = Controller::self();
    c.point();
    std::unique_lock<std::mutex> lk(c.mu);
    for (;;) {
      bool managed = me >= 0 && c.active;
      if (!held_ && (!managed || c.current == me)) break;
      if (held_ && managed) {
        if (c.runnable[me]) {
          c.runnable[me] = false;
          waiters_.push_back(me);
        }
        if (c.current == me) c.pick();
      }
      c.cv.wait_for(lk, std::chrono::milliseconds(20));
      if (!held_ && managed && c.current < 0) c.current = me;
    }
    held_ = true;
  }
  void unlock() const {
    auto& c = Controller::get();
    {
      std::unique_lock<std::mutex> lk(c.mu);
      held_ = false;
      for (int w : waiters_) c.runnable[w] = true;
      waiters_.clear();
      c.cv.notify_all();
    }
    c.point();
  }
};

inline const char* Ord(std::memory_order o) {
  switch (o) {
    case std::memory_order_relaxed: return "relaxed";
    case std::memory_order_consume: return "consume";
    case std::memory_order_acquire: return "acquire";
    case std::memory_order_release: return "release";
    case std::memory_order_acq_rel: return "acq_rel";
    default: return "seq_cst";
  }
}

}  // namespace sched

namespace std {

template <class T>
class sched_atomic {
  sched::real_atomic<T> v_;
  void p() const { sched::Controller::get().point(); }
  void n(const char* k, memory_order o) const {
    sched::Controller::get().note(k, sched::Ord(o));
  }

 public:
  using value_type = T;
  constexpr sched_atomic() noexcept : v_() {}
  constexpr sched_atomic(T v) noexcept : v_(v) {}
  sched_atomic(const sched_atomic&) = delete;
  sched_atomic& operator=(const sched_atomic&) = delete;
  T load(memory_order o = memory_order_seq_cst) const noexcept {
    p();
    T r = v_.load();
    n("load", o);
    return r;
  }
  operator T() const noexcept { return load(); }
  void store(T x, memory_order o = memory_order_seq_cst) noexcept {
    p();
    v_.store(x);
    n("store", o);
  }
  T operator=(T x) noexcept {
    store(x);
    return x;
  }
  T exchange(T x, memory_order o = memory_order_seq_cst) noexcept {
    p();
    T r = v_.exchange(x);
    n("rmw", o);
    return r;
  }
#define VERIF_RMW(name)                                                  \
  template <class U>                                                     \
  T name(U x, memory_order o = memory_order_seq_cst) noexcept {          \
    p();                                                                 \
    T r = v_.name(x);                                                    \
    n("rmw", o);                                                         \
    return r;                                                            \
  }
  VERIF_RMW(fetch_add)
  VERIF_RMW(fetch_sub)
  VERIF_RMW(fetch_and)
  VERIF_RMW(fetch_or)
  VERIF_RMW(fetch_xor)
#undef VERIF_RMW
  T operator++() noexcept { return fetch_add(1) + 1; }
  T operator++(int) noexcept { return fetch_add(1); }
  T operator--() noexcept { return fetch_sub(1) - 1; }
  T operator--(int) noexcept { return fetch_sub(1); }
  T operator+=(T x) noexcept { return fetch_add(x) + x; }
  T operator-=(T x) noexcept { return fetch_sub(x) - x; }
  bool compare_exchange_strong(T& e, T d, memory_order s,
                               memory_order f) noexcept {
    p();
    bool r = v_.compare_exchange_strong(e, d);
    n(r ? "rmw" : "load", r ? s : f);
    return r;
  }
  bool compare_exchange_strong(
      T& e, T d, memory_order o = memory_order_seq_cst) noexcept {
    return compare_exchange_strong(e, d, o, FailOrd(o));
  }
  bool compare_exchange_weak(T& e, T d, memory_order s,
                             memory_order f) noexcept {
    return compare_exchange_strong(e, d, s, f);
  }
  bool compare_exchange_weak(T& e, T d,
                             memory_order o = memory_order_seq_cst) noexcept {
    return compare_exchange_strong(e, d, o, FailOrd(o));
  }
  bool is_lock_free() const noexcept { return true; }
  static constexpr bool is_always_lock_free = true;

 private:
  static memory_order FailOrd(memory_order o) {
    return o == memory_order_acq_rel   ? memory_order_acquire
           : o == memory_order_release ? memory_order_relaxed
                                       : o;
  }
};
class sched_atomic_flag {
  atomic_flag f_;
  static void p() { sched::Controller::get().point(); }

 public:
  constexpr sched_atomic_flag(int = 0) noexcept : f_() {}
  sched_atomic_flag(const sched_atomic_flag&) = delete;
  sched_atomic_flag& operator=(const sched_atomic_flag&) = delete;
  bool test(memory_order = memory_order_seq_cst) const noexcept { p(); return f_.test(); }
  bool test_and_set(memory_order = memory_order_seq_cst) noexcept { p(); return f_.test_and_set(); }
  void clear(memory_order = memory_order_seq_cst) noexcept { p(); f_.clear(); }
};

inline void sched_atomic_thread_fence(memory_order o) noexcept {
  sched::Controller::get().point();
  sched::Controller::get().note("fence", sched::Ord(o));
}

class sched_thread {
  int id_ = -1;
  bool detached_ = false;

 public:
  sched_thread() noexcept = default;
  template <class F, class... A,
            class = enable_if_t<!is_same_v<decay_t<F>, sched_thread>>>
  explicit sched_thread(F&& f, A&&... a) {
    auto fn = make_shared<function<void()>>(
        bind(forward<F>(f), forward<A>(a)...));
    sched::Controller::get().point();
    id_ = sched::Controller::get().spawn([fn] { (*fn)(); });
  }
  sched_thread(sched_thread&& o) noexcept : id_(o.id_) { o.id_ = -1; }
  sched_thread& operator=(sched_thread&& o) noexcept {
    if (id_ >= 0) terminate();
    id_ = o.id_;
    o.id_ = -1;
    return *this;
  }
  ~sched_thread() {
    if (id_ >= 0) terminate();
  }
  bool joinable() const noexcept { return id_ >= 0; }
  void join() {
    if (id_ < 0) terminate();
    sched::Controller::get().join(id_);
    id_ = -1;
  }
  void detach() { id_ = -1; }
  static unsigned hardware_concurrency() noexcept {
    return thread::hardware_concurrency();
  }
};

}  // namespace std
#endif
