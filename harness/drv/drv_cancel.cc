#include <algorithm>
#include <atomic>
#include <barrier>
#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "absl/status/status.h"
#include "absl/base/nullability.h"
#include "absl/base/thread_annotations.h"
#include "absl/functional/any_invocable.h"
#include "absl/synchronization/mutex.h"
#include "common/driver.h"
#ifdef VERIF_SCHED
// The real implementation with its flag and mutex under the scheduler.
#include "common/sched.h"
namespace absl {
class sched_Mutex {
  sched::mutex m_;

 public:
  void Lock() { m_.lock(); }
  void Unlock() { m_.unlock(); }
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }
  void ReaderLock() { m_.lock(); }
  void ReaderUnlock() { m_.unlock(); }
};
class sched_MutexLock {
  sched_Mutex& m_;

 public:
  explicit sched_MutexLock(sched_Mutex& m) : m_(m) { m_.Lock(); }
  explicit sched_MutexLock(sched_Mutex* m) : m_(*m) { m_.Lock(); }
  ~sched_MutexLock() { m_.Unlock(); }
};
using sched_ReaderMutexLock = sched_MutexLock;
using sched_WriterMutexLock = sched_MutexLock;
}  // namespace absl
#define atomic_flag sched_atomic_flag
#define Mutex sched_Mutex
#define MutexLock sched_MutexLock
#define ReaderMutexLock sched_ReaderMutexLock
#define WriterMutexLock sched_WriterMutexLock
#include "arolla/util/cancellation.cc"
#endif
#include "arolla/util/cancellation.h"

using arolla::CancellationContext;
using arolla::CancellationContextPtr;
using Guard = CancellationContext::ScopeGuard;
using Subscription = CancellationContext::Subscription;

namespace {
int Reason(const absl::Status& s) {
  if (s.ok()) return 0;
  std::string m(s.message());
  if (s.code() == absl::StatusCode::kCancelled && m == "cancelled") return 99;
  int v = m.size() > 1 ? std::atoi(m.c_str() + 1) : -1;
  return s == absl::Status(absl::StatusCode(1 + v % 15), "r" + std::to_string(v)) ? v : -1;
}
void DoCancel(CancellationContext& c, int r) {
  if (r == 99) c.Cancel();
  else c.Cancel(absl::Status(absl::StatusCode(1 + r % 15), "r" + std::to_string(r)));
}

// A thread that runs one task at a time.
struct Worker {
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> task;
  bool stop = false;
  std::vector<std::unique_ptr<Guard>> guards;
  std::thread th{[this] {
    for (;;) {
      std::unique_lock<std::mutex> lk(m);
      cv.wait(lk, [&] { return task || stop; });
      if (stop) return;
      auto t = task;
      lk.unlock();
      t();
      lk.lock();
      task = nullptr;
      cv.notify_all();
    }
  }};
  void Do(std::function<void()> f) {
    std::unique_lock<std::mutex> lk(m);
    task = std::move(f);
    cv.notify_all();
    cv.wait(lk, [&] { return !task; });
  }
  ~Worker() {
    { std::unique_lock<std::mutex> lk(m); stop = true; cv.notify_all(); }
    th.join();
  }
};

std::map<int, CancellationContextPtr> own;
std::map<const CancellationContext*, int> ids;
std::vector<CancellationContext*> raw(1, nullptr);
Subscription hnd[5];
std::vector<int> called;
std::multiset<int> alive;
json seen;
Worker* w[4];

struct Token {
  int id;
  explicit Token(int id) : id(id) { alive.insert(id); }
  ~Token() { alive.erase(alive.find(id)); }
};

absl::AnyInvocable<void() &&> Callback(int id, int c, std::string act, int arg) {
  return [tok = std::make_unique<Token>(id), c, act, arg]() mutable {
    CancellationContext* ctx = raw[c];
    called.push_back(tok->id);
    seen.push_back({c, Reason(ctx->GetStatus())});
    if (act == "cascade" && own.count(arg)) DoCancel(*own[arg], 7);
    if (act == "again") DoCancel(*ctx, 8);
    if (act == "sub") { auto s = ctx->Subscribe(Callback(arg, c, "no", 0)); }
    if (act == "drop") { Subscription t(std::move(hnd[arg])); }
  };
}

int IdOf(const CancellationContext* p) {
  if (p == nullptr) return 0;
  auto it = ids.find(p);
  return it == ids.end() ? -1 : it->second;
}

void Observe(json& e) {
  std::sort(called.begin(), called.end());
  e["called"] = called;
  e["alive"] = std::vector<int>(alive.begin(), alive.end());
  e["seen"] = seen;
  e["own"] = json::array();
  for (auto& p : own) {
    int r = Reason(p.second->GetStatus());
    if (p.second->Cancelled() != (r != 0)) r = -2;
    e["own"].push_back({p.first, r});
  }
  e["cur"] = json::array();
  for (int t = 1; t <= 3; ++t) {
    w[t]->Do([&] {
      int a = IdOf(Guard::current_cancellation_context());
      int r = Reason(arolla::CheckCancellation());
      bool f = arolla::Cancelled();
      int cc = IdOf(arolla::CurrentCancellationContext().get());
      e["cur"].push_back({a, r, f, cc});
    });
  }
}

void Race(json& e) {
  int n = e["prog"].size();
  auto ctx = CancellationContext::Make();
  std::mutex mx;
  std::vector<int> got;
  std::atomic<int> live{0};
  struct Tok { std::atomic<int>& n; explicit Tok(std::atomic<int>& n) : n(n) { ++n; } ~Tok() { --n; } };
  std::vector<json> log(n, json::array());
  std::barrier bar(n);
  std::vector<std::vector<std::pair<int, Subscription>>> keep(n);
#ifdef VERIF_SCHED
  sched::Controller::get().begin(e["sched"].get<std::vector<int>>());
#define VERIF_SPAWN(f) sched::Controller::get().spawn(f, t)
#else
  std::vector<std::thread> ths;
#define VERIF_SPAWN(f) ths.emplace_back(f)
#endif
  for (int t = 0; t < n; ++t) {
    std::vector<std::pair<std::string, int>> prog;
    for (auto& s : e["prog"][t]) prog.emplace_back(s[0], s[1]);
    VERIF_SPAWN(([&, t, prog] {
      std::vector<std::pair<std::string, int>> g;
      g.reserve(prog.size());
      Guard scope(ctx);
#ifndef VERIF_SCHED
      bar.arrive_and_wait();
#endif
      for (auto& [k, v] : prog) {
        if (k == "get") g.emplace_back(k, Reason(ctx->GetStatus()));
        if (k == "check") g.emplace_back(k, Reason(arolla::CheckCancellation()));
        if (k == "flag") g.emplace_back(k, (v ? arolla::Cancelled() : ctx->Cancelled()) ? 1 : 0);
        if (k == "cancel") { DoCancel(*ctx, v); g.emplace_back(k, v); }
        if (k == "sub" || k == "det") {
          auto s = ctx->Subscribe([&, v = v, tok = std::make_unique<Tok>(live)] {
            std::lock_guard<std::mutex> lk(mx);
            got.push_back(v);
          });
          if (k == "det") std::move(s).Detach();
          else keep[t].emplace_back(v, std::move(s));
          g.emplace_back("sub", v);
        }
        if (k == "unsub" && !keep[t].empty()) {
          int j = v % keep[t].size();
          g.emplace_back(k, keep[t][j].first);
          { Subscription s(std::move(keep[t][j].second)); }
          keep[t].erase(keep[t].begin() + j);
        }
      }
      json r = json::array();
      for (auto& x : g) r.push_back({{"k", x.first}, {"v", x.second}});
      log[t] = r;
    }));
  }
#ifdef VERIF_SCHED
  sched::Controller::get().go();
#else
  for (auto& t : ths) t.join();
#endif
  e["log"] = log;
  e["final"] = Reason(ctx->GetStatus());
  e["called"] = got;
  e["left"] = live.load();
  keep.clear();
  ctx = nullptr;
  e["leak"] = live.load();
}
}  // namespace

int main(int argc, char** argv) {
  for (int t = 1; t <= 3; ++t) w[t] = new Worker;
  auto C = [](json& e) { return e["c"].get<int>(); };
  auto H = [](json& e) -> Subscription& { return hnd[e["h"].get<int>()]; };
  auto wrap = [](std::function<void(json&)> f) {
    return [f](json& e) { seen = json::array(); f(e); Observe(e); };
  };
  auto note = [](CancellationContext* p) { raw.push_back(p); ids[p] = (int)raw.size() - 1; };
  int rc = DriverMain(
      argc, argv,
      {
          {"begin", wrap([&](json& e) {
             for (int t = 1; t <= 3; ++t) w[t]->Do([&] { while (!w[t]->guards.empty()) w[t]->guards.pop_back(); });
             for (auto& h : hnd) { Subscription s(std::move(h)); }
             own.clear(); ids.clear(); raw.assign(1, nullptr); called.clear(); })},
          {"make", wrap([&](json& e) { auto p = CancellationContext::Make(); note(p.get()); own[C(e)] = p; })},
          {"drop", wrap([&](json& e) { own.erase(C(e)); })},
          {"cancel", wrap([&](json& e) { w[e.value("t", 1)]->Do([&] { DoCancel(*own.at(C(e)), e["r"]); }); })},
          {"sub", wrap([&](json& e) {
             auto s = own.at(C(e))->Subscribe(Callback(e["id"], C(e), e["act"], e["arg"]));
             H(e) = std::move(s); })},
          {"unsub", wrap([&](json& e) { w[e.value("t", 2)]->Do([&] { Subscription s(std::move(H(e))); }); })},
          {"detach", wrap([&](json& e) { std::move(H(e)).Detach(); })},
          {"move", wrap([&](json& e) { H(e) = std::move(hnd[e["g"].get<int>()]); })},
          {"push", wrap([&](json& e) { Worker* k = w[e["t"].get<int>()]; int c = C(e);
             k->Do([&] { k->guards.push_back(std::make_unique<Guard>(c ? own.at(c) : nullptr)); }); })},
          {"pushnew", wrap([&](json& e) { Worker* k = w[e["t"].get<int>()];
             k->Do([&] { k->guards.push_back(std::make_unique<Guard>()); note(k->guards.back()->cancellation_context()); }); })},
          {"take", wrap([&](json& e) { Worker* k = w[e["t"].get<int>()];
             k->Do([&] { auto p = arolla::CurrentCancellationContext(); if (p != nullptr) own[IdOf(p.get())] = p; }); })},
          {"pop", wrap([&](json& e) { Worker* k = w[e["t"].get<int>()]; k->Do([&] { k->guards.pop_back(); }); })},
          {"race", Race},
      });
  std::fflush(nullptr);
  std::_Exit(rc);
}
