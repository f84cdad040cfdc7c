// Task execution, under the scheduler (sched build) or free running.
#include <chrono>
#include <functional>
#include <mutex>
#include <random>
#include <thread>
#include <vector>
#include "common/driver.h"
#include "common/sched.h"
#ifdef VERIF_SCHED
#define atomic sched_atomic
#define thread sched_thread
#endif
#include "arolla/util/threading.h"
#ifdef VERIF_SCHED
#undef atomic
#undef thread
#endif

namespace {
std::mutex mu;

void Pool(json& e) {
  int n = e["n"], par = e["par"];
  json ev = json::array();
  auto log = [&](const char* op, int i) {
    std::lock_guard<std::mutex> g(mu);
    json x = {{"op", op}};
    if (i >= 0) x["i"] = i;
    ev.push_back(x);
  };
  auto& c = sched::Controller::get();
  std::vector<std::function<void()>> tasks;
  std::mt19937 rng(e.value("seed", 1));
  for (int i = 1; i <= n; ++i) {
    int us = rng() % 60;
    tasks.push_back([&, i, us] {
#ifdef VERIF_SCHED
      log("start", i);
      c.point();
      log("finish", i);
#else
      log("start", i);
      if (us > 20) std::this_thread::sleep_for(std::chrono::microseconds(us));
      log("finish", i);
#endif
    });
  }
  std::string mode = e.value("mode", "tasks");
  auto body = [&] {
    if (mode == "tasks") {
      arolla::ExecuteTasksInParallel(par, tasks);
    } else {
      arolla::StdThreading th(par);
      if (mode == "with") {
        th.WithThreading([&] { for (auto& t : tasks) t(); });
      } else {
        std::vector<std::function<void()>> joins;
        for (auto& t : tasks) joins.push_back(th.StartThread(t));
        if (e.value("rev", false)) std::reverse(joins.begin(), joins.end());
        for (auto& j : joins) j();
      }
      e["count"] = th.GetRecommendedThreadCount();
    }
    log("return", -1);
  };
#ifdef VERIF_SCHED
  c.begin(e["sched"].get<std::vector<int>>());
  c.spawn(body, 0);
  c.go();
#else
  body();
#endif
  e["ev"] = ev;
}
void Threading(json& e) {
  arolla::StdThreading th(e["k"].get<int>());
  arolla::StdThreading d;
  e["n"] = 0;
  e["par"] = 1;
  e["ev"] = {{{"op", "count"}, {"k", e["k"]}, {"count", th.GetRecommendedThreadCount()}, {"def", d.GetRecommendedThreadCount()}}, {{"op", "return"}}};
}
}  // namespace

int main(int argc, char** argv) {
  return DriverMain(argc, argv, {{"pool", Pool}, {"threading", Threading}});
}
