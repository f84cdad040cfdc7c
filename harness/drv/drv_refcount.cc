// Drives the real reference counter through scheduled interleavings, and the
// real smart pointer through handle histories.
#include <memory>
#include <set>
#include "common/driver.h"
#include "common/sched.h"

#define atomic sched_atomic
#define atomic_thread_fence sched_atomic_thread_fence
#include "arolla/util/refcount.h"
#undef atomic
#undef atomic_thread_fence

using arolla::Refcount;

namespace {

void Conc(json& e) {
  auto scripts = e["threads"].get<std::vector<std::vector<std::string>>>();
  auto sch = e["sched"].get<std::vector<int>>();
  json ev = json::array();
  auto& c = sched::Controller::get();
  Refcount rc;
  for (size_t i = 1; i < scripts.size(); ++i) rc.increment();
  c.on_step = [&](int t, const char* kind, const char* ord) {
    ev.push_back({{"op", "step"}, {"t", t}, {"kind", kind}, {"ord", ord}});
  };
  // Every thread first runs up to its first step.
  std::vector<int> full;
  for (size_t i = 0; i < scripts.size(); ++i) full.push_back(i + 1);
  full.insert(full.end(), sch.begin(), sch.end());
  c.begin(full);
  for (size_t i = 0; i < scripts.size(); ++i) {
    int t = i + 1;
    c.spawn(
        [&, t, i] {
          for (auto& fn : scripts[i]) {
            if (fn == "use") {
              c.point();
              ev.push_back({{"op", "use"}, {"t", t}});
              continue;
            }
            ev.push_back({{"op", "call"}, {"t", t}, {"fn", fn}});
            if (fn == "inc") {
              rc.increment();
              ev.push_back({{"op", "ret"}, {"t", t}, {"res", true}});
            } else {
              bool r = fn == "dec" ? rc.decrement() : rc.skewed_decrement();
              ev.push_back({{"op", "ret"}, {"t", t}, {"res", r}});
            }
          }
        },
        t);
  }
  c.go();
  e["ev"] = ev;
}

}  // namespace

int main(int argc, char** argv) {
  return DriverMain(argc, argv, {{"conc", Conc}});
}
