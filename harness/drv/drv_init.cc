// Runs generated initializers through Coordinator and, in a child process,
// through Registration / InitArolla.
#include <sys/wait.h>
#include <unistd.h>
#include <array>
#include <cstdio>
#include <functional>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include "absl/status/status.h"
#include "absl/strings/string_view.h"
#include "common/driver.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/init_arolla_internal.h"

using arolla::init_arolla_internal::Coordinator;
using arolla::init_arolla_internal::Initializer;
using arolla::init_arolla_internal::InitArollaSecondary;
using arolla::init_arolla_internal::Registration;
using SV = absl::string_view;

namespace {
constexpr int kMax = 24;
std::vector<int> ran;
int pipe_fd = -1;
void Note(int i) {
  ran.push_back(i);
  if (pipe_fd >= 0) { char b[2] = {'r', (char)i}; (void)!write(pipe_fd, b, 2); }
}
template <int I> void VoidFn() { Note(I); }
template <int I> absl::Status OkFn() { Note(I); return absl::OkStatus(); }
template <int I> absl::Status FailFn() { Note(I); return absl::InternalError("boom"); }
template <size_t... I>
constexpr auto VoidTable(std::index_sequence<I...>) { return std::array<void (*)(), sizeof...(I)>{&VoidFn<I>...}; }
template <size_t... I>
constexpr auto OkTable(std::index_sequence<I...>) { return std::array<absl::Status (*)(), sizeof...(I)>{&OkFn<I>...}; }
template <size_t... I>
constexpr auto FailTable(std::index_sequence<I...>) { return std::array<absl::Status (*)(), sizeof...(I)>{&FailFn<I>...}; }
constexpr auto kVoid = VoidTable(std::make_index_sequence<kMax>());
constexpr auto kOk = OkTable(std::make_index_sequence<kMax>());
constexpr auto kFail = FailTable(std::make_index_sequence<kMax>());

struct Item {
  int id;
  std::string name, kind;
  std::vector<std::string> deps, rdeps;
};
std::string Str(const json& cps) {
  std::string s;
  for (int c : cps) s += (char)c;
  return s;
}
std::vector<Item> Items(const json& js) {
  std::vector<Item> r;
  for (auto& j : js) {
    Item x{(int)r.size() + 1, Str(j["name"]), j["k"]};
    for (auto& d : j["deps"]) x.deps.push_back(Str(d));
    for (auto& d : j["rdeps"]) x.rdeps.push_back(Str(d));
    r.push_back(std::move(x));
  }
  return r;
}
void WithList(const std::vector<std::string>& v, const std::function<void(std::initializer_list<SV>)>& f) {
  switch (v.size()) {
    case 0: return f({});
    case 1: return f({v[0]});
    case 2: return f({v[0], v[1]});
    case 3: return f({v[0], v[1], v[2]});
    case 4: return f({v[0], v[1], v[2], v[3]});
    default: std::exit(77);
  }
}
// Calls f with the initializer of every item; they live until f returns.
void WithAll(const std::vector<Item>& items, std::vector<const Initializer*>& acc, const std::function<void()>& f) {
  if (acc.size() == items.size()) return f();
  const Item& x = items[acc.size()];
  WithList(x.deps, [&](std::initializer_list<SV> d) {
    WithList(x.rdeps, [&](std::initializer_list<SV> rd) {
      Initializer in{.name = x.name, .deps = d, .reverse_deps = rd};
      if (x.kind == "void") in.init_fn = kVoid[x.id];
      if (x.kind == "ok") in.init_fn = kOk[x.id];
      if (x.kind == "fail") in.init_fn = kFail[x.id];
      acc.push_back(&in);
      WithAll(items, acc, f);
    });
  });
}
void WithBatches(const std::vector<std::vector<Item>>& bs, std::vector<std::vector<const Initializer*>>& acc, const std::function<void()>& f) {
  if (acc.size() == bs.size()) return f();
  std::vector<const Initializer*> a;
  WithAll(bs[acc.size()], a, [&] {
    acc.push_back(a);
    WithBatches(bs, acc, f);
  });
}

void Run(json& e) {
  std::vector<std::vector<Item>> bs;
  for (auto& b : e["batches"]) bs.push_back(Items(b));
  std::vector<std::vector<const Initializer*>> ins;
  e["res"] = json::array();
  WithBatches(bs, ins, [&] {
    for (auto& ord : e["orders"]) {
      Coordinator c;
      json res = json::array();
      for (size_t k = 0; k < ins.size(); ++k) {
        std::vector<const Initializer*> l;
        for (int i : ord[k]) l.push_back(ins[k][i - 1]);
        ran.clear();
        bool ok = c.Run(l).ok();
        res.push_back({{"ran", ran}, {"ok", ok}});
        if (!ok) break;
      }
      e["res"].push_back(res);
    }
  });
}

void Proc(json& e) {
  int p[2];
  if (pipe(p)) std::exit(77);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    pipe_fd = p[1];
    (void)!freopen("/dev/null", "w", stderr);
    auto items = Items(e["items"]);
    std::vector<const Initializer*> ins;
    WithAll(items, ins, [&] {
      for (auto& s : e["steps"]) {
        (void)!write(pipe_fd, "s", 1);
        std::string k = s["k"];
        if (k == "reg") new Registration(*ins[s["i"].get<int>() - 1]);
        if (k == "init") {
          if (s.value("par", 0)) {
            std::thread t([] { arolla::InitArolla(); });
            arolla::InitArolla();
            t.join();
          } else {
            arolla::InitArolla();
          }
        }
        if (k == "second") InitArollaSecondary();
        if (k == "check") arolla::CheckInitArolla();
        (void)!write(pipe_fd, "o", 1);
      }
      _exit(0);
    });
  }
  close(p[1]);
  json obs = json::array();
  char c;
  while (read(p[0], &c, 1) == 1) {
    if (c == 's') obs.push_back({{"ran", json::array()}, {"ok", false}});
    if (c == 'o') obs.back()["ok"] = true;
    if (c == 'r') { (void)!read(p[0], &c, 1); obs.back()["ran"].push_back((int)c); }
  }
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  e["obs"] = obs;
}
}  // namespace

int main(int argc, char** argv) {
  return DriverMain(argc, argv, {{"run", Run}, {"proc", Proc}});
}
