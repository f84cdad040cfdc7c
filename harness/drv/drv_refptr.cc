#include <algorithm>
#include <memory>
#include <vector>
#include "common/driver.h"
#include "arolla/util/refcount_ptr.h"

using arolla::RefcountedBase;
using arolla::RefcountPtr;

namespace {
int made = 0;
std::vector<int> died;

struct Node : RefcountedBase {
  int id;
  RefcountPtr<Node> next;
  explicit Node(RefcountPtr<Node> n = {}) : id(++made), next(std::move(n)) {}
  virtual ~Node() { died.push_back(id); }
  // Memory is never reused, so that a second destruction is observable.
  static void operator delete(void*) {}
};
struct Sub : Node {
  using Node::Node;
};

RefcountPtr<Node> h[4];

void Observe(json& e) {
  std::vector<int> t;
  for (int i = 1; i <= 3; ++i) t.push_back(h[i] == nullptr ? 0 : h[i]->id);
  std::sort(died.begin(), died.end());
  e["targets"] = t;
  e["died"] = died;
}
}  // namespace

int main(int argc, char** argv) {
  auto I = [](json& e) { return e["h"].get<int>(); };
  auto G = [](json& e) { return e["g"].get<int>(); };
  return DriverMain(
      argc, argv,
      {
          {"begin", [&](json& e) { for (auto& x : h) x = nullptr; made = 0; died.clear(); Observe(e); }},
          {"end", [&](json& e) { for (auto& x : h) x.reset(); Observe(e); }},
          {"make", [&](json& e) { h[I(e)] = RefcountPtr<Node>::Make<Sub>(); Observe(e); }},
          {"own", [&](json& e) { h[I(e)] = RefcountPtr<Node>::Own(std::make_unique<Node>()); Observe(e); }},
          {"link", [&](json& e) { h[I(e)] = RefcountPtr<Node>::Make(h[G(e)]); Observe(e); }},
          {"copy", [&](json& e) { h[I(e)] = h[G(e)]; Observe(e); }},
          {"newref", [&](json& e) { h[I(e)] = RefcountPtr<Node>::NewRef(h[G(e)].get()); Observe(e); }},
          {"move", [&](json& e) { h[I(e)] = std::move(h[G(e)]); Observe(e); }},
          {"reset", [&](json& e) { h[I(e)].reset(); Observe(e); }},
          {"null", [&](json& e) { h[I(e)] = nullptr; Observe(e); }},
          {"swap", [&](json& e) { using std::swap; swap(h[I(e)], h[G(e)]); Observe(e); }},
          {"next", [&](json& e) { if (h[G(e)] != nullptr) h[I(e)] = h[G(e)]->next; Observe(e); }},
          {"temp", [&](json& e) {
             { RefcountPtr<Node> t(h[I(e)]); RefcountPtr<Node> u(std::move(t));
               e["moved"] = (t == nullptr) ? 0 : 1;
               RefcountPtr<Node> v; v = u; v = h[G(e)]; u = std::move(v); }
             Observe(e); }},
      });
}
