#include <cstdint>
#include <vector>
#include "absl/container/flat_hash_set.h"
#include "common/driver.h"
#include "arolla/algorithm/control_flow_graph.h"

using arolla::AcyclicCFG;
using arolla::DominatorTree;

namespace {
json Tree(const DominatorTree& t) {
  json r;
  r["n"] = t.num_nodes();
  r["par"] = r["depth"] = r["kids"] = json::array();
  r["pars"] = t.parents();
  for (int64_t i = 0; i < t.num_nodes(); ++i) {
    r["par"].push_back(t.parent(i));
    r["depth"].push_back(t.depth(i));
    r["kids"].push_back(std::vector<int64_t>(t.children(i).begin(), t.children(i).end()));
  }
  return r;
}
void Graph(const AcyclicCFG& g, json& e) {
  e["n"] = g.num_nodes();
  e["deps"] = e["rev"] = json::array();
  for (int64_t i = 0; i < g.num_nodes(); ++i) {
    e["deps"].push_back(std::vector<int64_t>(g.deps(i).begin(), g.deps(i).end()));
    e["rev"].push_back(std::vector<int64_t>(g.reverse_deps(i).begin(), g.reverse_deps(i).end()));
  }
}
}  // namespace

int main(int argc, char** argv) {
  return DriverMain(argc, argv, {{"cfg", [](json& e) {
    auto g = AcyclicCFG::Create(e["g"].get<std::vector<std::vector<int64_t>>>());
    e["ok"] = g.ok();
    if (!g.ok()) return;
    Graph(**g, e);
    DominatorTree t(**g);
    e["tree"] = Tree(t);
    e["fr"] = FindVerticesWithEmptyDominanceFrontier(**g, t);
    auto gl = e["glob"].get<std::vector<int64_t>>();
    auto x = ExternalizeNodes(**g, t, absl::flat_hash_set<int64_t>(gl.begin(), gl.end()));
    json& j = e["ext"];
    j["ok"] = x.ok();
    if (!x.ok()) return;
    Graph(**x, j);
    DominatorTree xt(**x);
    j["tree"] = Tree(xt);
    j["fr"] = FindVerticesWithEmptyDominanceFrontier(**x, xt);
  }}});
}
