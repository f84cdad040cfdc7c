// Histories on a real LruCache; keys and values count their live instances.
#include <algorithm>
#include <cstddef>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "absl/hash/hash.h"
#include "common/driver.h"
#include "arolla/util/lru_cache.h"

namespace {
std::map<const void*, int> live_k, live_v;

struct K {
  int k;
  explicit K(int k) : k(k) { live_k[this] = k; }
  K(const K& o) : k(o.k) { live_k[this] = k; }
  K(K&& o) : k(o.k) { live_k[this] = k; o.k = -1; live_k[&o] = -1; }
  ~K() { live_k.erase(this); }
};
// Another type usable for a lookup.
struct View { int k; };
struct V {
  int v;
  explicit V(int v) : v(v) { live_v[this] = v; }
  V(V&& o) : v(o.v) { live_v[this] = v; o.v = -2; live_v[&o] = -2; }
  V& operator=(V&& o) { v = o.v; live_v[this] = v; o.v = -2; live_v[&o] = -2; return *this; }
  ~V() { live_v.erase(this); v = -3; }
};
struct Hash {
  using is_transparent = void;
  static int mode;
  size_t H(int k) const { return mode ? 7 : absl::Hash<int>()(k / 10); }
  size_t operator()(const K& k) const { return H(k.k); }
  size_t operator()(const View& k) const { return H(k.k); }
};
int Hash::mode = 0;
struct Eq {
  using is_transparent = void;
  bool operator()(const K& a, const K& b) const { return a.k / 10 == b.k / 10; }
  bool operator()(const K& a, const View& b) const { return a.k / 10 == b.k / 10; }
  bool operator()(const View& a, const K& b) const { return a.k / 10 == b.k / 10; }
};
using Cache = arolla::LruCache<K, V, Hash, Eq>;
std::unique_ptr<Cache> cache;

void Observe(json& e) {
  e["alive"] = e["keys"] = json::array();
  for (auto& p : live_v) e["alive"].push_back(p.second);
  for (auto& p : live_k) e["keys"].push_back(p.second);
}
}  // namespace

int main(int argc, char** argv) {
  return DriverMain(
      argc, argv,
      {
          {"begin", [](json& e) { cache.reset(); Hash::mode = e.value("mode", 0);
             cache = std::make_unique<Cache>(e["cap"].get<size_t>()); Observe(e); }},
          {"end", [](json& e) { cache.reset(); Observe(e); }},
          {"get", [](json& e) {
             const V* p;
             if (e.value("view", 0)) { p = cache->LookupOrNull(View{e["k"].get<int>()}); }
             else { K k(e["k"].get<int>()); p = cache->LookupOrNull(k); }
             e["got"] = p ? p->v : 0; Observe(e); }},
          {"get2", [](json& e) {
             const V* p = cache->LookupOrNull(View{e["k"].get<int>()});
             const V* q = cache->LookupOrNull(K(e["m"].get<int>()));
             e["got"] = p ? p->v : 0; e["got2"] = q ? q->v : 0; Observe(e); }},
          {"put", [](json& e) {
             int k = e["k"].get<int>(), v = e["v"].get<int>(), w = e["w"].get<int>();
             const V* p;
             switch (e.value("form", 0)) {
               case 0: p = w == 1 ? cache->Put(K(k), V(v)) : cache->Put(K(k), V(v), w); break;
               case 1: { K kk(k); p = cache->Put(kk, V(v), w); break; }
               default: p = cache->Put(k, v, w);
             }
             e["got"] = p ? p->v : 0; Observe(e); }},
          {"clear", [](json& e) { cache->Clear(); Observe(e); }},
      });
}
