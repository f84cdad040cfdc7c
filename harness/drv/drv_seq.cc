#include <algorithm>
#include <cstdio>
#include <forward_list>
#include <list>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "common/driver.h"
#include "arolla/util/algorithms.h"
#include "arolla/util/iterator.h"
#include "arolla/util/map.h"

namespace {
bool inside = true;
// A forward iterator that notices reads outside of the sequence.
struct Checked {
  using iterator_category = std::forward_iterator_tag;
  using value_type = int;
  using difference_type = long;
  using pointer = const int*;
  using reference = const int&;
  const std::vector<int>* v = nullptr;
  long i = 0;
  reference operator*() const {
    static int dummy = 0;
    if (i < 0 || i >= (long)v->size()) { inside = false; return dummy; }
    return (*v)[i];
  }
  Checked& operator++() { ++i; if (i > (long)v->size()) inside = false; return *this; }
  Checked operator++(int) { Checked c = *this; ++*this; return c; }
  bool operator==(const Checked& o) const { return i == o.i; }
  bool operator!=(const Checked& o) const { return i != o.i; }
};

void Lb(json& e) {
  auto s = e["s"].get<std::vector<int>>();
  int k = e["k"];
  inside = true;
  e["vec"] = arolla::exp_lower_bound(s.begin(), s.end(), k) - s.begin();
  e["lst"] = arolla::exp_lower_bound(Checked{&s, 0}, Checked{&s, (long)s.size()}, k).i;
  auto d = s;
  std::reverse(d.begin(), d.end());
  e["desc"] = arolla::exp_lower_bound(d.begin(), d.end(), k, [](int a, int b) { return a > b; }) - d.begin();
  e["inside"] = inside;
}
void Keys(json& e) {
  auto s = e["s"].get<std::vector<int>>();
  std::map<int, int, std::greater<int>> a;
  std::unordered_map<int, std::string> b;
  std::unordered_map<std::string, int> c;
  std::vector<std::pair<int, int>> unused;
  for (int x : s) {
    a[x] = -x;
    b[x] = std::to_string(-x);
    char buf[16];
    std::snprintf(buf, sizeof(buf), "%08d", x);
    c[buf] = -x;
  }
  e["map"] = arolla::SortedMapKeys(a);
  e["hash"] = arolla::SortedMapKeys(b);
  std::vector<int> r, m;
  for (auto& x : arolla::SortedMapKeys(c)) r.push_back(std::stoi(x));
  e["str"] = r;
  std::map<int, int> o(a.begin(), a.end());
  e["mid"] = arolla::SortedMapKeys(o);
}

// By value and with narrow unsigned positions.
struct Gen {
  using value_type = int;
  using size_type = uint32_t;
  using difference_type = int32_t;
  size_type n;
  value_type operator[](size_type i) const { return 10 * static_cast<int>(i) + 7; }
};
struct Ref {
  using value_type = int;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  std::vector<int> v;
  const value_type& operator[](size_type i) const { return v[i]; }
};
// A virtual sequence whose walked part starts far from position 0.
constexpr uint64_t kFar = (uint64_t{1} << 41) + 5;
struct Big {
  using value_type = int;
  using size_type = uint64_t;
  using difference_type = int64_t;
  static constexpr uint64_t kBase = kFar;
  value_type operator[](size_type i) const { return 10 * static_cast<int>(i - kFar) + 7; }
};
template <class A, class = void> struct BaseOf { static constexpr uint64_t v = 0; };
template <class A> struct BaseOf<A, std::void_t<decltype(A::kBase)>> { static constexpr uint64_t v = A::kBase; };
Ref ref;
Gen gen;
Big big;
template <class A>
struct Walk {
  using It = arolla::ConstArrayIterator<A>;
  const A* a;
  It p, q;
  int n;
  void Obs(json& e) {
    e["diff"] = p - q; e["rdiff"] = q - p;
    e["eq"] = p == q; e["ne"] = p != q; e["lt"] = p < q; e["gt"] = p > q; e["le"] = p <= q; e["ge"] = p >= q;
    constexpr uint64_t B = BaseOf<A>::v;
    if (B) {  // relations over a long distance.
      It z(a, 3);
      e["far"] = (p - z == (long)(B - 3) + (p - It(a, B))) && (z - p < 0) && z < p && p > z && z <= p && p >= z &&
                 p != z && !(p == z) && (z + (p - z)) == p && *((p - (p - z)) + (p - z)) == p[0];
    }
    int at = p - It(a, B);
    if (at < n) {
      e["deref"] = *p;
      if constexpr (std::is_reference_v<typename It::reference>) e["arrow"] = *p.operator->();
      else e["arrow"] = *p;
    }
    std::vector<int> items, back;
    for (int i = 0; at + i < n; ++i) items.push_back(p[i]);
    for (int i = 1; i <= at; ++i) back.push_back(p[-i]);
    e["items"] = items; e["back"] = back;
  }
  void Do(json& e) {
    std::string op = e["op"];
    int k = e.value("n", 0);
    if (op == "add") p += k;
    else if (op == "sub") p -= k;
    else if (op == "plus") p = p + k;
    else if (op == "rplus") p = k + p;
    else if (op == "minus") p = p - k;
    else if (op == "inc") { It& r = ++p; if (&r != &p) p = q; }
    else if (op == "dec") { It& r = --p; if (&r != &p) p = q; }
    else if (op == "postinc") { It o = p++; int at = o - It(a, BaseOf<A>::v); e["old"] = at < n ? *o : -1; }
    else if (op == "postdec") { It o = p--; int at = o - It(a, BaseOf<A>::v); e["old"] = at < n ? *o : -1; }
    else if (op == "swap") std::swap(p, q);
    Obs(e);
  }
};
Walk<Gen> wg;
Walk<Ref> wr;
Walk<Big> wb;
int kind;
void Step(json& e) {
  if (e["op"] == "begin") {
    int n = e["len"];
    kind = e["kind"];
    gen.n = n;
    ref.v.clear();
    for (int i = 0; i < n; ++i) ref.v.push_back(10 * i + 7);
    wg = {&gen, {&gen, 0}, {&gen, (uint32_t)n}, n};
    wb = {&big, {&big, kFar}, {&big, kFar + n}, n};
    wr = {&ref, {&ref, 0}, {&ref, (size_t)n}, n};
  }
  if (kind == 0) wg.Do(e); else if (kind == 1) wr.Do(e); else wb.Do(e);
}
}  // namespace

int main(int argc, char** argv) {
  std::map<std::string, Handler> h{{"lb", Lb}, {"keys", Keys}};
  for (auto o : {"begin", "add", "sub", "plus", "rplus", "minus", "inc", "dec", "postinc", "postdec", "swap"}) h[o] = Step;
  return DriverMain(argc, argv, h);
}
