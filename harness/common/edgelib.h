// Dense arrays, arrays and edges from and to JSON, in any of their forms.
#ifndef VERIF_EDGELIB_H_
#define VERIF_EDGELIB_H_
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "common/driver.h"
#include "absl/status/statusor.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/array/group_op.h"
#include "arolla/array/id_filter.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/ops/dense_group_ops.h"
#include "arolla/memory/optional_value.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"

using namespace arolla;

namespace {
constexpr int kM = -99;
constexpr int kBad = 1000001;
using Ints = std::vector<int>;
template <class T> struct Conv {
  static T In(int v) { return static_cast<T>(v); }
  static int Out(T v) { return v > 1000000 || v < -1000000 ? kBad : static_cast<int>(v); }
};
template <> struct Conv<Text> {
  static Text In(int v) { return Text(std::to_string(v) + std::string((v + 100) % 5, '#')); }
  static int Out(absl::string_view s) {
    if (s.find(',') != s.npos) {  // joined: a digest of the parts
      int h = 7;
      for (size_t p = 0; p != s.npos;) {
        size_t q = s.find(',', p);
        int v = Out(s.substr(p, q == s.npos ? q : q - p));
        if (v == kBad) return kBad;
        h = (h * 31 + v + 1) % 10007;
        p = q == s.npos ? q : q + 1;
      }
      return 20000 + h;
    }
    int v = 0; size_t p = 0; bool neg = !s.empty() && s[0] == '-';
    p = neg;
    while (p < s.size() && p < 7 && s[p] >= '0' && s[p] <= '9') v = v * 10 + (s[p++] - '0');
    if (neg) v = -v;
    if (p == neg || s.size() != p + (v + 100) % 5) return kBad;
    for (; p < s.size(); ++p) if (s[p] != '#') return kBad;
    return v;
  }
};
template <> struct Conv<Unit> { static Unit In(int) { return {}; } static int Out(Unit) { return 0; } };
template <class T> OptionalValue<T> Opt(int v) { if (v == kM) return {}; return OptionalValue<T>(Conv<T>::In(v)); }
template <class T, class O> int Of(const O& o) { return o.present ? Conv<T>::Out(o.value) : kM; }

template <class T> DenseArray<T> Dense(const Ints& v, int shift, bool bm) {
  bool full = true;
  for (int x : v) full = full && x != kM;
  if (full && !bm) {
    typename Buffer<T>::Builder b(v.size());
    for (size_t k = 0; k < v.size(); ++k) b.Set(k, Conv<T>::In(v[k]));
    return {std::move(b).Build()};
  }
  int64_t n = shift + v.size();
  typename Buffer<T>::Builder vb(n);
  bitmap::Bitmap::Builder bb(bitmap::BitmapSize(n));
  auto span = bb.GetMutableSpan();
  for (auto& x : span) x = 0xA5A5A5A5u;
  for (int64_t k = 0; k < n; ++k) {
    bool p = k < shift ? k % 3 == 0 : v[k - shift] != kM;
    vb.Set(k, k >= shift && p ? Conv<T>::In(v[k - shift]) : Conv<T>::In(1));
    if (p) bitmap::SetBit(span.begin(), k); else bitmap::UnsetBit(span.begin(), k);
  }
  DenseArray<T> r{std::move(vb).Build(), std::move(bb).Build()};
  return shift ? r.Slice(shift, v.size()) : r;
}
template <class T> Array<T> Arr(const Ints& v, const json& f) {
  Ints w;
  typename Buffer<int64_t>::Builder ids(f["ids"].size());
  int64_t p = 0;
  for (auto& id : f["ids"]) { w.push_back(v[id.get<int>()]); ids.Set(p++, id.get<int64_t>() + f["off"].get<int>()); }
  if (f.contains("plain")) return Array<T>(Dense<T>(v, f["shift"], f["bm"]));
  DenseArray<T> d = Dense<T>(w, f["shift"], f["bm"]);
  if (w.empty()) return Array<T>(v.size(), Opt<T>(f["miss"]));
  return Array<T>(v.size(), IdFilter(v.size(), std::move(ids).Build(), f["off"].get<int>()), std::move(d), Opt<T>(f["miss"]));
}
struct DenseKind {
  template <class T> using A = DenseArray<T>;
  using E = DenseArrayEdge; using SE = DenseArrayGroupScalarEdge;
  template <class T> static DenseArray<T> Make(const json& x) { return Dense<T>(x["v"].get<Ints>(), x["f"]["shift"], x["f"]["bm"]); }
  template <class Acc> using Op = DenseGroupOps<Acc>;
  template <class Acc> using OpId = DenseGroupOpsWithId<Acc>;
};
struct ArrayKind {
  template <class T> using A = Array<T>;
  using E = ArrayEdge; using SE = ArrayGroupScalarEdge;
  template <class T> static Array<T> Make(const json& x) { return Arr<T>(x["v"].get<Ints>(), x["f"]); }
  template <class Acc> using Op = ArrayGroupOp<Acc>;
  template <class Acc> using OpId = ArrayGroupOpWithId<Acc>;
};
template <class Acc> using RawArrayOp = array_ops_internal::ArrayGroupOpImpl<Acc, typename Acc::parent_types, typename Acc::child_types, false, false>;
template <class Acc> using RawArrayOpId = array_ops_internal::ArrayGroupOpImpl<Acc, typename Acc::parent_types, meta::tail_t<typename Acc::child_types>, true, false>;
struct RawArrayKind : ArrayKind {  // never through the dense implementation
  template <class Acc> using Op = RawArrayOp<Acc>;
  template <class Acc> using OpId = RawArrayOpId<Acc>;
};
template <class T, class A> json Read(const A& x) { json r = json::array(); for (int64_t i = 0; i < x.size(); ++i) r.push_back(Of<T>(x[i])); return r; }
// Array contents through iteration as well.
template <class T, class A> json ReadChecked(const A& x) {
  json r = Read<T>(x), f = json::array();
  x.ForEach([&](int64_t id, bool p, view_type_t<T> v) { f.push_back(p ? Conv<T>::Out(v) : kM); });
  return r == f ? r : json::array({kBad});
}

struct Env {  // a buffer factory and an evaluation context on it
  UnsafeArenaBufferFactory arena{512};
  RawBufferFactory* fac;
  EvaluationContext ctx;
  explicit Env(const json& e) : fac(e.value("arena", false) ? &arena : GetHeapBufferFactory()), ctx(EvaluationOptions{.buffer_factory = fac}) {}
};

template <class E> json Show(const E& x) {
  return {{"form", x.edge_type() == E::MAPPING ? "map" : x.edge_type() == E::SPLIT_POINTS ? "split" : "?"},
          {"parent", x.parent_size()}, {"child", x.child_size()}, {"vals", ReadChecked<int64_t>(x.edge_values())}};
}
template <class E> json ShowOr(const absl::StatusOr<E>& x) {
  if (!x.ok()) return {{"ok", false}};
  json r = Show(*x); r["ok"] = true; return r;
}
template <class K> absl::StatusOr<typename K::E> MakeEdge(const json& d, Env& env) {
  using E = typename K::E;
  std::string how = d["how"];
  absl::StatusOr<E> r;
  if (how == "split") r = E::FromSplitPoints(K::template Make<int64_t>(d));
  else if (how == "map") r = E::FromMapping(K::template Make<int64_t>(d), d["parent"].get<int>());
  else if (how == "unif") r = E::FromUniformGroups(d["parent"].get<int>(), d["group"].get<int>(), *env.fac);
  else std::abort();
  if (!r.ok() || !d.contains("via")) return r;
  std::string via = d["via"];
  if (via == "map") return r->ToMappingEdge(*env.fac);
  if (via == "split") { auto s = r->ToSplitPointsEdge(*env.fac); return s.ok() ? s : r; }
  if constexpr (std::is_same_v<E, ArrayEdge>) return ArrayEdge::FromDenseArrayEdge(r->ToDenseArrayEdge(*env.fac));
  return r;
}
template <class T, class R> void Out(json& e, const R& r) {
  if constexpr (IsStatusOrT<R>::value) { e["ok"] = r.ok(); if (r.ok()) e["res"] = ReadChecked<T>(*r); else e["err"] = std::string(r.status().message()); }
  else { e["ok"] = true; e["res"] = ReadChecked<T>(r); }
}
}  // namespace
#endif
