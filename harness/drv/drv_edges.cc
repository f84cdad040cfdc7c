// Edges, group operations and the operators over edges, on dense arrays and arrays.
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "common/driver.h"
#include "common/edgelib.h"
#include "absl/status/statusor.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/array/group_op.h"
#include "arolla/array/id_filter.h"
#include "arolla/array/multi_edge_util.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/ops/dense_group_ops.h"
#include "arolla/dense_array/ops/multi_edge_util.h"
#include "arolla/memory/optional_value.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/qexpr/aggregation_ops_interface.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/operators/aggregation/group_op_accumulators.h"
#include "arolla/qexpr/operators/array/edge_ops.h"
#include "arolla/qexpr/operators/dense_array/edge_ops.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"

using namespace arolla;

namespace {
template <class R> void OutEdge(json& e, const R& r) { e["edge"] = ShowOr(r); if (!r.ok()) e["err"] = std::string(r.status().message()); }

// Order-sensitive accumulator: a digest of everything it was given.
template <class... C> struct HasOpt : std::false_type {};
template <AccumulatorType TY, class PT, class CT> struct Dig;
template <AccumulatorType TY, class... P, class... C>
struct Dig<TY, meta::type_list<P...>, meta::type_list<C...>> final
    : Accumulator<TY, OptionalValue<int64_t>, meta::type_list<P...>, meta::type_list<C...>> {
  int64_t h = 7, k = 0;
  absl::Status status;
  static int64_t Num(int64_t v) { return v + 1; }
  static int64_t Num(const OptionalValue<int64_t>& v) { return v.present ? v.value + 1 : 0; }
  void Mix(int64_t v) { h = (h * 31 + v) % 10007; }
  void Reset(view_type_t<P>... p) final { h = 7; k = 0; (Mix(Num(p)), ...); }
  void Add(view_type_t<C>... c) final {
    (Mix(Num(c)), ...);
    if (((Num(c) == 100) || ...)) status = absl::InvalidArgumentError("99");
  }
  void FinalizeFullGroup() final { Mix(500); }
  OptionalValue<int64_t> GetResult() final {
    int64_t r = h;
    if (TY == AccumulatorType::kFull) r = (h + k++) % 10007;
    if (r % 5 == 0) return {};
    return r;
  }
  absl::Status GetStatus() final { return status; }
};
template <class T, class R> void Res(json& e, const absl::StatusOr<R>& r) {
  if (!r.ok()) { e["ok"] = false; e["err"] = std::string(r.status().message()); return; }
  e["ok"] = true;
  if constexpr (is_optional_v<R>) e["res"] = {Of<T>(*r)};
  else if constexpr (std::is_arithmetic_v<R>) e["res"] = {Conv<T>::Out(*r)};
  else if constexpr (std::is_same_v<R, OptionalValue<Unit>>) e["res"] = {r->present ? 0 : kM};
  else e["res"] = ReadChecked<T>(*r);
}
template <class T> view_type_t<T> Scalar(int v) { if constexpr (is_optional_v<T>) return Opt<strip_optional_t<T>>(v); else return v; }

template <class K, template <class> class Op, class Acc, size_t NP, class... T>
void ApplyOp(json& e, Env& env, const Acc& proto, meta::type_list<T...>) {
  using R = strip_optional_t<typename Acc::result_type>;
  Op<Acc> op(env.fac, proto);
  auto args = [&]<size_t... I>(std::index_sequence<I...>) {
    return std::make_tuple(K::template Make<strip_optional_t<T>>(e["args"][I])...);
  }(std::index_sequence_for<T...>());
  if (e.contains("scalar")) {
    typename K::SE edge(e["scalar"].get<int>());
    [&]<size_t... I, size_t... J>(std::index_sequence<I...>, std::index_sequence<J...>) {
      using TL = std::tuple<T...>;
      Res<R>(e, op.Apply(edge, Scalar<std::tuple_element_t<I, TL>>(e["args"][I]["v"][0].get<int>())..., std::get<NP + J>(args)...));
    }(std::make_index_sequence<NP>(), std::make_index_sequence<sizeof...(T) - NP>());
    return;
  }
  auto edge = MakeEdge<K>(e["e"], env);
  if (!edge.ok()) { e["badedge"] = true; return; }
  std::apply([&](auto&... a) { Res<R>(e, op.Apply(*edge, a...)); }, args);
}

template <class K, AccumulatorType TY> void Digest(json& e) {
  Env env(e);
  std::string s = e["sig"];
  using I = int64_t; using O = OptionalValue<int64_t>;
  auto run = [&]<class... P, class... C>(meta::type_list<P...>, meta::type_list<C...>) {
    using Acc = Dig<TY, meta::type_list<P...>, meta::type_list<C...>>;
    ApplyOp<K, K::template Op, Acc, sizeof...(P)>(e, env, Acc(), meta::type_list<P..., C...>());
  };
  using meta::type_list;
  if (s == "-i") run(type_list<>(), type_list<I>());
  else if (s == "-io") run(type_list<>(), type_list<I, O>());
  else if (s == "-o") run(type_list<>(), type_list<O>());
  else if (s == "i-i") run(type_list<I>(), type_list<I>());
  else if (s == "o-i") run(type_list<O>(), type_list<I>());
  else if (s == "io-oi") run(type_list<I, O>(), type_list<O, I>());
  else if (s == "-#i") {
    using Acc = Dig<TY, type_list<>, type_list<I, I>>;
    ApplyOp<K, K::template OpId, Acc, 0>(e, env, Acc(), type_list<I>());
  } else std::abort();
}
template <class K> void Group(json& e) {
  std::string k = e["kind"];
  if (k == "agg") Digest<K, AccumulatorType::kAggregator>(e);
  else if (k == "partial") Digest<K, AccumulatorType::kPartial>(e);
  else Digest<K, AccumulatorType::kFull>(e);
}
template <class K> void Lib(json& e) {  // accumulators of the library
  Env env(e);
  std::string a = e["acc"];
  using I = int64_t;
  using meta::type_list;
  if (a == "count") { using Acc = SimpleCountAccumulator<AccumulatorType::kAggregator>; ApplyOp<K, K::template Op, Acc, 0>(e, env, Acc(), type_list<Unit>()); }
  else if (a == "cumcount") { using Acc = SimpleCountAccumulator<AccumulatorType::kPartial>; ApplyOp<K, K::template Op, Acc, 0>(e, env, Acc(), type_list<Unit>()); }
  else if (a == "sum") { using Acc = SumAggregator<I>; ApplyOp<K, K::template Op, Acc, 0>(e, env, Acc(OptionalValue<int64_t>(0)), type_list<I>()); }
  else if (a == "sumopt") { using Acc = SumAggregator<I>; ApplyOp<K, K::template Op, Acc, 0>(e, env, Acc(), type_list<I>()); }
  else if (a == "max") { using Acc = MaxAggregator<I>; ApplyOp<K, K::template Op, Acc, 0>(e, env, Acc(), type_list<I>()); }
  else if (a == "collapse") { using Acc = CollapseAccumulator<I>; ApplyOp<K, K::template Op, Acc, 0>(e, env, Acc(), type_list<I>()); }
  else if (a == "join") { using Acc = StringJoinAggregator<Text>; ApplyOp<K, K::template Op, Acc, 0>(e, env, Acc(","), type_list<Text>()); }
  else if (a == "inverse") { using Acc = InverseMappingAccumulator; ApplyOp<K, K::template Op, Acc, 0>(e, env, Acc(), type_list<OptionalValue<I>>()); }
  else if (a == "take") { using Acc = ArrayTakeOverAccumulator<Text>; ApplyOp<K, K::template Op, Acc, 0>(e, env, Acc(), type_list<OptionalValue<Text>, OptionalValue<I>>()); }
  else std::abort();
}
// the library's digest of joined strings: a list of numbers per result
template <class K> void Mk(json& e) {
  Env env(e);
  auto r = MakeEdge<K>(e["e"], env);
  e["edge"] = ShowOr(r);
  if (!r.ok()) return;
  e["asmap"] = Show(r->ToMappingEdge(*env.fac));
  e["assplit"] = ShowOr(r->ToSplitPointsEdge(*env.fac));
  json ss = json::array();
  if (r->edge_type() == K::E::SPLIT_POINTS) for (int64_t i = 0; i < r->parent_size(); ++i) ss.push_back(r->split_size(i));
  e["ss"] = ss;
  constexpr bool dense = std::is_same_v<K, DenseKind>;
  std::conditional_t<dense, DenseArrayEdgeSizesOp, ArrayEdgeSizesOp> sizes;
  std::conditional_t<dense, DenseArrayEdgeMappingOp, ArrayEdgeMappingOp> mapping;
  std::conditional_t<dense, DenseArrayEdgeChildShapeOp, ArrayEdgeChildShapeOp> cs;
  std::conditional_t<dense, DenseArrayEdgeParentShapeOp, ArrayEdgeParentShapeOp> ps;
  e["sizes"] = ReadChecked<int64_t>(*sizes(&env.ctx, *r));
  e["mapping"] = ReadChecked<int64_t>(mapping(&env.ctx, *r));
  e["shapes"] = {ps(*r).size, cs(*r).size};
  if constexpr (dense) e["other"] = Show(ArrayEdge::FromDenseArrayEdge(*r));
  else { e["other"] = Show(r->ToDenseArrayEdge(*env.fac)); e["viaop"] = ShowOr(ArrayEdgeAsDenseArrayOp()(&env.ctx, *r)); }
}
template <class K> void Compose(json& e) {
  Env env(e);
  std::vector<typename K::E> es;
  for (auto& d : e["es"]) { auto r = MakeEdge<K>(d, env); if (!r.ok()) { e["badedge"] = true; return; } es.push_back(*r); }
  OutEdge(e, K::E::ComposeEdges(es, *env.fac));
  json after = json::array();  // the arguments are left alone
  for (auto& x : es) after.push_back(Show(x));
  e["after"] = after;
}
template <class K> void Equiv(json& e) {
  Env env(e);
  auto x = MakeEdge<K>(e["e"], env), y = MakeEdge<K>(e["e2"], env);
  if (!x.ok() || !y.ok()) { e["badedge"] = true; return; }
  e["res"] = {x->IsEquivalentTo(*y), y->IsEquivalentTo(*x)};
}
template <class K, class T> void ExpandT(json& e) {
  Env env(e);
  constexpr bool dense = std::is_same_v<K, DenseKind>;
  std::conditional_t<dense, DenseArrayExpandOp, ArrayExpandOp> op;
  if (e.contains("scalar")) { Out<T>(e, op(&env.ctx, Opt<T>(e["args"][0]["v"][0]), typename K::SE(e["scalar"].get<int>()))); return; }
  auto x = MakeEdge<K>(e["e"], env);
  if (!x.ok()) { e["badedge"] = true; return; }
  Out<T>(e, op(&env.ctx, K::template Make<T>(e["args"][0]), *x));
}
template <class K> void Expand(json& e) {
  std::string t = e["t"];
  if (t == "i") ExpandT<K, int64_t>(e); else if (t == "t") ExpandT<K, Text>(e); else ExpandT<K, Unit>(e);
}
template <class K> void Sized(json& e) {
  Env env(e);
  constexpr bool dense = std::is_same_v<K, DenseKind>;
  auto a = K::template Make<int64_t>(e["args"][0]);
  std::string f = e["f"];
  if (f == "sizes") OutEdge(e, std::conditional_t<dense, DenseArrayEdgeFromSizesOp, ArrayEdgeFromSizesOp>()(&env.ctx, a));
  else if (f == "left") OutEdge(e, std::conditional_t<dense, DenseArrayEdgePairLeftOp, ArrayEdgePairLeftOp>()(&env.ctx, a));
  else OutEdge(e, std::conditional_t<dense, DenseArrayEdgePairRightOp, ArrayEdgePairRightOp>()(&env.ctx, a));
}
template <class K> void Resize(json& e) {
  Env env(e);
  constexpr bool dense = std::is_same_v<K, DenseKind>;
  std::conditional_t<dense, DenseArrayEdgeResizeGroupsChildSide, ArrayEdgeResizeGroupsChildSide> child;
  std::conditional_t<dense, DenseArrayEdgeResizeGroupsParentSide, ArrayEdgeResizeGroupsParentSide> parent;
  bool one = e.contains("one");
  if (e.contains("scalar")) {
    typename K::SE se(e["scalar"].get<int>());
    int64_t n = e["one"].get<int>();
    if (e["side"] == "child") OutEdge(e, child(&env.ctx, se, n, K::template Make<int64_t>(e["offs"])));
    else { auto r = parent(&env.ctx, se, n); e["edge"] = {{"ok", r.ok()}}; if (r.ok()) e["edge"]["child"] = r->child_size(); }
    return;
  }
  auto x = MakeEdge<K>(e["e"], env);
  if (!x.ok()) { e["badedge"] = true; return; }
  if (e["side"] == "child") {
    auto offs = K::template Make<int64_t>(e["offs"]);
    if (one) OutEdge(e, child(&env.ctx, *x, int64_t{e["one"].get<int>()}, offs));
    else OutEdge(e, child(&env.ctx, *x, K::template Make<int64_t>(e["ns"]), offs));
  } else {
    if (one) OutEdge(e, parent(&env.ctx, *x, int64_t{e["one"].get<int>()}));
    else OutEdge(e, parent(&env.ctx, *x, K::template Make<int64_t>(e["ns"])));
  }
}
template <class K, class T> void GroupByT(json& e) {
  Env env(e);
  constexpr bool dense = std::is_same_v<K, DenseKind>;
  std::conditional_t<dense, DenseArrayGroupByOp, ArrayGroupByOp> op;
  auto a = K::template Make<T>(e["args"][0]);
  if (e.contains("scalar")) { OutEdge(e, op(&env.ctx, a, typename K::SE(e["scalar"].get<int>()))); return; }
  auto x = MakeEdge<K>(e["e"], env);
  if (!x.ok()) { e["badedge"] = true; return; }
  OutEdge(e, op(&env.ctx, a, *x));
}
template <class K> void GroupBy(json& e) { if (e["t"] == "t") GroupByT<K, Text>(e); else GroupByT<K, int64_t>(e); }
template <class K> void TakeOO(json& e) {
  Env env(e);
  constexpr bool dense = std::is_same_v<K, DenseKind>;
  ArrayTakeOverOverOp<std::conditional_t<dense, DenseArrayMultiEdgeUtil, ArrayMultiEdgeUtil>> op;
  auto x = MakeEdge<K>(e["e"], env), y = MakeEdge<K>(e["e2"], env);
  if (!x.ok() || !y.ok()) { e["badedge"] = true; return; }
  Out<Text>(e, op(&env.ctx, K::template Make<Text>(e["args"][0]), K::template Make<int64_t>(e["args"][1]), *x, *y));
}
template <void (*D)(json&), void (*A)(json&)> void By(json& e) { if (e["arr"] == "d") D(e); else A(e); }
}  // namespace

int main(int argc, char** argv) {
  auto g = [](json& e) { if (e["arr"] == "d") Group<DenseKind>(e); else if (e["arr"] == "a") Group<ArrayKind>(e); else Group<RawArrayKind>(e); };
  auto lib = [](json& e) { if (e["arr"] == "d") Lib<DenseKind>(e); else if (e["arr"] == "a") Lib<ArrayKind>(e); else Lib<RawArrayKind>(e); };
  return DriverMain(argc, argv, {
    {"mk", By<Mk<DenseKind>, Mk<ArrayKind>>}, {"compose", By<Compose<DenseKind>, Compose<ArrayKind>>},
    {"equiv", By<Equiv<DenseKind>, Equiv<ArrayKind>>}, {"group", g}, {"lib", lib},
    {"expand", By<Expand<DenseKind>, Expand<ArrayKind>>}, {"sized", By<Sized<DenseKind>, Sized<ArrayKind>>},
    {"resize", By<Resize<DenseKind>, Resize<ArrayKind>>}, {"groupby", By<GroupBy<DenseKind>, GroupBy<ArrayKind>>},
    {"takeoo", By<TakeOO<DenseKind>, TakeOO<ArrayKind>>}});
}
