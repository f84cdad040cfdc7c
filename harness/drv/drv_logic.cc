// Logic and presence operators on scalars, optionals, dense arrays and arrays,
// lifted the way the operator libraries lift them.
#include <optional>
#include <string>
#include <type_traits>
#include <vector>
#include "common/driver.h"
#include "arolla/array/array.h"
#include "arolla/array/array_util.h"
#include "arolla/array/id_filter.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/lift_to_optional_operator.h"
#include "arolla/qexpr/operators/array/array_ops.h"
#include "arolla/qexpr/operators/array/lifter.h"
#include "arolla/qexpr/operators/array/logic_ops.h"
#include "arolla/qexpr/operators/bool/logic.h"
#include "arolla/qexpr/operators/core/logic_operators.h"
#include "arolla/qexpr/operators/dense_array/array_ops.h"
#include "arolla/qexpr/operators/dense_array/lifter.h"
#include "arolla/qexpr/operators/dense_array/logic_ops.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"

using namespace arolla;

namespace {
constexpr int kM = -1;
template <class T> struct Conv {
  static T In(int v) { return static_cast<T>(v); }
  static int Out(T v) { return v; }
};
template <> struct Conv<Text> {  // ordered like the numbers
  static Text In(int v) { return Text(std::string(v, '#')); }
  static int Out(absl::string_view s) { return s.size(); }
};
template <> struct Conv<Unit> {
  static Unit In(int) { return {}; }
  static int Out(Unit) { return 0; }
};
template <> struct Conv<absl::string_view> { static int Out(absl::string_view s) { return s.size(); } };
template <class T> OptionalValue<T> Opt(int v) { if (v == kM) return {}; return OptionalValue<T>(Conv<T>::In(v)); }

template <class R> int Val(const R& r) {
  if constexpr (IsStatusOrT<R>::value) { if (!r.ok()) return -9; return Val(*r); }
  else if constexpr (is_optional_v<R>) { return r.present ? Conv<std::decay_t<decltype(r.value)>>::Out(r.value) : kM; }
  else if constexpr (std::is_same_v<R, Unit>) return 0;
  else if constexpr (std::is_convertible_v<R, absl::string_view> || std::is_same_v<R, Text>) return absl::string_view(r).size();
  else return static_cast<int>(r);
}

template <class T> DenseArray<T> Dense(const std::vector<int>& v, int shift, bool bm) {
  std::vector<OptionalValue<T>> w;
  bool full = true;
  for (int k = 0; k < shift; ++k) w.push_back(Opt<T>(shift % 2 == 0 && k % 3 ? 1 : kM));
  for (int x : v) { w.push_back(Opt<T>(x)); full = full && x != kM; }
  if (full && !bm) {
    typename Buffer<T>::Builder b(v.size());
    for (size_t k = 0; k < v.size(); ++k) b.Set(k, Conv<T>::In(v[k]));
    return {std::move(b).Build()};
  }
  int64_t n = w.size();
  typename Buffer<T>::Builder vb(n);
  bitmap::Bitmap::Builder bb(bitmap::BitmapSize(n));
  auto span = bb.GetMutableSpan();
  for (auto& x : span) x = 0xA5A5A5A5u;
  for (int64_t k = 0; k < n; ++k) {
    vb.Set(k, w[k].present ? Conv<T>::In(v.empty() ? 0 : k < shift ? 1 : v[k - shift]) : Conv<T>::In(1));
    if (w[k].present) bitmap::SetBit(span.begin(), k); else bitmap::UnsetBit(span.begin(), k);
  }
  DenseArray<T> r{std::move(vb).Build(), std::move(bb).Build()};
  return shift ? r.Slice(shift, v.size()) : r;
}
// form: {shift, bm, ids, miss, off}
template <class T> Array<T> Arr(const std::vector<int>& v, const json& f) {
  std::vector<int> w;
  typename Buffer<int64_t>::Builder ids(f["ids"].size());
  int64_t p = 0;
  for (auto& id : f["ids"]) { w.push_back(v[id.get<int>()]); ids.Set(p++, id.get<int64_t>() + f["off"].get<int>()); }
  DenseArray<T> d = Dense<T>(w, f["shift"], f["bm"]);
  if (w.empty()) return Array<T>(v.size(), Opt<T>(f["miss"]));
  return Array<T>(v.size(), IdFilter(v.size(), std::move(ids).Build(), f["off"].get<int>()), std::move(d), Opt<T>(f["miss"]));
}

using Rows = std::vector<std::vector<int>>;
struct Call { json& e; Rows args; };
template <class A> void Collect(json& e, const A& r) {
  if constexpr (IsStatusOrT<A>::value) {
    if (!r.ok()) { e["ok"] = false; e["err"] = r.status().ToString(); return; }
    Collect(e, *r);
  } else {
    json v = json::array(), w = json::array();
    for (int64_t k = 0; k < r.size(); ++k) v.push_back(Val(r[k]));
    using T = typename A::base_type;
    r.ForEach([&](int64_t, bool p, view_type_t<T> x) { w.push_back(p ? Conv<T>::Out(x) : kM); });
    e["res"] = v;
    if (v != w) e["ok"] = false;
  }
}
template <class X> constexpr bool kOpt = is_optional_v<X>;
template <class X> X Arg(int v) { if constexpr (kOpt<X>) return Opt<strip_optional_t<X>>(v); else return Conv<X>::In(v); }
template <class X> DenseArray<strip_optional_t<X>> DArg(const std::vector<int>& v, const json& f) {
  // presence_or (kNoBitmapOffset) and lifted operators take arrays without bit offset.
  return Dense<strip_optional_t<X>>(v, f["shift"], f["bm"]).ForceNoBitmapBitOffset();
}
// Operators that handle the bit offset of their arguments themselves.
template <class X> DenseArray<X> Off(const std::vector<int>& v, const json& f) { return Dense<X>(v, f["shift"], f["bm"]); }

// F on arguments of types Xs (optional or not): rows one by one, or lifted.
template <class F, class... Xs, size_t... Is> void Lifted(Call& c, std::index_sequence<Is...>) {
  std::string carrier = c.e["carrier"];
  EvaluationContext ctx;
  size_t n = c.args[0].size();
  json res = json::array();
  if (carrier == "v") {
    for (size_t k = 0; k < n; ++k) res.push_back(Val(F()(Arg<Xs>(c.args[Is][k])...)));
    c.e["res"] = res;
  } else if (carrier == "o") {
    for (size_t k = 0; k < n; ++k)
      res.push_back(Val(OptionalLiftedOperator<F, meta::type_list<Xs...>>()(wrap_with_optional_t<Xs>(Arg<wrap_with_optional_t<Xs>>(c.args[Is][k]))...)));
    c.e["res"] = res;
  } else if (carrier == "d") {
    Collect(c.e, DenseArrayLifter<F, meta::type_list<Xs...>, true>()(&ctx, DArg<Xs>(c.args[Is], c.e["forms"][Is])...));
  } else if (carrier == "ds") {  // a dense array with bit offset, as in arrays
    Collect(c.e, DenseArrayLifter<F, meta::type_list<Xs...>>()(&ctx, Dense<strip_optional_t<Xs>>(c.args[Is], c.e["forms"][Is]["shift"], c.e["forms"][Is]["bm"])...));
  } else if (carrier == "a") {
    Collect(c.e, ArrayPointwiseLifter<F, meta::type_list<Xs...>>()(&ctx, Arr<strip_optional_t<Xs>>(c.args[Is], c.e["forms"][Is])...));
  } else {
    std::exit(77);
  }
}
template <class F, class... Xs> void L(Call& c) { Lifted<F, Xs...>(c, std::index_sequence_for<Xs...>()); }
// Only values, one row at a time.
template <class F, class... Xs, size_t... Is> void ByRow(Call& c, std::index_sequence<Is...>) {
  json res = json::array();
  for (size_t k = 0; k < c.args[0].size(); ++k) res.push_back(Val(F()(Arg<Xs>(c.args[Is][k])...)));
  c.e["res"] = res;
}
template <class F, class... Xs> void R(Call& c) { ByRow<F, Xs...>(c, std::index_sequence_for<Xs...>()); }
template <class T> using O = OptionalValue<T>;

template <class T> void Generic(Call& c, const std::string& f, const std::string& types) {
  std::string carrier = c.e["carrier"];
  EvaluationContext ctx;
  auto& a = c.args;
  const json& fs = c.e["forms"];
  if (carrier == "native") {  // operators written for arrays as a whole
    if (f == "pand") {
      if (c.e["dense"]) return Collect(c.e, DenseArrayPresenceAndOp()(&ctx, Off<T>(a[0], fs[0]), Off<Unit>(a[1], fs[1])));
      return Collect(c.e, ArrayPointwiseLifterOnDenseOp<DenseArrayPresenceAndOp, PresenceAndOp, meta::type_list<T, Unit>>()(&ctx, Arr<T>(a[0], fs[0]), Arr<Unit>(a[1], fs[1])));
    }
    if (f == "por") {
      if (c.e["dense"]) return Collect(c.e, DenseArrayPresenceOrOp()(&ctx, DArg<T>(a[0], fs[0]), DArg<T>(a[1], fs[1])));
      return Collect(c.e, ArrayPresenceOrOp()(&ctx, Arr<T>(a[0], fs[0]), Arr<T>(a[1], fs[1])));
    }
    if (f == "porc") {  // array or constant
      c.e["f"] = "por";
      if (c.e["dense"]) return Collect(c.e, DenseArrayPresenceOrOp()(&ctx, DArg<T>(a[0], fs[0]), Opt<T>(a[1].empty() ? kM : a[1][0])));
      return Collect(c.e, ArrayPresenceOrOp()(&ctx, Arr<T>(a[0], fs[0]), Conv<T>::In(a[1].empty() ? 0 : a[1][0])));
    }
    if (f == "pnot") {
      if (c.e["dense"]) return Collect(c.e, DenseArrayPresenceNotOp()(&ctx, Off<T>(a[0], fs[0])));
      return Collect(c.e, ArrayPointwiseLifter<PresenceNotOp, meta::type_list<O<T>>>()(&ctx, Arr<T>(a[0], fs[0])));
    }
    if (f == "has") {
      if (c.e["dense"]) return Collect(c.e, DenseArrayHasOp()(Off<T>(a[0], fs[0])));
      return Collect(c.e, ArrayHasOp()(Arr<T>(a[0], fs[0])));
    }
    std::exit(77);
  }
  if (f == "has") return R<HasOp, O<T>>(c);
  if (f == "pnot") return L<PresenceNotOp, O<T>>(c);
  if (f == "por") {
    if (types == "oo") return carrier == "v" ? R<PresenceOrOp, O<T>, O<T>>(c) : R<PresenceOrOp, O<T>, O<T>>(c);
    if (types == "os") return R<PresenceOrOp, O<T>, T>(c);
    if (types == "so") return R<PresenceOrOp, T, O<T>>(c);
    return R<PresenceOrOp, T, T>(c);
  }
  if (f == "pand") {
    if (types == "oo") return R<PresenceAndOp, O<T>, OptionalUnit>(c);
    if (types == "so") return R<PresenceAndOp, T, OptionalUnit>(c);
    return R<PresenceAndOp, T, Unit>(c);
  }
  if (f == "where") {
    if (types == "ooo") return R<WhereOp, OptionalUnit, O<T>, O<T>>(c);
    return R<WhereOp, OptionalUnit, T, T>(c);
  }
  if (f == "andor") {
    if (types == "ooo") return R<PresenceAndOrOp, O<T>, OptionalUnit, O<T>>(c);
    if (types == "oos") return R<PresenceAndOrOp, O<T>, OptionalUnit, T>(c);
    if (types == "soo") return R<PresenceAndOrOp, T, OptionalUnit, O<T>>(c);
    return R<PresenceAndOrOp, T, OptionalUnit, T>(c);
  }
  if constexpr (!std::is_same_v<T, Unit> && !std::is_same_v<T, Text>) {
    if (f == "lt") return L<MaskLessOp, T, T>(c);
    if (f == "le") return L<MaskLessEqualOp, T, T>(c);
    if (f == "eq") return L<MaskEqualOp, T, T>(c);
    if (f == "ne") return L<MaskNotEqualOp, T, T>(c);
    if (f == "if") return c.e["types"] == "ooo" ? L<LogicalIfOp, O<bool>, O<T>, O<T>, O<T>>(c) : R<LogicalIfOp, O<bool>, T, T, T>(c);
  }
  std::exit(77);
}

// The same through callbacks for the arguments that may be skipped; an argument
// that is computed without being needed is reported as 99.
template <class T> json Lazy(const std::string& f, const Rows& a) {
  json r = json::array();
  for (size_t k = 0; k < (a.empty() ? 0 : a[0].size()); ++k) {
    int calls = 0;
    auto fn = [&](int v) { return [&calls, v] { ++calls; return Opt<T>(v); }; };
    auto sure = [&](int v) { return [&calls, v] { ++calls; return Conv<T>::In(v); }; };
    int res = 98, want = 0;
    if (f == "por") { res = a[1][k] != kM && k % 2 ? Val(PresenceOrOp()(Opt<T>(a[0][k]), sure(a[1][k]))) : Val(PresenceOrOp()(Opt<T>(a[0][k]), fn(a[1][k]))); want = a[0][k] == kM; }
    else if (f == "pand") {
      if (a[0][k] != kM && k % 2) res = Val(PresenceAndOp()(sure(a[0][k]), OptionalUnit(a[1][k] != kM)));
      else res = Val(PresenceAndOp()(fn(a[0][k]), OptionalUnit(a[1][k] != kM)));
      want = a[1][k] != kM;
    }
    else if (f == "where") { res = Val(WhereOp()(OptionalUnit(a[0][k] != kM), fn(a[1][k]), fn(a[2][k]))); want = 1; }
    else if (f == "andor") { res = Val(PresenceAndOrOp()(Opt<T>(a[0][k]), OptionalUnit(a[1][k] != kM), fn(a[2][k]))); want = a[0][k] == kM || a[1][k] == kM; }
    else if (f == "if") { res = Val(LogicalIfOp()(Opt<bool>(a[0][k]), fn(a[1][k]), fn(a[2][k]), fn(a[3][k]))); want = 1; }
    else return json::array();
    r.push_back(calls == want ? res : 99);
  }
  return r;
}

void Run(json& e) {
  Call c{e, {}};
  for (auto& x : e["args"]) c.args.push_back(x.get<std::vector<int>>());
  std::string f = e["f"], t = e["t"], types = e["types"];
  e["ok"] = true; e["lazy"] = json::array();
  if (f == "and") { types == "ss" ? R<LogicalAndOp, bool, bool>(c) : L<LogicalAndOp, O<bool>, O<bool>>(c); return; }
  if (f == "or") { types == "ss" ? R<LogicalOrOp, bool, bool>(c) : L<LogicalOrOp, O<bool>, O<bool>>(c); return; }
  if (f == "not") { L<LogicalNotOp, bool>(c); return; }
  if (f == "if" && e["carrier"] == "ic") {  // array condition, constant branches
    EvaluationContext ctx;
    Collect(e, LogicalIfOp()(&ctx, DArg<bool>(c.args[0], e["forms"][0]), Opt<int>(c.args[1][0]), Opt<int>(c.args[2][0]), Opt<int>(c.args[3][0])));
    return;
  }
  if (t == "i") Generic<int32_t>(c, f, types);
  else if (t == "t") Generic<Text>(c, f, types);
  else Generic<Unit>(c, f, types);
  if (e["carrier"] == "v") e["lazy"] = t == "i" ? Lazy<int32_t>(f, c.args) : json::array();
}
}  // namespace

int main(int argc, char** argv) { return DriverMain(argc, argv, {{"logic", Run}}); }
