#include <algorithm>
#include <functional>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include "common/driver.h"
#include "arolla/array/array.h"
#include "arolla/array/array_util.h"
#include "arolla/array/id_filter.h"
#include "arolla/array/ops_util.h"
#include "arolla/array/pointwise_op.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"

using namespace arolla;

namespace {
constexpr int kM = -1;
template <class T> struct Conv {
  static T In(int v) { return static_cast<T>(v); }
  static int Out(T v) { return v > 1000000 || v < -1000000 ? 1000001 : static_cast<int>(v); }
};
template <> struct Conv<Text> {  // strings of various lengths
  static Text In(int v) { return Text(std::to_string(v) + std::string(v % 5, '#')); }
  static int Out(absl::string_view s) {
    int v = 0; size_t p = 0;
    while (p < s.size() && p < 7 && s[p] >= '0' && s[p] <= '9') v = v * 10 + (s[p++] - '0');
    if (p == 0 || s.size() != p + v % 5) return 1000002;
    for (; p < s.size(); ++p) if (s[p] != '#') return 1000003;
    return v;
  }
};
template <> struct Conv<Unit> {
  static Unit In(int) { return {}; }
  static int Out(Unit) { return 0; }
};

struct Machine { virtual ~Machine() = default; virtual void Run(json& e) = 0; };

template <class T>
struct Typed : Machine {
  using V = view_type_t<T>;
  using OV = OptionalValue<V>;
  using OT = OptionalValue<T>;
  using C = Conv<T>;
  Array<T> a[5];
  DenseArray<T> d[7];
  json last[7];
  std::list<Array<T>> keep;
  std::list<DenseArray<T>> dkeep;
  std::unique_ptr<UnsafeArenaBufferFactory> arena;
  RawBufferFactory* fac = GetHeapBufferFactory();
  explicit Typed(const std::string& f) {
    if (f == "arena") { arena = std::make_unique<UnsafeArenaBufferFactory>(512); fac = arena.get(); }
    for (auto& x : last) x = json::array();
  }
  static OT Opt(int v) { if (v == kM) return {}; return OT(C::In(v)); }
  static int Of(bool present, V v) { return present ? C::Out(v) : kM; }
  template <class O> static int OfO(const O& o) { return o.present ? C::Out(o.value) : kM; }
  static std::vector<OT> Opts(const json& v) { std::vector<OT> r; for (auto& x : v) r.push_back(Opt(x.get<int>())); return r; }

  template <class A> static json Read(const A& x) { json r = json::array(); for (int64_t i = 0; i < x.size(); ++i) r.push_back(OfO(x[i])); return r; }
  static std::string Fp(const Array<T>& x) { return FingerprintHasher("a").Combine(x).Finish().AsString(); }
  static std::string Fp(const DenseArray<T>& x) { return FingerprintHasher("d").Combine(x).Finish().AsString(); }

  void ObserveArray(const Array<T>& x, json& e) {
    json fe = json::array(), fer = json::array(), fp = json::array(), fpr = json::array();
    bool wf = true;
    x.ForEach([&](int64_t id, bool p, V v) { wf = wf && id == (int64_t)fe.size(); fe.push_back(Of(p, v)); });
    x.ForEach([&](int64_t id, bool p, V v) { wf = wf && id == (int64_t)fer.size(); fer.push_back(Of(p, v)); },
              [&](int64_t id, int64_t n, bool p, V v) { wf = wf && id == (int64_t)fer.size(); while (n-- > 0) fer.push_back(Of(p, v)); });
    x.ForEachPresent([&](int64_t id, V v) { fp.push_back({id, C::Out(v)}); });
    x.ForEachPresent([&](int64_t id, V v) { fpr.push_back({id, C::Out(v)}); },
                     [&](int64_t id, int64_t n, V v) { while (n-- > 0) fpr.push_back({id++, C::Out(v)}); });
    // The claims about the form agree with the contents.
    int64_t n = x.size(), present = 0;
    for (auto& v : fe) present += v.get<int>() != kM;
    if (x.IsAllMissingForm()) wf = wf && present == 0;
    if (x.IsFullForm()) wf = wf && present == n;
    wf = wf && x.IsConstForm() + x.IsDenseForm() + x.IsSparseForm() == 1 && x.empty() == (n == 0);
    if (x.IsConstForm()) for (auto& v : fe) wf = wf && v.get<int>() == OfO(x.missing_id_value());
    if (x.IsSparseForm()) {
      const IdFilter& f = x.id_filter();
      wf = wf && f.ids().size() > 0 && f.ids().size() < n && f.ids().size() == x.dense_data().size();
      int64_t prev = -1;
      for (int64_t k = 0; k < f.ids().size(); ++k) {
        int64_t id = f.IdsOffsetToId(k);
        wf = wf && id > prev && id < n && f.IdToOffset(id).present && f.IdToOffset(id).value == k;
        prev = id;
      }
      for (int64_t k = 0; k < n; ++k) if (!f.IdToOffset(k).present) wf = wf && fe[k].get<int>() == OfO(x.missing_id_value());
    }
    if (x.IsDenseForm()) wf = wf && x.dense_data().size() == n;
    wf = wf && x.dense_data().CheckBitmapMatchesValues();
    e["fe"] = fe; e["fer"] = fer; e["fp"] = fp; e["fpr"] = fpr; e["cnt"] = x.PresentCount(); e["wf"] = wf;
  }
  void ObserveDense(const DenseArray<T>& x, json& e) {
    json fe = json::array(), fer = json::array(), fp = json::array(), fpr = json::array();
    bool wf = x.CheckBitmapMatchesValues();
    x.ForEach([&](int64_t id, bool p, V v) { wf = wf && id == (int64_t)fe.size(); fe.push_back(Of(p, v)); });
    x.ForEachByGroups([&](int64_t off) {
      wf = wf && off == (int64_t)fer.size();
      return [&, off](int64_t id, bool p, V v) { wf = wf && id == (int64_t)fer.size() && id >= off; fer.push_back(Of(p, v)); };
    });
    x.ForEachPresent([&](int64_t id, V v) { fp.push_back({id, C::Out(v)}); });
    (void)DenseArraysForEachPresent([&](int64_t id, V v) { fpr.push_back({id, C::Out(v)}); }, x);
    int64_t n = x.size(), present = 0;
    for (auto& v : fe) present += v.get<int>() != kM;
    wf = wf && x.IsFull() == (present == n) && x.IsAllPresent() == (present == n) && x.IsAllMissing() == (present == 0) && x.empty() == (n == 0);
    e["fe"] = fe; e["fer"] = fer; e["fp"] = fp; e["fpr"] = fpr; e["cnt"] = x.PresentCount(); e["wf"] = wf;
  }
  void Observe(json& e) {
    int i = e["i"];
    json chg = json::array();
    for (int j = 1; j <= 6; ++j) {
      json v = j <= 4 ? Read(a[j]) : Read(d[j]);
      if (j == i) e["vals"] = v;
      else if (v != last[j]) chg.push_back(j);
      last[j] = v;
    }
    e["chg"] = chg;
    json eq = json::array(), fg = json::array(), it = json::array();
    if (i <= 4) {
      ObserveArray(a[i], e);
      for (auto v : a[i]) it.push_back(OfO(v));
      for (int j = 1; j <= 4; ++j) { eq.push_back(ArraysAreEquivalent(a[i], a[j]) && ArraysAreEquivalent(a[j], a[i])); fg.push_back(Fp(a[i]) == Fp(a[j])); }
    } else {
      ObserveDense(d[i], e);
      for (auto v : d[i]) it.push_back(OfO(v));
      for (int j = 1; j <= 4; ++j) { eq.push_back(false); fg.push_back(false); }
      for (int j = 5; j <= 6; ++j) { eq.push_back(ArraysAreEquivalent(d[i], d[j]) && ArraysAreEquivalent(d[j], d[i])); fg.push_back(Fp(d[i]) == Fp(d[j])); }
    }
    e["it"] = it; e["eq"] = eq; e["fg"] = fg;
  }

  // A dense array with the given contents; `shift` unused bits and elements precede it.
  DenseArray<T> Dense(const std::vector<OT>& v, int shift, bool bm) {
    bool full = true;
    for (auto& x : v) full = full && x.present;
    if (full && !bm) {
      typename Buffer<T>::Builder b(v.size(), fac);
      for (size_t k = 0; k < v.size(); ++k) b.Set(k, v[k].value);
      return {std::move(b).Build()};
    }
    std::vector<OT> w;
    for (int k = 0; k < shift; ++k) w.push_back(k % 3 ? Opt(7) : Opt(kM));
    w.insert(w.end(), v.begin(), v.end());
    int64_t n = w.size();
    typename Buffer<T>::Builder vb(n, fac);
    bitmap::Bitmap::Builder bb(bitmap::BitmapSize(n), fac);
    auto span = bb.GetMutableSpan();
    for (auto& x : span) x = 0xA5A5A5A5u;  // the bits beyond the end mean nothing
    for (int64_t k = 0; k < n; ++k) {
      if (w[k].present) vb.Set(k, w[k].value); else vb.Set(k, C::In(9));
      if (w[k].present) bitmap::SetBit(span.begin(), k); else bitmap::UnsetBit(span.begin(), k);
    }
    DenseArray<T> r{std::move(vb).Build(), std::move(bb).Build()};
    return shift ? r.Slice(shift, v.size()) : r;
  }
  IdFilter Filter(int64_t size, const json& ids, int64_t off) {
    typename Buffer<int64_t>::Builder b(ids.size(), fac);
    for (size_t k = 0; k < ids.size(); ++k) b.Set(k, ids[k].get<int64_t>() + off);
    return IdFilter(size, std::move(b).Build(), off);
  }
  static json Ids(const IdFilter& f, int64_t n) { json r = json::array(); for (int64_t k = 0; k < n; ++k) if (f.IdToOffset(k).present) r.push_back(k); return r; }

  // ------------------------------------------------------------ pointwise
  template <class Op, class... As> bool Finish(json& e, int i, Op&& op, const As&... as) {
    if constexpr (IsStatusOrT<std::decay_t<decltype(op(as...))>>::value) {
      auto r = op(as...);
      e["ok"] = r.ok();
      if (!r.ok()) return false;
      Put(i, *std::move(r));
    } else {
      Put(i, op(as...));
      e["ok"] = true;
    }
    return true;
  }
  void Put(int i, Array<T> x) { a[i] = std::move(x); }
  void Put(int i, DenseArray<T> x) { d[i] = std::move(x); }
  template <int flags, class Fn, class... Js> bool Do(json& e, Fn fn, Js... js) {
    int i = e["i"];
    if (i <= 4) return Finish(e, i, CreateArrayOp<flags & ~DenseOpFlags::kNoBitmapOffset, Fn, T>(fn, fac), a[js]...);
    if (flags & DenseOpFlags::kNoBitmapOffset)
      return Finish(e, i, CreateDenseOp<flags, Fn, T>(fn, fac), d[js].ForceNoBitmapBitOffset()...);
    return Finish(e, i, CreateDenseOp<flags & ~DenseOpFlags::kNoBitmapOffset, Fn, T>(fn, fac), d[js]...);
  }
  static T Mk(int v) { return C::In(v); }
  bool Pointwise(json& e) {
    std::string f = e["f"];
    int x = e["js"][0], y = e["js"].size() > 1 ? e["js"][1].get<int>() : 0, z = e["js"].size() > 2 ? e["js"][2].get<int>() : 0;
    constexpr int R = DenseOpFlags::kRunOnMissing;
    // Numbers outside of the arrays (e.g. behind missing values) must do no harm.
    auto num = [](V v) { return C::Out(v); };
    if (f == "inc") return Do<R>(e, [=](V v) { return Mk(num(v) + 1); }, x);
    if (f == "inc0") return Do<0>(e, [=](V v) { return Mk(num(v) + 1); }, x);
    if (f == "even") return Do<0>(e, [=](V v) -> OT { if (num(v) % 2) return {}; return Mk(num(v)); }, x);
    if (f == "not") return Do<R>(e, [=](OV v) -> OT { if (v.present) return {}; return Mk(0); }, x);
    if (f == "add") return Do<R>(e, [=](V v, V w) { return Mk(num(v) + num(w)); }, x, y);
    if (f == "add0") return Do<0>(e, [=](V v, V w) { return Mk(num(v) + num(w)); }, x, y);
    if (f == "add3") return Do<R | DenseOpFlags::kNoBitmapOffset>(e, [=](V v, V w, V u) { return Mk(num(v) + num(w) + num(u)); }, x, y, z);
    if (f == "or") return Do<R>(e, [=](OV v, OV w) -> OT { if (v.present) return Mk(num(v.value)); if (w.present) return Mk(num(w.value)); return {}; }, x, y);
    if (f == "orreq") return Do<0>(e, [=](OV v, V w) { return v.present ? Mk(num(v.value)) : Mk(num(w)); }, x, y);
    if (f == "drop") return Do<0>(e, [=](V v, OV w) -> OT { if (w.present) return {}; return Mk(num(v)); }, x, y);
    if (f == "div") return Do<0>(e, [=](V v, V w) -> absl::StatusOr<T> { if (num(w) == 0) return absl::InvalidArgumentError("zero"); return Mk(num(v) / num(w)); }, x, y);
    if (f == "divopt") return Do<R>(e, [=](V v, OV w) -> absl::StatusOr<OT> { if (!w.present) return OT{}; if (num(w.value) == 0) return absl::InvalidArgumentError("zero"); return OT(Mk(num(v) / num(w.value))); }, x, y);
    std::exit(77);
  }

  void Run(json& e) override {
    std::string op = e["op"];
    int i = e.contains("i") ? e["i"].get<int>() : 0, j = e.contains("j") ? e["j"].get<int>() : 0, k = e.contains("k") ? e["k"].get<int>() : 0;
    if (op == "const") {
      int64_t n = e["n"]; OT v = Opt(e["v"]);
      if (i <= 4) a[i] = Array<T>(n, v);
      else d[i] = v.present ? CreateConstDenseArray<T>(n, v.value, fac) : CreateEmptyDenseArray<T>(n, fac);
    } else if (op == "lit") {
      auto v = Opts(e["v"]);
      int how = e.contains("how") ? e["how"].get<int>() : 0;
      if (i > 4) {
        if (how == 1) d[i] = CreateDenseArray<T>(absl::Span<const OT>(v), fac);
        else if (how == 2) {
          std::vector<std::optional<T>> w;
          for (auto& x : v) w.push_back(x.present ? std::optional<T>(x.value) : std::nullopt);
          d[i] = CreateDenseArray<T>(w.begin(), w.end(), fac);
        } else d[i] = Dense(v, e["shift"], e["bm"]);
      } else if (how == 1) {
        a[i] = CreateArray<T>(absl::Span<const OT>(v));
      } else {
        std::vector<OT> w;
        for (auto& id : e["ids"]) w.push_back(v[id.get<int>()]);
        DenseArray<T> dd = Dense(w, e["shift"], e["bm"]);
        if (w.size() == v.size() && how == 2) a[i] = Array<T>(std::move(dd));
        else if (w.empty()) a[i] = Array<T>(v.size(), IdFilter::kEmpty, {}, Opt(e["miss"]));
        else a[i] = Array<T>(v.size(), Filter(v.size(), e["ids"], e["off"]), std::move(dd), Opt(e["miss"]));
      }
    } else if (op == "create") {
      std::vector<int64_t> ids; for (auto& x : e["ids"]) ids.push_back(x);
      auto vs = Opts(e["vs"]);
      bool full = true; for (auto& x : vs) full = full && x.present;
      if (full && e["n"].get<int>() % 2) {
        std::vector<T> ws; for (auto& x : vs) ws.push_back(x.value);
        a[i] = CreateArray<T, T>(e["n"], ids, absl::Span<const T>(ws));
      } else a[i] = CreateArray<T, OT>(e["n"], ids, absl::Span<const OT>(vs));
    } else if (op == "sparse") {
      SparseArrayBuilder<T> b(e["n"], e["max"].get<int64_t>(), fac);
      auto vs = Opts(e["vs"]);
      std::vector<int64_t> offs;
      for (size_t p = 0; p < vs.size(); ++p) {
        if (e["late"]) { offs.push_back(b.NextOffset()); b.AddId(e["ids"][p]); } else b.Add(e["ids"][p].template get<int64_t>(), vs[p]);
      }
      for (size_t p = offs.size(); p-- > 0;) b.SetByOffset(offs[p], vs[p]);
      a[i] = std::move(b).Build();
    } else if (op == "build") {
      DenseArrayBuilder<T> b(e["max"].get<int64_t>(), fac);
      for (auto& s : e["steps"]) {
        int64_t at = s["at"], n = s["n"]; int v = s["v"]; int how = s["how"];
        if (n == 1 && how % 2) { if (v == kM) b.Set(at, std::nullopt); else if (how == 1) b.Set(at, C::In(v)); else b.Set(at, std::optional<T>(C::In(v))); }
        else if (n == 1) b.Add(at, Opt(v));
        else if (how == 0 || v == kM) b.SetNConst(at, n, Opt(v));
        else if (how == 1) b.SetNConst(at, n, C::In(v));
        else b.SetNConst(at, n, std::optional<T>(C::In(v)));
      }
      d[i] = e["n"] == e["max"] ? std::move(b).Build() : std::move(b).Build(e["n"].get<int64_t>());
    } else if (op == "with") {
      const Array<T>& src = a[j];
      IdFilter f = IdFilter::kEmpty;
      if (k) { f = a[k].id_filter(); e["ids"] = Ids(f, src.size()); }
      else if ((int64_t)e["ids"].size() == src.size() && e["off"] == 0) f = IdFilter::kFull;
      else if (e["ids"].empty() && e["off"] == 0) f = IdFilter::kEmpty;
      else f = Filter(src.size(), e["ids"], e["off"]);
      a[i] = src.WithIds(f, Opt(e["m"]), fac);
    } else if (op == "same") {
      std::string how = e["how"];
      bool fg = false;
      if (i <= 4) {
        Array<T> r;
        if (how == "dense") r = a[j].ToDenseForm(fac);
        else if (how == "sparse") r = a[j].ToSparseForm(Opt(e["m"]), fac);
        else if (how == "owned") r = a[j].MakeOwned(fac);
        else if (how == "unowned") { keep.push_back(a[j]); r = a[j].MakeUnowned(); }
        else if (how == "copy") r = a[j];
        else if (how == "of") r = Array<T>(d[j]);
        else std::exit(77);
        if (j <= 4) fg = Fp(r) == Fp(a[j]);
        a[i] = std::move(r);
      } else {
        DenseArray<T> r;
        if (how == "owned") r = d[j].MakeOwned(fac);
        else if (how == "unowned") { dkeep.push_back(d[j]); r = d[j].MakeUnowned(); }
        else if (how == "copy") r = d[j];
        else if (how == "force") r = d[j].ForceNoBitmapBitOffset(fac);
        else if (how == "of") r = ToDenseArray(a[j]);
        else std::exit(77);
        if (j > 4) fg = Fp(r) == Fp(d[j]);
        d[i] = std::move(r);
      }
      e["fgsrc"] = fg;
    } else if (op == "slice") {
      if (i <= 4) a[i] = a[j].Slice(e["off"], e["n"]); else d[i] = d[j].Slice(e["off"], e["n"]);
    } else if (op == "pw") {
      if (!Pointwise(e)) return;
    } else if (op == "mask") {
      json r = json::array();
      if (j <= 4) { Array<Unit> m = ToArrayMask(a[j]); for (int64_t p = 0; p < m.size(); ++p) r.push_back(m[p].present ? 0 : kM); }
      else { DenseArray<Unit> m = d[j].ToMask(); for (int64_t p = 0; p < m.size(); ++p) r.push_back(m[p].present ? 0 : kM); }
      e["res"] = r; return;
    } else if (op == "ends") {
      e["first"] = ArrayFirstPresentIds(ToArrayMask(a[j]), e["n"]); e["last"] = ArrayLastPresentIds(ToArrayMask(a[j]), e["n"]); return;
    } else if (op == "subset") {
      json r = json::array(); int off = e["off"];
      auto fn = [&](int64_t id, bool p, V v) { r.push_back({id, Of(p, v)}); };
      if (e["wide"]) { std::vector<int64_t> s; for (auto& x : e["ids"]) s.push_back(x.get<int>() + off); ArrayForEachInSubset(a[j], absl::Span<const int64_t>(s), off, fn); }
      else { std::vector<int> s; for (auto& x : e["ids"]) s.push_back(x.get<int>() + off); ArrayForEachInSubset(a[j], absl::Span<const int>(s), off, fn); }
      e["res"] = r; return;
    } else if (op == "buffer") {
      auto b = ToBuffer(a[j]);
      e["ok"] = b.ok(); e["res"] = json::array();
      if (b.ok()) for (const auto& v : *b) e["res"].push_back(C::Out(v));
      return;
    } else if (op == "iter") {
      json r = json::array();
      auto fn = [&](int64_t id, V v, OV w) { r.push_back({id, C::Out(v), OfO(w)}); };
      if (e["dense"]) ArraysIterateDense(fn, a[j], a[k]); else ArraysIterate(fn, a[j], a[k]);
      e["res"] = r; return;
    } else if (op == "rows") {
      json r = json::array(); bool ok = true;
      auto fn = [&](int64_t id, V v, OV w) { r.push_back({id, C::Out(v), OfO(w)}); };
      auto miss = [&](int64_t id, int64_t n) { for (; n > 0; --n, ++id) r.push_back({id, -3, -3}); };
      auto rep = [&](int64_t id, int64_t n, V v, OV w) { for (; n > 0; --n, ++id) r.push_back({id, C::Out(v), OfO(w)}); };
      using L = meta::type_list<T, OptionalValue<T>>;
      if (e["dense"]) { array_ops_internal::ArrayOpsUtil<true, L> u(a[j].size(), a[j], a[k], fac); u.Iterate(e["from"].get<int64_t>(), e["to"].get<int64_t>(), fn, miss, rep); e["upper"] = u.PresentCountUpperEstimate(); }
      else { array_ops_internal::ArrayOpsUtil<false, L> u(a[j].size(), a[j], a[k], fac); u.Iterate(e["from"].get<int64_t>(), e["to"].get<int64_t>(), fn, miss, rep); e["upper"] = u.PresentCountUpperEstimate(); }
      (void)ok;
      e["res"] = r; return;
    } else if (op == "ids") {
      int64_t n = a[j].size();
      const IdFilter &f = a[j].id_filter(), &g = a[k].id_filter();
      e["ij"] = Ids(f, n); e["ik"] = Ids(g, n);
      e["u"] = Ids(IdFilter::UpperBoundMerge(n, fac, f, g), n);
      e["x"] = Ids(IdFilter::UpperBoundIntersect(f, g), n);
      bool part = f.type() == IdFilter::kPartial && g.type() == IdFilter::kPartial;
      e["part"] = part; e["t"] = json::array();
      if (part) IdFilter::IntersectPartial_ForEach(f, g, [&](int64_t id, int64_t o1, int64_t o2) { e["t"].push_back({id, o1, o2}); });
      return;
    } else {
      std::exit(77);
    }
    Observe(e);
  }
};

std::unique_ptr<Machine> machine;
}  // namespace

int main(int argc, char** argv) {
  Handler run = [](json& e) { machine->Run(e); };
  std::map<std::string, Handler> h;
  for (const char* op : {"const", "lit", "create", "sparse", "build", "with", "same", "slice", "pw", "mask", "ends", "subset", "buffer", "iter", "rows", "ids"}) h[op] = run;
  h["begin"] = [](json& e) {
    std::string k = e["kind"], f = e["fac"];
    machine.reset();
    if (k == "i32") machine = std::make_unique<Typed<int32_t>>(f);
    else if (k == "text") machine = std::make_unique<Typed<Text>>(f);
    else machine = std::make_unique<Typed<Unit>>(f);
  };
  return DriverMain(argc, argv, h);
}
