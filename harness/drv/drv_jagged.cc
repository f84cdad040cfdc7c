// Jagged shapes on dense array and array edges; concatenation and stacking.
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#include "common/driver.h"
#include "common/edgelib.h"
#include "arolla/jagged_shape/array/jagged_shape.h"
#include "arolla/jagged_shape/array/util/concat.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "arolla/jagged_shape/dense_array/util/concat.h"
#include "arolla/jagged_shape/jagged_shape.h"
#include "arolla/jagged_shape/qexpr/shape_operators.h"
#include "arolla/jagged_shape/util/concat.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/repr.h"

namespace {
struct Machine { virtual ~Machine() = default; virtual void Run(json& e) = 0; };

template <class K> struct Typed : Machine {
  using E = typename K::E;
  using S = JaggedShape<E>;
  Env env;
  S reg[5];
  json last[5];
  explicit Typed(const json& e) : env(e) { for (int i = 1; i <= 4; ++i) last[i] = Dims(reg[i]); }

  static json Dims(const S& s) { json r = json::array(); for (auto& x : s.edges()) r.push_back(Show(x)); return r; }
  static std::string Fp(const S& s) { return FingerprintHasher("s").Combine(s).Finish().AsString(); }
  bool Edges(const json& ds, std::vector<E>& es, json& e) {
    for (auto& d : ds) { auto r = MakeEdge<K>(d, env); if (!r.ok()) { e["badedge"] = true; return false; } es.push_back(*r); }
    return true;
  }
  void Observe(json& e) {
    int i = e["i"];
    json chg = json::array();
    for (int j = 1; j <= 4; ++j) { json d = Dims(reg[j]); if (j != i && d != last[j]) chg.push_back(j); last[j] = d; }
    e["chg"] = chg;
    S& s = reg[i];
    e["dims"] = last[i];
    e["rank"] = s.rank(); e["size"] = s.size();
    e["oprank"] = JaggedShapeRankOp<S>()(s); e["opsize"] = JaggedShapeSizeOp<S>()(s);
    e["repr"] = Repr(s);
    for (const char* n : {"eq", "fast", "bc", "cb", "fg", "opeq", "opbc", "bce"}) e[n] = json::array();
    for (int j = 1; j <= 4; ++j) {
      S& t = reg[j];
      e["eq"].push_back(s.IsEquivalentTo(t));
      e["opeq"].push_back(JaggedShapeEqualOp<S>()(t, s).present);
      auto f = s.FastEquivalenceCheck(t), g = t.FastEquivalenceCheck(s);
      e["fast"].push_back({f.IsGuaranteedEq(), f.IsGuaranteedNotEq(), f.AreAllSizesEqual(), f == g});
      e["bc"].push_back(s.IsBroadcastableTo(t));
      e["cb"].push_back(t.IsBroadcastableTo(s));
      e["opbc"].push_back(JaggedShapeIsBroadcastableToOp<S>()(s, t).present);
      e["bce"].push_back(s.IsBroadcastableTo(t) ? Show(s.GetBroadcastEdge(t, *env.fac)) : json(false));
      e["fg"].push_back(Fp(s) == Fp(t));
    }
  }
  void Try(json& e, const absl::StatusOr<S>& r) {
    e["ok"] = r.ok();
    if (!r.ok()) { e["err"] = std::string(r.status().message()); return; }
    reg[e["i"].get<int>()] = *r;
    Observe(e);
  }
  void Run(json& e) override {
    std::string op = e["op"];
    auto R = [&](const char* n) -> S& { return reg[e[n].get<int>()]; };
    if (op == "edges") { std::vector<E> es; if (!Edges(e["es"], es, e)) return; return Try(e, S::FromEdges(es, *env.fac)); }
    if (op == "add") { std::vector<E> es; if (!Edges(e["es"], es, e)) return; return Try(e, R("j").AddDims(es, *env.fac)); }
    if (op == "flat") { R("i") = S::FlatFromSize(e["n"].get<int>(), *env.fac); return Observe(e); }
    if (op == "copy") { S t = R("j"); R("i") = std::move(t); return Observe(e); }
    if (op == "remove") { R("i") = e["byop"] ? JaggedShapeRemoveDimsOp<S>()(R("j"), e["from"].get<int>()) : R("j").RemoveDims(e["from"].get<int>()); return Observe(e); }
    if (op == "flatten") {
      R("i") = e["byop"] ? JaggedShapeFlattenOp<S>()(R("j"), e["from"].get<int>(), e["to"].get<int>()) : R("j").FlattenDims(e["from"].get<int>(), e["to"].get<int>(), *env.fac);
      return Observe(e);
    }
    if (op == "edgeat") { auto r = JaggedShapeEdgeAtOp<S>()(R("j"), e["dim"].get<int>()); e["edge"] = ShowOr(r); return; }
    if (op == "join") {
      std::vector<S> in;
      for (auto& j : e["js"]) in.push_back(reg[j.get<int>()]);
      absl::Span<const S> span(in);
      bool stack = e["stack"]; int d = e["d"];
      if (!e.contains("args")) return Try(e, stack ? StackJaggedShapesAlongDimension(span, d) : ConcatJaggedShapesAlongDimension(span, d));
      std::string t = e["t"];
      if (t == "i") Join<int64_t>(e, span, stack, d); else if (t == "t") Join<Text>(e, span, stack, d); else Join<Unit>(e, span, stack, d);
      return;
    }
    std::exit(77);
  }
  template <class T> void Join(json& e, absl::Span<const S> shapes, bool stack, int d) {
    using A = typename K::template A<T>;
    std::vector<A> in;
    for (auto& x : e["args"]) in.push_back(K::template Make<T>(x));
    absl::Span<const A> arrays(in);
    auto r = stack ? StackJaggedArraysAlongDimension(arrays, shapes, d) : ConcatJaggedArraysAlongDimension(arrays, shapes, d);
    if (!r.ok()) { e["ok"] = false; return; }
    e["res"] = ReadChecked<T>(std::get<0>(*r));
    Try(e, std::get<1>(*r));
  }
};
std::unique_ptr<Machine> machine;
}  // namespace

int main(int argc, char** argv) {
  Handler run = [](json& e) { machine->Run(e); };
  std::map<std::string, Handler> h;
  for (const char* op : {"edges", "add", "flat", "copy", "remove", "flatten", "edgeat", "join"}) h[op] = run;
  h["begin"] = [](json& e) {
    machine.reset();
    if (e["arr"] == "d") machine = std::make_unique<Typed<DenseKind>>(e); else machine = std::make_unique<Typed<ArrayKind>>(e);
  };
  return DriverMain(argc, argv, h);
}
