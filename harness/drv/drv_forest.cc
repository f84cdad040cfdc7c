// Decision forests: every evaluator on the same rows.
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "common/driver.h"
#include "absl/container/flat_hash_set.h"
#include "arolla/array/array.h"
#include "arolla/array/qtype/types.h"
#include "arolla/decision_forest/batched_evaluation/batched_forest_evaluator.h"
#include "arolla/decision_forest/decision_forest.h"
#include "arolla/decision_forest/pointwise_evaluation/forest_evaluator.h"
#include "arolla/decision_forest/qexpr_operator/batched_operator.h"
#include "arolla/decision_forest/qexpr_operator/pointwise_operator.h"
#include "arolla/decision_forest/split_conditions/interval_split_condition.h"
#include "arolla/decision_forest/split_conditions/set_of_values_split_condition.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qexpr/qexpr_operator_signature.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/util/bytes.h"
using namespace arolla;

namespace {
constexpr int kMissing = -99, kNan = 99, kNegZero = 98;

// An order preserving map of small integers to floats: 3k+e is the value of
// step k, or its neighbour.
float F(int c) {
  if (c == kNan) return std::numeric_limits<float>::quiet_NaN();
  if (c == kNegZero) return -0.0f;
  int k = (c + 300) / 3 - 100, e = (c + 300) % 3;
  if (e == 2) { e = -1; ++k; }
  const float inf = std::numeric_limits<float>::infinity();
  int a = std::abs(k);
  float f = a <= 8 ? a * 0.5f : a == 9 ? 2e38f : a == 10 ? std::numeric_limits<float>::max() : inf;
  if (k < 0) f = -f;
  if (e && a > 10) return f;
  return e == 0 ? f : std::nextafter(f, e > 0 ? inf : -inf);
}
int64_t I(int c) {
  const int64_t m = std::numeric_limits<int64_t>::max();
  if (c >= 12) return m - (20 - c);
  if (c <= -12) return -m - 1 + (20 + c);
  return c;
}
Bytes S(int c) { return Bytes("t" + std::to_string(c)); }

QTypePtr Type(const std::string& t) {
  return t == "f" ? GetOptionalQType<float>() : t == "i" ? GetOptionalQType<int64_t>() : GetOptionalQType<Bytes>();
}
std::shared_ptr<const SplitCondition> Cond(const json& c) {
  int in = c["in"];
  std::string k = c["k"];
  if (k == "iv") return IntervalSplit(in, F(c["a"]), F(c["b"]));
  bool miss = c["miss"];
  if (k == "fset") { absl::flat_hash_set<float> s; for (auto& v : c["vs"]) s.insert(F(v)); return SetOfValuesSplit<float>(in, s, miss); }
  if (k == "iset") { absl::flat_hash_set<int64_t> s; for (auto& v : c["vs"]) s.insert(I(v)); return SetOfValuesSplit<int64_t>(in, s, miss); }
  absl::flat_hash_set<Bytes> s;
  for (auto& v : c["vs"]) s.insert(S(v));
  return SetOfValuesSplit<Bytes>(in, s, miss);
}
DecisionTreeNodeId Id(int x) { return x < 0 ? DecisionTreeNodeId::AdjustmentId(-x - 1) : DecisionTreeNodeId::SplitNodeId(x); }
DecisionTree Tree(const json& t) {
  DecisionTree r;
  for (auto& n : t["nodes"]) r.split_nodes.push_back({Id(n["f"]), Id(n["t"]), Cond(n["c"])});
  for (auto& a : t["adj"]) r.adjustments.push_back(a.get<int>());
  r.weight = t["w"].get<int>();
  r.tag = {.step = t["step"], .submodel_id = t["sub"]};
  return r;
}
TreeFilter Filter(const json& f) {
  TreeFilter r{.step_range_from = f["from"], .step_range_to = f["to"]};
  for (auto& s : f["subs"]) r.submodels.insert(s.get<int>());
  return r;
}
json Num(float f) { return f == std::floor(f) && std::abs(f) < 1e6 ? json(int64_t(f)) : json(9999999); }

template <class T> OptionalValue<T> Conv(int c) {
  if (c == kMissing) return {};
  if constexpr (std::is_same_v<T, float>) return F(c);
  if constexpr (std::is_same_v<T, int64_t>) return I(c);
  if constexpr (std::is_same_v<T, Bytes>) return S(c);
}
template <class T> void SetOpt(TypedSlot s, FramePtr f, int c) { f.Set(*s.ToSlot<OptionalValue<T>>(), Conv<T>(c)); }
template <class T> void SetArr(TypedSlot s, FramePtr f, const std::vector<int>& col, int how) {
  std::vector<OptionalValue<T>> v;
  for (int c : col) v.push_back(Conv<T>(c));
  auto d = CreateDenseArray<T>(v);
  if (how == 0) { f.Set(*s.ToSlot<DenseArray<T>>(), d); return; }
  Array<T> a(d);
  if (how == 2) a = a.ToSparseForm();
  if (how == 3 && !v.empty()) a = a.ToSparseForm(v[0]);
  f.Set(*s.ToSlot<Array<T>>(), a);
}
template <class T> QTypePtr ArrType(int how) { return how == 0 ? GetDenseArrayQType<T>() : GetArrayQType<T>(); }

json Table(size_t n, size_t m) { json r = json::array(); for (size_t i = 0; i < n; ++i) { r.push_back(json::array()); for (size_t j = 0; j < m; ++j) r[i].push_back(0); } return r; }

void Forest(json& e) {
  std::vector<DecisionTree> trees;
  for (auto& t : e["trees"]) trees.push_back(Tree(t));
  auto made = DecisionForest::FromTrees(std::move(trees));
  e["valid"] = made.ok();
  if (!made.ok()) return;
  DecisionForestPtr forest = std::move(*made);
  std::vector<std::string> types = e["types"];
  std::vector<std::vector<int>> rows = e["rows"];
  std::vector<TreeFilter> fs;
  for (auto& f : e["filters"]) fs.push_back(Filter(f));
  e["steps"] = forest->step_count(); e["subs"] = forest->submodel_count();
  json req = json::array();  // reached only through ValidateInputSlots
  for (size_t i = 0; i < types.size(); ++i) req.push_back(forest->GetRequiredQTypes().contains(i) && forest->GetRequiredQTypes().at(i) == Type(types[i]));
  e["req"] = req;

  FrameLayout::Builder lb;
  std::vector<TypedSlot> in;
  std::vector<QTypePtr> intypes;
  for (auto& t : types) { intypes.push_back(Type(t)); in.push_back(AddSlot(Type(t), &lb)); }
  std::vector<ForestEvaluator::Output> outs;
  for (auto& f : fs) outs.push_back({f, lb.AddSlot<float>()});
  auto optuple = MakeTupleQType(std::vector<QTypePtr>(fs.size(), GetQType<float>()));
  auto opout = AddSlot(optuple, &lb);
  auto layout = std::move(lb).Build();
  e["slots"] = forest->ValidateInputSlots(in).ok();
  if (!forest->ValidateInputSlots(in).ok()) return;
  MemoryAllocation alloc(&layout);
  FramePtr frame = alloc.frame();
  auto set = [&](const std::vector<int>& row) {
    for (size_t i = 0; i < types.size(); ++i) {
      if (types[i] == "f") SetOpt<float>(in[i], frame, row[i]);
      if (types[i] == "i") SetOpt<int64_t>(in[i], frame, row[i]);
      if (types[i] == "t") SetOpt<Bytes>(in[i], frame, row[i]);
    }
  };
  e["naive"] = Table(fs.size(), rows.size());
  for (size_t j = 0; j < rows.size(); ++j) {
    set(rows[j]);
    for (size_t i = 0; i < fs.size(); ++i) e["naive"][i][j] = Num(DecisionForestNaiveEvaluation(*forest, frame, in, fs[i]));
  }
  // every combination of algorithms
  e["pw"] = json::array();
  for (int p = 1; p < 8; ++p) {
    auto ev = ForestEvaluator::Compile(*forest, in, outs, {.enable_regular_eval = (p & 1) != 0, .enable_bitmask_eval = (p & 2) != 0, .enable_single_input_eval = (p & 4) != 0});
    json r = {{"reg", (p & 1) != 0}, {"ok", ev.ok()}};
    if (ev.ok()) {
      r["v"] = Table(fs.size(), rows.size());
      for (size_t j = 0; j < rows.size(); ++j) {
        set(rows[j]);
        for (auto& o : outs) frame.Set(o.slot, 7777.0f);
        ev->Eval(frame, frame);
        for (size_t i = 0; i < fs.size(); ++i) r["v"][i][j] = Num(frame.Get(outs[i].slot));
      }
    }
    e["pw"].push_back(r);
  }
  if (e["simple"].get<bool>()) {
    auto ev = SimpleForestEvaluator::Compile(*forest, in);
    json r = json::array();
    if (ev.ok()) for (auto& row : rows) { set(row); r.push_back(Num(ev->Eval(frame))); }
    e["sv"] = r;
  }
  // as a pointwise operator
  {
    json r = {{"ok", false}};
    auto op = CreatePointwiseDecisionForestOperator(forest, QExprOperatorSignature::Get(intypes, optuple), fs);
    if (op.ok()) {
      auto b = (*op)->Bind(in, opout);
      if (b.ok()) {
        r["ok"] = true;
        r["v"] = Table(fs.size(), rows.size());
        for (size_t j = 0; j < rows.size(); ++j) {
          set(rows[j]);
          EvaluationContext ctx;
          (*b)->Run(&ctx, frame);
          if (!ctx.status().ok()) r["ok"] = false;
          for (size_t i = 0; i < fs.size(); ++i) r["v"][i][j] = Num(frame.Get(*opout.SubSlot(i).ToSlot<float>()));
        }
      }
    }
    e["op"] = r;
  }
  // batches
  e["batch"] = json::array();
  for (auto& cfg : e["cfgs"]) {
    int how = cfg["how"];
    bool count = cfg["count"], asop = cfg["op"];
    FrameLayout::Builder bl;
    std::vector<TypedSlot> bin, bout;
    std::vector<QTypePtr> btypes;
    for (auto& t : types) {
      QTypePtr q = t == "f" ? ArrType<float>(how) : t == "i" ? ArrType<int64_t>(how) : ArrType<Bytes>(how);
      btypes.push_back(q);
      bin.push_back(AddSlot(q, &bl));
    }
    auto btuple = MakeTupleQType(std::vector<QTypePtr>(fs.size(), ArrType<float>(cfg["out"])));
    auto bo = AddSlot(btuple, &bl);
    for (size_t i = 0; i < fs.size(); ++i) bout.push_back(bo.SubSlot(i));
    auto blayout = std::move(bl).Build();
    MemoryAllocation balloc(&blayout);
    FramePtr bf = balloc.frame();
    for (size_t i = 0; i < types.size(); ++i) {
      std::vector<int> col;
      for (auto& row : rows) col.push_back(row[i]);
      if (types[i] == "f") SetArr<float>(bin[i], bf, col, how);
      if (types[i] == "i") SetArr<int64_t>(bin[i], bf, col, how);
      if (types[i] == "t") SetArr<Bytes>(bin[i], bf, col, how);
    }
    json r = {{"ok", false}};
    auto read = [&] {
      r["v"] = Table(fs.size(), 0);
      for (size_t i = 0; i < fs.size(); ++i) {
        auto put = [&](const auto& a) { for (int64_t j = 0; j < a.size(); ++j) { OptionalValue<float> x = a[j]; r["v"][i].push_back(x.present ? Num(x.value) : json(8888888)); } };
        if (cfg["out"] == 0) put(bf.Get(*bout[i].ToSlot<DenseArray<float>>())); else put(bf.Get(*bout[i].ToSlot<Array<float>>()));
      }
    };
    if (asop) {
      auto op = CreateBatchedDecisionForestOperator(forest, QExprOperatorSignature::Get(btypes, btuple), fs);
      if (op.ok()) {
        auto b = (*op)->Bind(bin, bo);
        EvaluationContext ctx;
        if (b.ok()) for (int rep = 0; rep < 2; ++rep) { (*b)->Run(&ctx, bf); if (ctx.status().ok()) { r["ok"] = true; read(); } else r["ok"] = false; }
      }
    } else {
      auto ev = BatchedForestEvaluator::Compile(*forest, fs, {.optimal_splits_per_evaluator = cfg["splits"].get<int64_t>()});
      if (ev.ok()) {
        for (int rep = 0; rep < 2; ++rep) {
          auto st = (*ev)->EvalBatch(bin, bout, bf, GetHeapBufferFactory(), count ? std::optional<int64_t>(rows.size()) : std::nullopt);
          r["ok"] = st.ok();
          if (st.ok()) read(); else r["err"] = std::string(st.message());
        }
      }
    }
    e["batch"].push_back(r);
  }
}
}  // namespace

int main(int argc, char** argv) { return DriverMain(argc, argv, {{"forest", Forest}}); }
