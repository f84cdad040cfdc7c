// Compiled expressions, run on rows of inputs.
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "common/driver.h"
#include "absl/container/flat_hash_map.h"
#include "arolla/expr/annotation_expr_operators.h"
#include "arolla/expr/basic_expr_operator.h"
#include "arolla/expr/eval/eval.h"
#include "arolla/expr/eval/invoke.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/expr_node.h"
#include "arolla/expr/lambda_expr_operator.h"
#include "arolla/expr/operators/while_loop/while_loop.h"
#include "arolla/expr/optimization/optimizer.h"
#include "arolla/expr/optimization/pattern_based_optimization.h"
#include "arolla/expr/optimization/peephole_optimizer.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/expr/tuple_expr_operator.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/evaluation_engine.h"
#include "arolla/qexpr/operator_factory.h"
#include "arolla/qexpr/operators/bootstrap/make_tuple_operator.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/text.h"
using namespace arolla;
using namespace arolla::expr;

namespace {
template <class T> T Must(absl::StatusOr<T> r) {
  if (!r.ok()) { fprintf(stderr, "driver: %s\n", std::string(r.status().message()).c_str()); exit(77); }
  return *std::move(r);
}
void Must(absl::Status s) {
  if (!s.ok()) { fprintf(stderr, "driver: %s\n", std::string(s.message()).c_str()); exit(77); }
}
// A backend operator whose result has one type.
class Prim final : public BasicExprOperator {
 public:
  Prim(std::string name, int n, QTypePtr out)
      : BasicExprOperator(name, Sig(n), "", FingerprintHasher("prim").Combine(name).Finish(), ExprOperatorTags::kBackend), out_(out) {}
  absl::StatusOr<QTypePtr absl_nonnull> GetOutputQType(absl::Span<const QTypePtr absl_nonnull>) const final { return out_; }
 private:
  static ExprOperatorSignature Sig(int n) {
    ExprOperatorSignature s;
    for (int i = 0; i < n; ++i) s.parameters.push_back({std::string(1, 'a' + i)});
    return s;
  }
  QTypePtr out_;
};
template <class F> void Define(const std::string& name, int n, QTypePtr out, F f) {
  Must(RegisterOperator(name, std::make_shared<Prim>(name, n, out)));
  Must(OperatorRegistry::GetInstance()->RegisterOperator(name, Must(QExprOperatorFromFunction(f))));
}
int Lin(int x, int y) { return (3 * x + 7 * y + 1) % 1009; }
void Setup() {
  static bool done = false;
  if (done) return;
  done = true;
  InitArolla();
  using OI = OptionalValue<int>;
  auto i = GetQType<int>(), o = GetQType<OI>(), u = GetQType<OptionalUnit>();
  Must(OperatorRegistry::GetInstance()->RegisterOperatorFamily("core.make_tuple", std::make_unique<MakeTupleOperatorFamily>()));
  Define("t.lin", 2, i, [](int x, int y) { return Lin(x, y); });
  Define("t.twice", 1, i, [](int x) { return Lin(x, x); });
  Define("t.lin0", 1, i, [](int x) { return Lin(x, 0); });
  Define("t.opt", 2, o, [](int x, int y) { return y % 2 == 0 ? OI(x) : OI(); });
  Define("t.val", 1, i, [](OI x) { return x.present ? x.value : 7; });
  Define("t.valopt", 2, i, [](int x, int y) { return y % 2 == 0 ? x : 7; });
  Define("t.less", 2, u, [](int x, int y) { return OptionalUnit(x < y); });
  Define("t.inv", 1, i, [](int x) -> absl::StatusOr<int> { if (x % 5 == 0) return absl::InvalidArgumentError("inv"); return x; });
  Define("core.has._optional", 1, u, [](OI x) { return OptionalUnit(x.present); });
  Define("core.where", 3, i, [](OptionalUnit c, int x, int y) { return c.present ? x : y; });
  Define("core._short_circuit_where", 3, i, [](OptionalUnit, int, int) -> absl::StatusOr<int> { return absl::InternalError("not replaced"); });
}
ExprNodePtr Call(const std::string& op, std::vector<ExprNodePtr> a) { return Must(BindOp(Must(LookupOperator(op)), a, {})); }
ExprNodePtr Call(ExprOperatorPtr op, std::vector<ExprNodePtr> a) { return Must(BindOp(op, a, {})); }
ExprNodePtr P(const char* n) { return Placeholder(n); }
ExprOperatorPtr Nth(int i) { return Must(GetNthOperator::Make(i)); }
// \x y. lin(lin(x, y), x), in two levels
ExprOperatorPtr Lam() {
  static auto* op = new ExprOperatorPtr([] {
    auto inner = Must(LambdaOperator::Make("t.inner", Must(ExprOperatorSignature::Make("p, q")), Call("t.lin", {P("p"), P("q")})));
    return ExprOperatorPtr(Must(LambdaOperator::Make("t.lam", Must(ExprOperatorSignature::Make("x, y")),
        Call(inner, {Call(inner, {P("x"), P("y")}), P("x")}))));
  }());
  return *op;
}
// \x y. where(x < y, lin(x, y), y)
ExprOperatorPtr LamWhere() {
  static auto* op = new ExprOperatorPtr([] {
    return ExprOperatorPtr(Must(LambdaOperator::Make("t.lamwhere", Must(ExprOperatorSignature::Make("x, y")),
        Call("core._short_circuit_where", {Call("t.less", {P("x"), P("y")}), Call("t.lin", {P("x"), P("y")}), P("y")}))));
  }());
  return *op;
}
// while s.0 < n: s = (s.0 + 1 ..., lin(s.1, s.0))
ExprOperatorPtr While() {
  static auto* op = new ExprOperatorPtr([] {
    auto sig = Must(ExprOperatorSignature::Make("s, n"));
    auto s0 = Call(Nth(0), {P("s")});
    auto s1 = Call(Nth(1), {P("s")});
    auto cond = Must(LambdaOperator::Make("t.cond", sig, Call("t.less", {s0, P("n")})));
    auto body = Must(LambdaOperator::Make("t.body", sig, Call(MakeTupleOperator::Make(), {Call("t.inc", {s0, P("n")}), Call("t.lin", {s1, s0})})));
    return ExprOperatorPtr(Must(expr_operators::WhileLoopOperator::Make("t.while", sig, cond, body)));
  }());
  return *op;
}
Optimizer MakeOpt() {
  PeepholeOptimizationPack p;
  auto ref = [](const char* n, std::initializer_list<absl::StatusOr<ExprNodePtr>> a) { return Must(CallOpReference(n, a)); };
  auto add = [&](ExprNodePtr from, ExprNodePtr to) { p.push_back(Must(CreatePatternBasedOptimization(from, to))); };
  auto x = P("x"), y = P("y"), c = P("c");
  add(ref("core.where", {c, x, y}), ref("core._short_circuit_where", {c, x, y}));
  add(ref("core._short_circuit_where", {Literal(OptionalUnit(kPresent)), x, y}), x);
  add(ref("core._short_circuit_where", {Literal(OptionalUnit(kMissing)), x, y}), y);
  add(ref("t.lin", {x, x}), ref("t.twice", {x}));
  add(ref("t.lin", {x, Literal(0)}), ref("t.lin0", {x}));
  add(ref("t.val", {ref("t.opt", {x, y})}), ref("t.valopt", {x, y}));
  return MakeOptimizer(Must(PeepholeOptimizer::Create(std::move(p))));
}
TypedValue ToValue(const std::string& ty, const json& v) {
  if (ty == "i") return TypedValue::FromValue(v[0].get<int>());
  if (ty == "o") return v[0] == 1 ? TypedValue::FromValue(OptionalValue<int>(v[1].get<int>())) : TypedValue::FromValue(OptionalValue<int>());
  if (ty == "u") return TypedValue::FromValue(OptionalUnit(v[0] == 1));
  if (ty == "p") {
    auto o = ToValue("o", {v[0], v[1]}), t = ToValue("t", {v[2], v[3]});
    return MakeTuple({o.AsRef(), t.AsRef()});
  }
  return MakeTuple({TypedRef::FromValue(v[0].get<int>()), TypedRef::FromValue(v[1].get<int>())});
}
json FromRef(TypedRef r) {
  auto t = r.GetType();
  if (t == GetQType<int>()) return {r.UnsafeAs<int>()};
  if (t == GetQType<OptionalValue<int>>()) { auto& v = r.UnsafeAs<OptionalValue<int>>(); return v.present ? json{1, v.value} : json{0, 0}; }
  if (t == GetQType<OptionalUnit>()) return {r.UnsafeAs<OptionalUnit>().present ? 1 : 0};
  json a = json::array();
  for (int i = 0; i < r.GetFieldCount(); ++i) for (auto& x : FromRef(r.GetField(i))) a.push_back(x);
  return a;
}
QTypePtr TypeOf(const std::string& ty) {
  if (ty == "p") return MakeTupleQType({TypeOf("o"), TypeOf("t")});
  return ty == "t" ? MakeTupleQType({GetQType<int>(), GetQType<int>()}) : ToValue(ty, ty == "o" ? json{0, 0} : json{0}).GetType();
}

void Eval(json& e) {
  std::vector<ExprNodePtr> ns;
  std::vector<std::string> ltype;  // by leaf
  for (auto& n : e["nodes"]) {
    std::string k = n["k"];
    std::vector<ExprNodePtr> a;
    for (auto& j : n["a"]) a.push_back(ns[j.get<int>() - 1]);
    ExprNodePtr r;
    if (k == "leaf") r = Leaf("L" + std::to_string(n["v"][0].get<int>()));
    else if (k == "qleaf") r = Call(QTypeAnnotation::Make(), {Leaf("L" + std::to_string(n["v"][0].get<int>())), Literal(TypeOf(n["t"]))});
    else if (k == "lit") r = Literal(ToValue(n["t"], n["v"]));
    else if (k == "lam") r = Call(Lam(), a);
    else if (k == "lamwhere") r = Call(LamWhere(), a);
    else if (k == "tup" || k == "pack") r = Call(MakeTupleOperator::Make(), a);
    else if (k == "nth0" || k == "p0") r = Call(Nth(0), a);
    else if (k == "nth1" || k == "p1") r = Call(Nth(1), a);
    else if (k == "name") r = Call(NameAnnotation::Make(), {a[0], Literal(Text("n"))});
    else if (k == "while") r = Call(While(), a);
    else if (k == "has") r = Call("core.has._optional", a);
    else if (k == "cwhere") r = Call("core.where", a);
    else if (k == "where") r = Call("core._short_circuit_where", a);
    else r = Call("t." + k, a);
    ns.push_back(r);
  }
  DynamicEvaluationEngineOptions opt;
  opt.allow_overriding_input_slots = e["over"];
  opt.collect_op_descriptions = e["desc"];
  opt.enable_expr_stack_trace = e["trace"];
  using St = DynamicEvaluationEngineOptions::PreparationStage;
  if (!e["fold"]) opt.enabled_preparation_stages &= ~St::kLiteralFolding;
  if (e["opt"]) opt.optimizer = MakeOpt();
  auto expr = ns[e["root"].get<int>() - 1];
  absl::flat_hash_map<std::string, ExprNodePtr> side;
  std::vector<std::string> names;
  int c = 0;
  for (auto& j : e["side"]) { names.push_back("s" + std::to_string(c++)); side[names.back()] = ns[j.get<int>() - 1]; }
  std::vector<std::string> lt = e["leaves"];
  auto key = [](size_t i) { return "L" + std::to_string(i + 1); };
  json runs = json::array();
  e["bad"] = json::array();
  e["compiled"] = true;
  std::string via = e["via"];
  if (via == "invoke") {
    for (auto& row : e["rows"]) {
      absl::flat_hash_map<std::string, TypedValue> in;
      for (size_t i = 0; i < lt.size(); ++i) in.emplace(key(i), ToValue(lt[i], row[i]));
      auto r = Invoke(expr, in, opt);
      json run = {{"ok", r.ok()}, {"out", json::array()}, {"side", json::array()}, {"ins", row}};
      if (r.ok()) run["out"] = FromRef(r->AsRef());
      runs.push_back(run);
    }
  } else {
    FrameLayout::Builder lb;
    absl::flat_hash_map<std::string, TypedSlot> in;
    std::vector<TypedSlot> slots;
    for (size_t i = 0; i < lt.size(); ++i) { slots.push_back(AddSlot(TypeOf(lt[i]), &lb)); in.emplace(key(i), slots.back()); }
    std::vector<std::unique_ptr<BoundExpr>> bound;
    absl::Status bad;
    auto take = [&](absl::StatusOr<std::unique_ptr<BoundExpr>> b) { if (b.ok()) bound.push_back(*std::move(b)); else bad = b.status(); };
    if (via == "bind") {
      take(CompileAndBindForDynamicEvaluation(opt, &lb, expr, in, std::nullopt, side));
    } else {
      absl::flat_hash_map<std::string, QTypePtr> types;
      for (auto& [k, s] : in) types[k] = s.GetType();
      auto compiled = CompileForDynamicEvaluation(opt, expr, types, side);
      if (!compiled.ok()) bad = compiled.status();
      else {
        take((*compiled)->Bind(&lb, in, AddSlot((*compiled)->output_type(), &lb)));
        if (via == "twice" && bad.ok()) take((*compiled)->Bind(&lb, in, std::nullopt));
      }
    }
    e["compiled"] = bad.ok();
    if (!bad.ok()) e["msg"] = std::string(bad.message());
    if (bad.ok()) {
      FrameLayout layout = std::move(lb).Build();
      MemoryAllocation alloc(&layout);
      FramePtr frame = alloc.frame();
      for (auto& b : bound) Must(b->InitializeLiterals(frame));
      for (auto& row : e["rows"]) {
        for (auto& b : bound) {
          for (size_t i = 0; i < lt.size(); ++i) Must(ToValue(lt[i], row[i]).CopyToSlot(slots[i], frame));
          // inputs that may not be overwritten are still there for a second run
          for (int rep = 0; rep < (e["over"] ? 1 : 2); ++rep) {
            auto st = b->Execute(frame);
            json run = {{"ok", st.ok()}, {"out", json::array()}, {"side", json::array()}, {"ins", json::array()}};
            if (st.ok()) {
              run["out"] = FromRef(TypedRef::FromSlot(b->output_slot(), frame));
              for (auto& n : names) run["side"].push_back(FromRef(TypedRef::FromSlot(b->named_output_slots().at(n), frame)));
            }
            if (e["over"]) run["ins"] = row;
            else for (size_t i = 0; i < lt.size(); ++i) run["ins"].push_back(FromRef(TypedRef::FromSlot(slots[i], frame)));
            runs.push_back(run);
          }
        }
      }
    }
  }
  e["runs"] = runs;
}
}  // namespace

int main(int argc, char** argv) {
  Setup();
  Define("t.inc", 2, GetQType<int>(), [](int x, int n) { return x + 1 + (n % 2 + 2) % 2; });
  return DriverMain(argc, argv, {{"eval", Eval}});
}
