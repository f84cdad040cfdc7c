// Common types, implicit casts and the QExpr operator registry.
#include <memory>
#include <string>
#include <vector>
#include "common/driver.h"
#include "arolla/array/array.h"
#include "arolla/array/qtype/types.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/bound_operators.h"
#include "arolla/qexpr/casting.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qtype/array_like/array_like_qtype.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/shape_qtype.h"
#include "arolla/qtype/standard_type_properties/common_qtype.h"
#include "arolla/qtype/standard_type_properties/properties.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/weak_qtype.h"
#include "arolla/util/bytes.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"

namespace {
using namespace arolla;

template <typename T>
QTypePtr Of(int k) {
  switch (k) {
    case 0: return GetQType<T>();
    case 1: return GetQType<OptionalValue<T>>();
    case 2: return GetQType<DenseArray<T>>();
    default: return GetQType<Array<T>>();
  }
}
QTypePtr Weak(int k) {
  switch (k) {
    case 0: return GetWeakFloatQType();
    case 1: return GetOptionalWeakFloatQType();
    case 2: return GetDenseArrayWeakFloatQType();
    default: return GetArrayWeakFloatQType();
  }
}
QTypePtr Named(const std::string& s, int k) {
  if (s == "none") return nullptr;
  if (s == "i32") return Of<int32_t>(k);
  if (s == "i64") return Of<int64_t>(k);
  if (s == "f32") return Of<float>(k);
  if (s == "f64") return Of<double>(k);
  if (s == "wf") return Weak(k);
  if (s == "text") return Of<Text>(k);
  if (s == "bytes") return Of<Bytes>(k);
  if (s == "bool") return Of<bool>(k);
  if (s == "unit") return Of<Unit>(k);
  if (s == "tup") return k == 0 ? MakeTupleQType({}) : MakeTupleQType({GetQType<int32_t>()});
  std::cerr << "type " << s << "\n";
  exit(77);
}
QTypePtr T(const json& j) { return Named(j["s"], j["k"]); }
std::vector<QTypePtr> Ts(const json& j) {
  std::vector<QTypePtr> r;
  for (auto& x : j) r.push_back(T(x));
  return r;
}
json J(QTypePtr t) {
  if (t == nullptr) return {{"s", "none"}, {"k", 0}};
  for (const char* s : {"i32", "i64", "f32", "f64", "wf", "text", "bytes", "bool", "unit", "tup"})
    for (int k = 0; k < 4; ++k)
      if (Named(s, k) == t) return {{"s", s}, {"k", s == std::string("tup") ? std::min(k, 1) : k}};
  return {{"s", std::string(t->name())}, {"k", 7}};
}
template <class X>
json JO(const absl::StatusOr<X>& t) { return J(t.ok() ? QTypePtr(*t) : nullptr); }
int Shape(QTypePtr s) {
  if (s == nullptr) return -1;
  if (s == GetQType<ScalarShape>()) return 0;
  if (s == GetQType<OptionalScalarShape>()) return 1;
  if (s == GetQType<DenseArrayShape>()) return 2;
  if (s == GetQType<ArrayShape>()) return 3;
  return 7;
}

struct Op final : QExprOperator {
  int id;
  Op(absl::Span<const QTypePtr> in, QTypePtr out, int id) : QExprOperator(in, out), id(id) {}
  absl::StatusOr<std::unique_ptr<BoundOperator>> DoBind(absl::Span<const TypedSlot>, TypedSlot) const final {
    return MakeBoundOperator([](EvaluationContext*, FramePtr) {});
  }
};
// Accepts any inputs; the output is float32.
struct Fam final : OperatorFamily {
  int id;
  explicit Fam(int id) : id(id) {}
  absl::StatusOr<OperatorPtr> DoGetOperator(absl::Span<const QTypePtr> in, QTypePtr out) const final {
    return EnsureOutputQTypeMatches(OperatorPtr(std::make_shared<Op>(in, GetQType<float>(), id)), in, out);
  }
};
std::unique_ptr<OperatorRegistry> reg;
std::string Name(const json& j) {
  std::string s;
  for (int c : j) s += char(c);
  return s;
}
}  // namespace

int main(int argc, char** argv) {
  return DriverMain(
      argc, argv,
      {
          {"common", [](json& e) {
             auto a = T(e["a"]), b = T(e["b"]);
             bool bc = e["bc"];
             e["got"] = J(CommonQType(a, b, bc));
             e["can"] = CanCastImplicitly(a, b, bc);
           }},
          {"commonl", [](json& e) {
             e["got"] = J(CommonQType(absl::MakeConstSpan(Ts(e["ts"])), bool(e["bc"])));
             e["bq"] = J(BroadcastQType(Ts(e["ts"]), T(e["q"])));
           }},
          {"props", [](json& e) {
             auto t = T(e["t"]);
             e["scalar"] = J(GetScalarQTypeOrNull(t));
             e["scalar2"] = JO(GetScalarQType(t));
             e["shape"] = Shape(GetShapeQTypeOrNull(t));
             auto s = GetShapeQType(t);
             e["shape2"] = Shape(s.ok() ? *s : nullptr);
             e["decayc"] = J(DecayContainerQType(t));
             e["with"] = JO(WithScalarQType(t, T(e["n"])));
             e["pres"] = JO(GetPresenceQType(t));
             e["isopt"] = IsOptionalLikeQType(t);
             e["toopt"] = JO(ToOptionalLikeQType(t));
             e["decay"] = J(DecayDerivedQType(t));
             e["isarr"] = IsArrayLikeQType(t);
           }},
          {"begin", [](json& e) { reg = std::make_unique<OperatorRegistry>(); }},
          {"reg", [](json& e) {
             e["ok"] = reg->RegisterOperator(Name(e["name"]), std::make_shared<Op>(Ts(e["ins"]), T(e["out"]), e["id"].get<int>()),
                                             e["prio"].get<size_t>()).ok();
           }},
          {"fam", [](json& e) { e["ok"] = reg->RegisterOperatorFamily(Name(e["name"]), std::make_unique<Fam>(e["id"].get<int>())).ok(); }},
          {"list", [](json& e) {
             e["names"] = json::array();
             for (auto& n : reg->ListRegisteredOperators()) {
               json a = json::array();
               for (unsigned char c : n) a.push_back(int(c));
               e["names"].push_back(a);
             }
           }},
          {"get", [](json& e) {
             auto ins = Ts(e["ins"]);
             auto out = T(e["out"]);
             auto r = reg->LookupOperator(Name(e["name"]), ins, out);
             e["got"] = r.ok() ? dynamic_cast<const Op&>(**r).id : -1;
             e["bind"] = -1;
             if (r.ok()) {  // binding accepts slots of the operator's own types only
               FrameLayout::Builder b;
               auto is = AddSlots(ins, &b);
               auto os = AddSlot(out, &b);
               e["bind"] = int((*r)->Bind(is, os).ok());
             }
           }},
      });
}
