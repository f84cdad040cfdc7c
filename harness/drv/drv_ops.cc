// C17: what the generated registration sources registered.
#include <string>
#include <vector>

#include "common/driver.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/operator_metadata.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/util/bytes.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"

using namespace arolla;

template <class F>
auto ByName(const std::string& t, F f) {
  if (t == "int32_t") return f(int32_t{});
  if (t == "int64_t") return f(int64_t{});
  if (t == "float") return f(float{});
  if (t == "double") return f(double{});
  if (t == "bool") return f(bool{});
  if (t == "uint64_t") return f(uint64_t{});
  if (t == "::arolla::Bytes") return f(Bytes{});
  if (t == "::arolla::Text") return f(Text{});
  if (t == "::arolla::Unit") return f(Unit{});
  std::cerr << "unknown type " << t << "\n";
  std::exit(77);
}
template <class T>
T Make(int64_t v) {
  if constexpr (std::is_arithmetic_v<T>) return static_cast<T>(v);
  else if constexpr (std::is_same_v<T, Unit>) return Unit{};
  else return T(std::string(v, 'x'));
}
// type: {t, o}
QTypePtr Type(const json& t) {
  if (t["t"] == "tuple") return MakeTupleQType({GetQType<int64_t>(), GetQType<int32_t>()});
  return ByName(t["t"], [&](auto x) -> QTypePtr {
    using T = decltype(x);
    if (t["o"]) return GetQType<OptionalValue<T>>();
    return GetQType<T>();
  });
}
TypedValue Value(const json& t, const json& v) {  // v: [] or [n]
  return ByName(t["t"], [&](auto x) {
    using T = decltype(x);
    if (t["o"]) {
      OptionalValue<T> o;
      if (!v.empty()) o = OptionalValue<T>(Make<T>(v[0]));
      return TypedValue::FromValue(o);
    }
    return TypedValue::FromValue(Make<T>(v[0]));
  });
}
json Out(const TypedValue& v) {
  json r = json::array();
  if (auto x = v.As<int64_t>(); x.ok()) r.push_back(*x);
  else if (auto x = v.As<int32_t>(); x.ok()) r.push_back(*x);
  else if (auto x = v.As<OptionalValue<int64_t>>(); x.ok()) { if (x->present) r.push_back(x->value); }
  else if (auto x = v.As<float>(); x.ok()) r.push_back(int64_t(*x));
  else if (auto x = v.As<double>(); x.ok()) r.push_back(int64_t(*x));
  else if (auto x = v.As<Bytes>(); x.ok()) r.push_back(x->size());
  else if (auto x = v.As<Text>(); x.ok()) r.push_back(x->view().size());
  else if (IsTupleQType(v.GetType()))
    for (int i = 0; i < v.GetFieldCount(); ++i) for (auto& y : Out(TypedValue(v.GetField(i)))) r.push_back(y);
  else r.push_back(std::string(v.GetType()->name()));
  return r;
}
std::vector<QTypePtr> Types(const json& ts) {
  std::vector<QTypePtr> r;
  for (auto& t : ts) r.push_back(Type(t));
  return r;
}

int main(int argc, char** argv) {
  InitArolla();
  return DriverMain(argc, argv, {
    {"call", [](json& e) {
      auto op = OperatorRegistry::GetInstance()->LookupOperator(e["opname"].get<std::string>(), Types(e["ts"]), Type(e["out"]));
      e["found"] = op.ok();
      e["res"] = json::array();
      if (!op.ok()) return;
      e["exact"] = (*op)->signature()->input_types() == absl::Span<const QTypePtr>(Types(e["ts"]));
      for (auto& vs : e["vs"]) {
        std::vector<TypedValue> args;
        for (size_t i = 0; i < vs.size(); ++i) args.push_back(Value(e["ts"][i], vs[i]));
        auto r = InvokeOperator(**op, args);
        if (r.ok()) e["res"].push_back({{"ok", true}, {"v", Out(*r)}});
        else e["res"].push_back({{"ok", false}, {"v", json::array()}});
      }
    }},
    {"meta", [](json& e) {
      auto m = QExprOperatorMetadataRegistry::GetInstance().LookupOperatorMetadata(e["opname"].get<std::string>(), Types(e["ts"]));
      e["found"] = m.ok();
      if (!m.ok()) return;
      const auto& b = m->build_details;
      auto strip = [](std::string s) { std::string r; for (char c : s) if (c != ' ') r += c; return r; };
      e["m"] = {{"name", m->name}, {"target", b.build_target}, {"cls", strip(b.op_class)}, {"family", strip(b.op_family_class)},
                {"hdrs", b.hdrs}, {"deps", b.deps}, {"types", m->input_qtypes == Types(e["ts"])},
                {"has", b.op_class_details.has_value()}};
      if (b.op_class_details) {
        e["m"]["status"] = b.op_class_details->returns_status_or;
        e["m"]["ctx"] = b.op_class_details->accepts_context;
        e["m"]["fids"] = b.op_class_details->arg_as_function_ids;
      }
    }},
    {"list", [](json& e) {
      auto v = OperatorRegistry::GetInstance()->ListRegisteredOperators();
      std::sort(v.begin(), v.end());
      e["names"] = v;
    }},
  });
}
