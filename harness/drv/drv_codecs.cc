// Round trips of values and expressions through the library's codecs.
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>
#include "common/driver.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/array/qtype/types.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/expr_node.h"
#include "arolla/expr/expr_operator.h"
#include "arolla/expr/expr_operator_signature.h"
#include "arolla/expr/lambda_expr_operator.h"
#include "arolla/expr/operator_loader/dummy_operator.h"
#include "arolla/expr/overloaded_expr_operator.h"
#include "arolla/expr/quote.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/expr/tuple_expr_operator.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/shape_qtype.h"
#include "arolla/qtype/slice_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/qtype/unspecified_qtype.h"
#include "arolla/qtype/weak_qtype.h"
#include "arolla/serialization/decode.h"
#include "arolla/serialization/encode.h"
#include "arolla/serialization_base/base.pb.h"
#include "arolla/util/bytes.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/text.h"
using namespace arolla;
using namespace arolla::expr;
using arolla::serialization_base::ContainerProto;

namespace {
json Blank(const char* t) {
  return {{"t", t}, {"s", ""}, {"x", ""}, {"n", 0}, {"xs", json::array()}, {"f", json::array()}, {"es", json::array()}, {"of", json::array()}, {"d", ""}};
}
std::string Hex(absl::string_view s) {
  std::string r;
  char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
  return r;
}
std::string Unhex(const std::string& s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
template <class T> T Parse(const std::string& x) {
  if constexpr (std::is_same_v<T, Unit>) return Unit{};
  else if constexpr (std::is_same_v<T, bool>) return x == "1";
  else if constexpr (std::is_same_v<T, Bytes> || std::is_same_v<T, Text>) return T(Unhex(x));
  else if constexpr (std::is_floating_point_v<T>) {
    std::string b = Unhex(x);
    T r;
    memcpy(&r, b.data(), sizeof r);
    return r;
  } else if constexpr (std::is_same_v<T, uint64_t>) return std::stoull(x);
  else return static_cast<T>(std::stoll(x));
}
template <class V> std::string Print(const V& v) {
  if constexpr (std::is_same_v<V, Unit>) return "";
  else if constexpr (std::is_same_v<V, bool>) return v ? "1" : "0";
  else if constexpr (std::is_floating_point_v<V>) return Hex(absl::string_view(reinterpret_cast<const char*>(&v), sizeof v));
  else if constexpr (std::is_integral_v<V>) return std::to_string(v);
  else return Hex(absl::string_view(v));
}
template <class F> auto Dispatch(const std::string& s, F f) {
  if (s == "unit") return f(Unit{});
  if (s == "bool") return f(false);
  if (s == "bytes") return f(Bytes());
  if (s == "text") return f(Text());
  if (s == "i32") return f(int32_t{});
  if (s == "i64") return f(int64_t{});
  if (s == "u64") return f(uint64_t{});
  if (s == "f32") return f(float{});
  return f(double{});
}
const std::vector<std::string> kTypes = {"unit", "bool", "bytes", "text", "i32", "i64", "u64", "f32", "f64"};

struct Way { int off, form; };
template <class T> DenseArray<T> Dense(const json& xs, int off) {
  std::vector<OptionalValue<T>> v;
  for (int i = 0; i < off; ++i) v.push_back(i % 3 && !xs.empty() && xs[0] != "~" ? OptionalValue<T>(Parse<T>(xs[0])) : OptionalValue<T>());
  for (auto& x : xs) v.push_back(x == "~" ? OptionalValue<T>() : OptionalValue<T>(Parse<T>(x)));
  auto a = CreateDenseArray<T>(v);
  return off ? a.Slice(off, xs.size()) : a;
}
TypedValue Value(const json& v, Way w);
ExprNodePtr Expr(const json& e, Way w);
ExprOperatorPtr Operator(const json& v, Way w) {
  std::string s = v["s"], x = v["x"], d = v["d"];
  if (s == "tuple") return MakeTupleOperator::Make();
  if (s == "nth") return GetNthOperator::Make(v["n"]).value();
  if (s == "reg") return LookupOperator("verif.id").value();
  if (s == "over") {
    std::vector<ExprOperatorPtr> ops;
    for (auto& o : v["f"]) ops.push_back(Operator(o, w));
    return std::make_shared<OverloadedOperator>(x, ops);
  }
  // parameters with defaults last, a variadic one at the end
  ExprOperatorSignature sig;
  size_t first = v["xs"].size() - v["f"].size() - (v["n"] == 1 ? 1 : 0), i = 0;
  for (auto& p : v["xs"]) {
    ExprOperatorSignature::Parameter par{p.get<std::string>()};
    if (i >= first && i - first < v["f"].size()) par.default_value = Value(v["f"][i - first], w);
    if (v["n"] == 1 && i + 1 == v["xs"].size()) par.kind = ExprOperatorSignature::Parameter::Kind::kVariadicPositional;
    ++i;
    sig.parameters.push_back(par);
  }
  if (s == "dummy") return std::make_shared<operator_loader::DummyOperator>(x, sig, d, Value(v["of"][0], w).GetType());
  return LambdaOperator::Make(x, sig, Expr(v["es"][0], w), d).value();
}
TypedValue Value(const json& v, Way w) {
  std::string t = v["t"], s = v["s"], x = v["x"];
  int64_t n = v["n"];
  if (t == "s" || t == "o") {
    if (s == "wf") {
      auto value = t == "s" ? TypedValue::FromValueWithQType(Parse<double>(x), GetWeakFloatQType())
                            : TypedValue::FromValueWithQType(x == "~" ? OptionalValue<double>() : OptionalValue<double>(Parse<double>(x)), GetOptionalWeakFloatQType());
      return value.value();
    }
    return Dispatch(s, [&](auto z) {
      using T = decltype(z);
      if (t == "s") return TypedValue::FromValue(Parse<T>(x));
      return TypedValue::FromValue(x == "~" ? OptionalValue<T>() : OptionalValue<T>(Parse<T>(x)));
    });
  }
  if (t == "k") {
    if (s == "sshape") return TypedValue::FromValue(ScalarShape{});
    if (s == "oshape") return TypedValue::FromValue(OptionalScalarShape{});
    if (s == "sedge") return TypedValue::FromValue(ScalarToScalarEdge{});
    return GetUnspecifiedQValue();
  }
  if (t == "d") return Dispatch(s, [&](auto z) { return TypedValue::FromValue(Dense<decltype(z)>(v["xs"], w.off)); });
  if (t == "a") return Dispatch(s, [&](auto z) {
    using T = decltype(z);
    Array<T> a(Dense<T>(v["xs"], w.off));
    if (w.form == 1) a = a.ToSparseForm();
    // a sparse form over a float does not tell its zeros apart
    if (w.form == 2 && !v["xs"].empty() && !std::is_floating_point_v<T>) { auto& m = v["xs"][v["xs"].size() / 2]; a = a.ToSparseForm(m == "~" ? OptionalValue<T>() : OptionalValue<T>(Parse<T>(m))); }
    if (w.form == 3 && !v["xs"].empty() && v["xs"].back() == v["xs"][0] && v["xs"][0] != "~") {
      bool same = true;
      for (auto& y : v["xs"]) same = same && y == v["xs"][0];
      if (same) a = Array<T>(v["xs"].size(), OptionalValue<T>(Parse<T>(v["xs"][0])));
    }
    return TypedValue::FromValue(a);
  });
  if (t == "de") {
    auto xs = Dense<int64_t>(v["xs"], w.off);
    return TypedValue::FromValue(s == "split" ? DenseArrayEdge::FromSplitPoints(xs).value() : DenseArrayEdge::FromMapping(xs, n).value());
  }
  if (t == "ae") {
    Array<int64_t> xs(Dense<int64_t>(v["xs"], w.off));
    if (w.form == 1) xs = xs.ToSparseForm();
    return TypedValue::FromValue(s == "split" ? ArrayEdge::FromSplitPoints(xs).value() : ArrayEdge::FromMapping(xs, n).value());
  }
  if (t == "dts") return TypedValue::FromValue(DenseArrayGroupScalarEdge(n));
  if (t == "ats") return TypedValue::FromValue(ArrayGroupScalarEdge(n));
  if (t == "dsh") return TypedValue::FromValue(DenseArrayShape{n});
  if (t == "ash") return TypedValue::FromValue(ArrayShape{n});
  if (t == "tup" || t == "nt" || t == "sl") {
    std::vector<TypedValue> f;
    for (auto& y : v["f"]) f.push_back(Value(y, w));
    if (t == "tup") return MakeTuple(f);
    if (t == "nt") return MakeNamedTuple(v["xs"].get<std::vector<std::string>>(), f).value();
    auto tup = MakeTuple(f);
    return TypedValue(UnsafeDowncastDerivedQValue(MakeSliceQType(f[0].GetType(), f[1].GetType(), f[2].GetType()), tup.AsRef()));
  }
  if (t == "qt") return TypedValue::FromValue(Value(v["of"][0], w).GetType());
  if (t == "q") return TypedValue::FromValue(ExprQuote(Expr(v["es"][0], w)));
  return TypedValue::FromValue(Operator(v, w));
}
ExprNodePtr Expr(const json& e, Way w) {
  std::string t = e["t"], x = e["x"];
  if (t == "leaf") return Leaf(x);
  if (t == "ph") return Placeholder(x);
  if (t == "lit") return Literal(Value(e["f"][0], w));
  std::vector<ExprNodePtr> deps;
  for (auto& d : e["es"]) deps.push_back(Expr(d, w));
  return MakeOpNode(Operator(e["f"][0], w), deps).value();
}

json Read(TypedRef v);
json Read(const ExprNodePtr& e);
json ReadSignature(json r, const ExprOperatorSignature& sig) {
  for (auto& p : sig.parameters) {
    r["xs"].push_back(p.name);
    if (p.default_value.has_value()) r["f"].push_back(Read(p.default_value->AsRef()));
    if (p.kind == ExprOperatorSignature::Parameter::Kind::kVariadicPositional) r["n"] = 1;
  }
  return r;
}
json Read(const ExprOperatorPtr& op) {
  json r = Blank("op");
  auto* p = op.get();
  if (dynamic_cast<const MakeTupleOperator*>(p)) r["s"] = "tuple";
  else if (auto* q = dynamic_cast<const GetNthOperator*>(p)) { r["s"] = "nth"; r["n"] = q->index(); }
  else if (dynamic_cast<const RegisteredOperator*>(p)) { r["s"] = "reg"; r["x"] = std::string(p->display_name()); }
  else if (auto* q = dynamic_cast<const OverloadedOperator*>(p)) {
    r["s"] = "over";
    r["x"] = std::string(p->display_name());
    for (auto& o : q->base_ops()) r["f"].push_back(Read(o));
  } else if (auto* q = dynamic_cast<const LambdaOperator*>(p)) {
    r["s"] = "lambda";
    r["x"] = std::string(p->display_name());
    r["d"] = q->doc();
    r["es"].push_back(Read(q->lambda_body()));
    r = ReadSignature(r, q->signature());
  } else if (auto* q = dynamic_cast<const operator_loader::DummyOperator*>(p)) {
    r["s"] = "dummy";
    r["x"] = std::string(p->display_name());
    r["d"] = q->doc();
    json of = Blank("qt");
    of["x"] = std::string(q->GetOutputQType()->name());
    r["of"].push_back(of);
    r = ReadSignature(r, q->signature());
  } else r["s"] = "?";
  return r;
}
json Read(TypedRef v) {
  auto q = v.GetType();
  json r;
  auto scalar = [&](const std::string& s) {
    return Dispatch(s, [&](auto z) {
      using T = decltype(z);
      if (q == GetQType<T>()) { r = Blank("s"); r["s"] = s; r["x"] = Print(v.UnsafeAs<T>()); return true; }
      if (q == GetQType<OptionalValue<T>>()) {
        r = Blank("o");
        r["s"] = s;
        auto& o = v.UnsafeAs<OptionalValue<T>>();
        if (!o.present) r["x"] = "~";
        else if constexpr (!std::is_same_v<T, Unit>) r["x"] = Print(o.value);
        return true;
      }
      auto list = [&](const auto& a) {
        r["s"] = s;
        for (int64_t i = 0; i < a.size(); ++i) {
          auto o = a[i];
          if (!o.present) { r["xs"].push_back("~"); continue; }
          if constexpr (std::is_same_v<T, Unit>) r["xs"].push_back("");
          else r["xs"].push_back(Print(o.value));
        }
      };
      if (q == GetDenseArrayQType<T>()) { r = Blank("d"); list(v.UnsafeAs<DenseArray<T>>()); return true; }
      if (q == GetArrayQType<T>()) { r = Blank("a"); list(v.UnsafeAs<Array<T>>()); return true; }
      return false;
    });
  };
  for (auto& s : kTypes) if (scalar(s)) return r;
  if (q == GetWeakFloatQType()) { r = Blank("s"); r["s"] = "wf"; r["x"] = Print(v.UnsafeAs<double>()); return r; }
  if (q == GetOptionalWeakFloatQType()) {
    r = Blank("o");
    r["s"] = "wf";
    auto& o = v.UnsafeAs<OptionalValue<double>>();
    r["x"] = o.present ? Print(o.value) : "~";
    return r;
  }
  auto constant = [&](const char* s) { r = Blank("k"); r["s"] = s; return r; };
  if (q == GetQType<ScalarShape>()) return constant("sshape");
  if (q == GetQType<OptionalScalarShape>()) return constant("oshape");
  if (q == GetQType<ScalarToScalarEdge>()) return constant("sedge");
  if (q == GetUnspecifiedQType()) return constant("unspec");
  auto edge = [&](const char* t, const auto& e) {
    using E = std::decay_t<decltype(e)>;
    r = Blank(t);
    r["s"] = e.edge_type() == E::SPLIT_POINTS ? "split" : "map";
    if (e.edge_type() != E::SPLIT_POINTS) r["n"] = e.parent_size();
    for (int64_t i = 0; i < e.edge_values().size(); ++i) {
      auto o = e.edge_values()[i];
      r["xs"].push_back(o.present ? std::to_string(o.value) : "~");
    }
    return r;
  };
  if (q == GetQType<DenseArrayEdge>()) return edge("de", v.UnsafeAs<DenseArrayEdge>());
  if (q == GetQType<ArrayEdge>()) return edge("ae", v.UnsafeAs<ArrayEdge>());
  auto sized = [&](const char* t, int64_t n) { r = Blank(t); r["n"] = n; return r; };
  if (q == GetQType<DenseArrayGroupScalarEdge>()) return sized("dts", v.UnsafeAs<DenseArrayGroupScalarEdge>().child_size());
  if (q == GetQType<ArrayGroupScalarEdge>()) return sized("ats", v.UnsafeAs<ArrayGroupScalarEdge>().child_size());
  if (q == GetQType<DenseArrayShape>()) return sized("dsh", v.UnsafeAs<DenseArrayShape>().size);
  if (q == GetQType<ArrayShape>()) return sized("ash", v.UnsafeAs<ArrayShape>().size);
  if (q == GetQType<QTypePtr>()) { r = Blank("qt"); r["x"] = std::string(v.UnsafeAs<QTypePtr>()->name()); return r; }
  if (q == GetQType<ExprQuote>()) { r = Blank("q"); r["es"].push_back(Read(v.UnsafeAs<ExprQuote>().expr().value())); return r; }
  if (q == GetQType<ExprOperatorPtr>()) return Read(v.UnsafeAs<ExprOperatorPtr>());
  if (IsTupleQType(q)) r = Blank("tup");
  else if (IsNamedTupleQType(q)) { r = Blank("nt"); for (auto& n : GetFieldNames(q)) r["xs"].push_back(std::string(n)); }
  else if (IsSliceQType(q)) r = Blank("sl");
  else return Blank("?");
  for (int64_t i = 0; i < v.GetFieldCount(); ++i) r["f"].push_back(Read(v.GetField(i)));
  return r;
}
json Read(const ExprNodePtr& e) {
  json r;
  if (e->is_leaf()) { r = Blank("leaf"); r["x"] = e->leaf_key(); return r; }
  if (e->is_placeholder()) { r = Blank("ph"); r["x"] = e->placeholder_key(); return r; }
  if (e->is_literal()) { r = Blank("lit"); r["f"].push_back(Read(e->qvalue()->AsRef())); return r; }
  r = Blank("node");
  r["f"].push_back(Read(e->op()));
  for (auto& d : e->node_deps()) r["es"].push_back(Read(d));
  return r;
}

void Decode(const ContainerProto& c, bool infer, json& out, std::vector<Fingerprint>* fps) {
  auto r = serialization::Decode(c, {.infer_attributes_for_operator_nodes = infer});
  out = {{"ok", r.ok()}, {"vals", json::array()}, {"exprs", json::array()}};
  if (!r.ok()) return;
  for (auto& v : r->values) {
    out["vals"].push_back(Read(v.AsRef()));
    if (fps) fps->push_back(v.GetFingerprint());
  }
  for (auto& x : r->exprs) {
    out["exprs"].push_back(Read(x));
    if (fps) fps->push_back(x->fingerprint());
  }
}
void TripEv(json& e) {
  Way w{e["off"], e["form"]};
  std::vector<TypedValue> vals;
  std::vector<ExprNodePtr> exprs;
  std::vector<Fingerprint> want, got;
  for (auto& v : e["vals"]) { vals.push_back(Value(v, w)); want.push_back(vals.back().GetFingerprint()); }
  for (auto& x : e["exprs"]) { exprs.push_back(Expr(x, w)); want.push_back(exprs.back()->fingerprint()); }
  auto c = serialization::Encode(vals, exprs);
  e["enc"] = c.ok();
  e["why"] = c.ok() ? "" : std::string(c.status().message());
  if (!c.ok()) return;
  e["kinds"] = json::array();
  for (auto& s : c->decoding_steps()) {
    auto k = s.type_case();
    using P = serialization_base::DecodingStepProto;
    e["kinds"].push_back(k == P::kOutputValueIndex ? "outv" : k == P::kOutputExprIndex ? "oute" : k == P::TYPE_NOT_SET ? "none" : "part");
  }
  ContainerProto again;
  e["parsed"] = again.ParseFromString(c->SerializeAsString());
  Decode(again, true, e["got"], &got);
  e["same"] = got == want;
  got.clear();
  Decode(again, false, e["raw"], &got);
  e["rawsame"] = got == want;
  int n = c->decoding_steps_size();
  // cut after some steps
  int cut = n ? e["cut"].get<int>() % (n + 1) : 0;
  ContainerProto part = again;
  part.mutable_decoding_steps()->DeleteSubrange(cut, n - cut);
  e["at"] = cut;
  Decode(part, true, e["short"], nullptr);
  // one step lost, or one payload
  int at = n ? e["cut"].get<int>() % n : 0;
  e["lost"] = at;
  part = again;
  if (n) part.mutable_decoding_steps(at)->Clear();
  Decode(part, true, e["gap"], nullptr);
  part = again;
  bool value = n && part.decoding_steps(at).has_value();
  if (value) {
    auto copy = part.decoding_steps(at).value();
    auto* v = part.mutable_decoding_steps(at)->mutable_value();
    v->Clear();
    *v->mutable_input_value_indices() = copy.input_value_indices();
    *v->mutable_input_expr_indices() = copy.input_expr_indices();
    if (copy.has_codec_index()) v->set_codec_index(copy.codec_index());
  }
  e["emptied"] = value;
  Decode(part, true, e["hollow"], nullptr);
  // the codec is to be detected
  part = again;
  for (int i = 0; i < n; ++i) if (part.decoding_steps(i).has_value()) part.mutable_decoding_steps(i)->mutable_value()->clear_codec_index();
  Decode(part, true, e["guess"], nullptr);
}
}  // namespace
int main(int argc, char** argv) {
  InitArolla();
  (void)RegisterOperator("verif.id", LambdaOperator::Make("verif.id", ExprOperatorSignature{{"x"}}, Placeholder("x")).value()).value();
  return DriverMain(argc, argv, {{"trip", TripEv}});
}
