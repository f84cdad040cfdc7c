// The serialization container.
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "absl/container/flat_hash_map.h"
#include "common/driver.h"
#include "arolla/expr/basic_expr_operator.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/expr_node.h"
#include "arolla/expr/expr_operator.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/serialization_base/base.pb.h"
#include "arolla/serialization_base/container.h"
#include "arolla/serialization_base/container_proto.h"
#include "arolla/serialization_base/decoder.h"
#include "arolla/serialization_base/encoder.h"
#include "arolla/serialization_codecs/generic/scalar_codec.pb.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/text.h"
using namespace arolla;
using namespace arolla::expr;
using namespace arolla::serialization_base;
using arolla::serialization_codecs::ScalarV1Proto;

namespace {
struct TestOp final : ExprOperatorWithFixedSignature {
  TestOp(std::string name, const ExprOperatorSignature& sig)
      : ExprOperatorWithFixedSignature(name, sig, "", FingerprintHasher("TestOp").Combine(name).Finish()) {}
  absl::StatusOr<ExprAttributes> InferAttributes(absl::Span<const ExprAttributes> in) const final {
    RETURN_IF_ERROR(ValidateOpInputsCount(in));
    return ExprAttributes{};
  }
};
ExprOperatorPtr Op(const std::string& name) {
  return std::make_shared<TestOp>(name, name == "f1" ? ExprOperatorSignature::MakeArgsN(1) : name == "g2" ? ExprOperatorSignature::MakeArgsN(2) : ExprOperatorSignature::MakeVariadicArgs());
}
std::string Show(const TypedValue& v) {
  if (v.GetType() == GetQType<ExprOperatorPtr>()) return "op:" + std::string(v.UnsafeAs<ExprOperatorPtr>()->display_name());
  return std::string(v.UnsafeAs<Text>().view());
}
std::string Show(const ExprNodePtr& e) {
  if (e->is_leaf()) return "l:" + e->leaf_key();
  if (e->is_placeholder()) return "p:" + e->placeholder_key();
  if (e->is_literal()) return "L<" + Show(*e->qvalue()) + ">";
  std::string r = std::string(e->op()->display_name()) + "[";
  bool first = true;
  for (auto& d : e->node_deps()) { r += (first ? "" : ",") + Show(d); first = false; }
  return r + "]";
}
template <class S> std::string Join(const S& s) {
  std::string r;
  for (auto& x : s) { if (!r.empty()) r += ","; r += Show(x); }
  return r;
}

absl::StatusOr<ValueDecoder> Provide(absl::string_view name_view) {
  std::string name(name_view);
  if (name != "A" && name != "B" && name != "O") return absl::NotFoundError("no codec");
  return ValueDecoder([name](const ValueProto& p, absl::Span<const TypedValue> vs, absl::Span<const ExprNodePtr> es) -> absl::StatusOr<ValueDecoderResult> {
    if (!p.HasExtension(ScalarV1Proto::extension)) return NoExtensionFound{};
    auto& s = p.GetExtension(ScalarV1Proto::extension);
    if (name == "O") {
      if (!s.has_text_value()) return NoExtensionFound{};
      return TypedValue::FromValue(Op(s.text_value()));
    }
    bool i = s.has_int32_value(), j = s.has_int64_value();
    if (!i && !(j && name == "B")) return NoExtensionFound{};
    if (name == "A" && s.int32_value() == -1) return absl::InvalidArgumentError("bad payload");
    return TypedValue::FromValue(Text(name + std::to_string(i ? s.int32_value() : s.int64_value()) + "(" + Join(vs) + "|" + Join(es) + ")"));
  });
}

DecodingStepProto ToProto(const json& s) {
  DecodingStepProto p;
  std::string k = s["k"];
  bool miss = s["miss"];
  auto idx = [](const json& x) { return x.get<uint64_t>(); };
  if (!s["h"].empty()) for (auto& c : s["h"]) p.mutable_decoder_hints()->add_decoding_step_result_usage_counts(idx(c));
  if (k == "leaf") { p.mutable_leaf_node(); if (!miss) p.mutable_leaf_node()->set_leaf_key(s["key"].get<std::string>()); }
  if (k == "ph") { p.mutable_placeholder_node(); if (!miss) p.mutable_placeholder_node()->set_placeholder_key(s["key"].get<std::string>()); }
  if (k == "lit") { p.mutable_literal_node(); if (!miss) p.mutable_literal_node()->set_literal_value_index(idx(s["v"])); }
  if (k == "op") {
    auto* o = p.mutable_operator_node();
    if (!miss) o->set_operator_value_index(idx(s["v"]));
    for (auto& e : s["es"]) o->add_input_expr_indices(idx(e));
  }
  if (k == "val") {
    auto* v = p.mutable_value();
    for (auto& e : s["vs"]) v->add_input_value_indices(idx(e));
    for (auto& e : s["es"]) v->add_input_expr_indices(idx(e));
    if (s["c"].get<int>() >= 0) v->set_codec_index(idx(s["c"]));
    std::string t = s["p"]["t"], x = s["p"]["x"];
    if (t == "i") v->MutableExtension(ScalarV1Proto::extension)->set_int32_value(std::stoi(x));
    if (t == "j") v->MutableExtension(ScalarV1Proto::extension)->set_int64_value(std::stoi(x));
    if (t == "t") v->MutableExtension(ScalarV1Proto::extension)->set_text_value(x);
    if (t == "u") v->MutableExtension(ScalarV1Proto::extension)->set_unit_value(true);
  }
  if (k == "codec") p.mutable_codec()->set_name(s["key"].get<std::string>());
  if (k == "outv") p.set_output_value_index(idx(s["v"]));
  if (k == "oute") p.set_output_expr_index(idx(s["v"]));
  return p;
}
json FromProto(uint64_t i, const DecodingStepProto& p) {
  json s = {{"k", "none"}, {"i", i}, {"h", json::array()}, {"miss", false}, {"key", ""}, {"v", 0}, {"vs", json::array()}, {"es", json::array()}, {"c", -1}, {"p", {{"t", ""}, {"x", ""}}}};
  for (auto c : p.decoder_hints().decoding_step_result_usage_counts()) s["h"].push_back(c);
  if (p.has_leaf_node()) { s["k"] = "leaf"; s["miss"] = !p.leaf_node().has_leaf_key(); s["key"] = p.leaf_node().leaf_key(); }
  if (p.has_placeholder_node()) { s["k"] = "ph"; s["miss"] = !p.placeholder_node().has_placeholder_key(); s["key"] = p.placeholder_node().placeholder_key(); }
  if (p.has_literal_node()) { s["k"] = "lit"; s["miss"] = !p.literal_node().has_literal_value_index(); s["v"] = p.literal_node().literal_value_index(); }
  if (p.has_operator_node()) {
    s["k"] = "op"; s["miss"] = !p.operator_node().has_operator_value_index(); s["v"] = p.operator_node().operator_value_index();
    for (auto e : p.operator_node().input_expr_indices()) s["es"].push_back(e);
  }
  if (p.has_value()) {
    s["k"] = "val";
    for (auto e : p.value().input_value_indices()) s["vs"].push_back(e);
    for (auto e : p.value().input_expr_indices()) s["es"].push_back(e);
    if (p.value().has_codec_index()) s["c"] = p.value().codec_index();
    auto& x = p.value().GetExtension(ScalarV1Proto::extension);
    if (x.has_int32_value()) s["p"] = {{"t", "i"}, {"x", std::to_string(x.int32_value())}};
    if (x.has_text_value()) s["p"] = {{"t", "t"}, {"x", x.text_value()}};
  }
  if (p.has_codec()) { s["k"] = "codec"; s["key"] = p.codec().name(); }
  if (p.type_case() == DecodingStepProto::kOutputValueIndex) { s["k"] = "outv"; s["v"] = p.output_value_index(); }
  if (p.type_case() == DecodingStepProto::kOutputExprIndex) { s["k"] = "oute"; s["v"] = p.output_expr_index(); }
  return s;
}
void Result(json& e, bool ok, Decoder& d) {
  e["ok"] = ok;
  e["vals"] = e["exprs"] = json::array();
  if (!ok) return;
  auto r = std::move(d).Finish();
  for (auto& v : r.values) e["vals"].push_back(Show(v));
  for (auto& x : r.exprs) e["exprs"].push_back(Show(x));
}
void DecodeEv(json& e) {
  Decoder d({.infer_attributes_for_operator_nodes = e["infer"], .value_decoder_provider = Provide});
  if (e["via"] == "steps") {
    bool ok = true;
    for (auto& s : e["steps"]) if (!(ok = d.OnDecodingStep(s["i"].get<uint64_t>(), ToProto(s)).ok())) break;
    return Result(e, ok, d);
  }
  ContainerProto c;
  if (e["version"].get<int>() >= 0) c.set_version(e["version"].get<int>());
  for (auto& x : e["codecs"]) c.add_codecs()->set_name(x.get<std::string>());
  for (auto& s : e["steps"]) *c.add_decoding_steps() = ToProto(s);
  for (auto& x : e["outv"]) c.add_output_value_indices(x.get<uint64_t>());
  for (auto& x : e["oute"]) c.add_output_expr_indices(x.get<uint64_t>());
  std::string bytes = c.SerializeAsString();
  ContainerProto again;
  bool ok = again.ParseFromString(bytes) && ProcessContainerProto(again, d).ok();
  Result(e, ok, d);
}

// Numbers codecs on their own, and values and expressions on their own.
struct TwoNumbers final : ContainerBuilder {
  std::vector<std::pair<uint64_t, DecodingStepProto>> steps;
  uint64_t codecs = 0, rest = 0;
  absl::StatusOr<uint64_t> Add(DecodingStepProto&& p) final {
    uint64_t i = p.has_codec() ? codecs++ : p.type_case() == DecodingStepProto::kOutputValueIndex || p.type_case() == DecodingStepProto::kOutputExprIndex ? 0 : rest++;
    steps.push_back({i, std::move(p)});
    return i;
  }
};
void EncodeEv(json& e) {
  struct Part { int k; std::string x; std::vector<int> vs, es; };
  std::map<std::string, Part> parts;  // by fingerprint
  std::vector<TypedValue> vals;
  std::vector<ExprNodePtr> exprs;
  for (auto& n : e["ns"]) {
    vals.push_back(TypedValue::FromValue(Text("?")));
    exprs.push_back(nullptr);
    std::string k = n["k"], x = n["x"];
    std::vector<int> vs = n["vs"], es = n["es"];
    std::vector<TypedValue> iv;
    std::vector<ExprNodePtr> ie;
    for (int i : vs) iv.push_back(vals[i - 1]);
    for (int i : es) ie.push_back(exprs[i - 1]);
    if (k == "val") {
      vals.back() = TypedValue::FromValue(Text("A" + x + "(" + Join(iv) + "|" + Join(ie) + ")"));
      parts[vals.back().GetFingerprint().AsString()] = {0, x, vs, es};
    }
    if (k == "opv") vals.back() = TypedValue::FromValue(Op(x));
    if (k == "leaf") exprs.back() = Leaf(x);
    if (k == "ph") exprs.back() = Placeholder(x);
    if (k == "lit") exprs.back() = Literal(iv.at(0));
    if (k == "op") exprs.back() = MakeOpNode(Op(x), ie).value();
  }
  ValueEncoder ve = [&](TypedRef v, Encoder& enc) -> absl::StatusOr<ValueProto> {
    ValueProto p;
    if (v.GetType() == GetQType<ExprOperatorPtr>()) {
      ASSIGN_OR_RETURN(auto c, enc.EncodeCodec("O"));
      p.set_codec_index(c);
      p.MutableExtension(ScalarV1Proto::extension)->set_text_value(std::string(v.UnsafeAs<ExprOperatorPtr>()->display_name()));
      return p;
    }
    auto& part = parts.at(TypedValue(v).GetFingerprint().AsString());
    for (int i : part.vs) { ASSIGN_OR_RETURN(auto j, enc.EncodeValue(vals[i - 1])); p.add_input_value_indices(j); }
    for (int i : part.es) { ASSIGN_OR_RETURN(auto j, enc.EncodeExpr(exprs[i - 1])); p.add_input_expr_indices(j); }
    ASSIGN_OR_RETURN(auto c, enc.EncodeCodec("A"));
    p.set_codec_index(c);
    p.MutableExtension(ScalarV1Proto::extension)->set_int32_value(std::stoi(part.x));
    return p;
  };
  Decoder d({.infer_attributes_for_operator_nodes = true, .value_decoder_provider = Provide});
  std::vector<std::pair<uint64_t, DecodingStepProto>> steps;
  auto write = [&](ContainerBuilder& b) -> absl::Status {
    Encoder enc(ve, b);
    for (int o : e["outs"]) {
      if (exprs[o - 1] != nullptr) RETURN_IF_ERROR(enc.EncodeExpr(exprs[o - 1]).status());
      else RETURN_IF_ERROR(enc.EncodeValue(vals[o - 1]).status());
    }
    return absl::OkStatus();
  };
  bool ok = true;
  e["eok"] = false;
  e["same"] = false;
  e["steps"] = json::array();
  if (e["two"]) {
    TwoNumbers b;
    e["eok"] = write(b).ok();
    for (auto& [i, p] : b.steps) {
      ok = ok && d.OnDecodingStep(i, p).ok();
      e["steps"].push_back(FromProto(i, p));
    }
  } else {
    ContainerProtoBuilder b;
    e["eok"] = write(b).ok();
    ContainerProto c = std::move(b).Finish();
    for (int i = 0; i < c.decoding_steps_size(); ++i) e["steps"].push_back(FromProto(i, c.decoding_steps(i)));
    ok = ProcessContainerProto(c, d).ok();
  }
  // the same fingerprints come back
  e["ok"] = ok;
  e["vals"] = e["exprs"] = json::array();
  if (!ok) return;
  auto r = std::move(d).Finish();
  size_t iv = 0, ie = 0;
  bool same = true;
  for (int o : e["outs"]) {
    if (exprs[o - 1] != nullptr) { same = same && ie < r.exprs.size() && r.exprs[ie]->fingerprint() == exprs[o - 1]->fingerprint(); ++ie; }
    else { same = same && iv < r.values.size() && r.values[iv].GetFingerprint() == vals[o - 1].GetFingerprint(); ++iv; }
  }
  e["same"] = same && iv == r.values.size() && ie == r.exprs.size();
  for (auto& v : r.values) e["vals"].push_back(Show(v));
  for (auto& x : r.exprs) e["exprs"].push_back(Show(x));
}
}  // namespace
int main(int argc, char** argv) {
  InitArolla();
  return DriverMain(argc, argv, {{"decode", DecodeEv}, {"encode", EncodeEv}});
}
