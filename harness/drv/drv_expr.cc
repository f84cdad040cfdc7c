// Expression graphs, signatures and the expression operator registry.
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include "common/driver.h"
#include "absl/container/flat_hash_map.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/expr/basic_expr_operator.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/expr_attributes.h"
#include "arolla/expr/expr_node.h"
#include "arolla/expr/expr_operator.h"
#include "arolla/expr/expr_operator_signature.h"
#include "arolla/expr/expr_visitor.h"
#include "arolla/expr/lambda_expr_operator.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/expr/tuple_expr_operator.h"
#include "arolla/expr/visitors/substitution.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/qtype/unspecified_qtype.h"
#include "arolla/util/bytes.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"

namespace {
using namespace arolla;
using namespace arolla::expr;
using Sig = ExprOperatorSignature;

std::string Codes(const json& j) {
  std::string s;
  for (int c : j) s += char(c);
  return s;
}
json ToCodes(absl::string_view s) {
  json a = json::array();
  for (unsigned char c : s) a.push_back(int(c));
  return a;
}

struct TestOp final : ExprOperatorWithFixedSignature {
  TestOp(std::string name, const Sig& sig, std::string doc)
      : ExprOperatorWithFixedSignature(name, sig, doc, FingerprintHasher("TestOp").Combine(name, sig, doc).Finish()) {}
  absl::StatusOr<ExprAttributes> InferAttributes(absl::Span<const ExprAttributes> in) const final {
    auto s = ValidateOpInputsCount(in);
    if (!s.ok()) return s;
    return ExprAttributes{};
  }
};
Sig Arity(int n) { return n < 0 ? Sig::MakeVariadicArgs() : Sig::MakeArgsN(n); }

TypedValue Value(const std::string& ty, int v) {
  if (ty == "i32") return TypedValue::FromValue(int32_t(v));
  if (ty == "i64") return TypedValue::FromValue(int64_t(v));
  if (ty == "f32") return TypedValue::FromValue(float(v));
  if (ty == "f64") return TypedValue::FromValue(double(v));
  if (ty == "bool") return TypedValue::FromValue(bool(v));
  if (ty == "unit") return TypedValue::FromValue(Unit{});
  if (ty == "text") return TypedValue::FromValue(Text(std::string(v, 'x')));
  if (ty == "bytes") return TypedValue::FromValue(Bytes(std::string(v, 'x')));
  if (ty == "oi32") return TypedValue::FromValue(OptionalValue<int32_t>(v));
  if (ty == "mi32") return TypedValue::FromValue(OptionalValue<int32_t>());
  return GetUnspecifiedQValue();
}

// ------------------------------------------------------------------ graphs
struct Graph {
  std::vector<ExprNodePtr> nodes;    // null where not a node
  std::vector<ExprOperatorPtr> ops;  // null where not an operator
  absl::flat_hash_map<Fingerprint, int> ncls, ocls;
  absl::flat_hash_map<Fingerprint, json> leaf;

  static std::string Key(const json& d) {
    std::string k = d["key"], r;
    int rep = d.value("rep", 1);
    for (int i = 0; i < rep; ++i) r += k;
    return r;
  }
  json Term(const ExprNodePtr& n) {
    if (n == nullptr) return json::array({"null"});
    if (auto it = leaf.find(n->fingerprint()); it != leaf.end()) return it->second;
    if (n->is_leaf()) return json::array({"L", n->leaf_key()});
    if (n->is_placeholder()) return json::array({"P", n->placeholder_key()});
    if (n->is_literal()) return json::array({"C", "?"});
    std::string o = "?";
    if (auto it = ocls.find(n->op()->fingerprint()); it != ocls.end()) o = "o" + std::to_string(it->second);
    if (n->op()->fingerprint() == MakeTupleOperator::Make()->fingerprint()) o = "tuple";
    json ds = json::array();
    for (auto& d : n->node_deps()) ds.push_back(Term(d));
    return json::array({"O", o, ds});
  }
  int Cls(const ExprNodePtr& n) {
    auto it = ncls.find(n->fingerprint());
    return it == ncls.end() ? -1 : it->second;
  }
};

void Build(const json& items, Graph& g, json& oks, json& cls) {
  int i = 0;
  for (auto& d : items) {
    ++i;
    std::string t = d["i"];
    ExprNodePtr n;
    ExprOperatorPtr o;
    if (t == "leaf") n = Leaf(Graph::Key(d));
    else if (t == "ph") n = Placeholder(Graph::Key(d));
    else if (t == "lit") n = Literal(Value(d["ty"], d["v"]));
    else if (t == "test") o = std::make_shared<TestOp>(d["name"].get<std::string>(), Arity(d["ar"]), d["doc"].get<std::string>());
    else if (t == "tuple") o = MakeTupleOperator::Make();
    else if (t == "reg") o = std::make_shared<RegisteredOperator>(d["name"].get<std::string>());
    else if (t == "lam") {
      auto body = g.nodes[d["body"].get<int>() - 1];
      Sig s;
      bool ok = body != nullptr;
      for (auto& p : d["sig"]) {
        Sig::Parameter q;
        q.name = p["n"];
        if (p["v"].get<bool>()) q.kind = Sig::Parameter::Kind::kVariadicPositional;
        if (p["def"].get<int>()) q.default_value = Value("i32", p["def"]);
        s.parameters.push_back(q);
      }
      if (ok) {
        auto r = LambdaOperator::Make(d["name"].get<std::string>(), s, body, d["doc"].get<std::string>());
        if (r.ok()) o = *r;
      }
    } else {  // an operator node
      auto op = g.ops[d["o"].get<int>() - 1];
      bool ok = op != nullptr;
      std::vector<ExprNodePtr> deps;
      for (int k : d["d"]) {
        deps.push_back(g.nodes[k - 1]);
        ok = ok && deps.back() != nullptr;
      }
      if (ok) {
        auto r = MakeOpNode(op, deps);
        if (r.ok()) n = *r;
      }
    }
    g.nodes.push_back(n);
    g.ops.push_back(o);
    oks.push_back(n != nullptr || o != nullptr);
    int c = 0;
    if (n != nullptr) {
      c = g.ncls.emplace(n->fingerprint(), i).first->second;
      if (t == "leaf") g.leaf.emplace(n->fingerprint(), json::array({"L", d["key"].get<std::string>() + "*" + std::to_string(d.value("rep", 1))}));
      if (t == "ph") g.leaf.emplace(n->fingerprint(), json::array({"P", d["key"].get<std::string>() + "*" + std::to_string(d.value("rep", 1))}));
      if (t == "lit") g.leaf.emplace(n->fingerprint(), json::array({"C", d["ty"].get<std::string>() + ":" + std::to_string(d["v"].get<int>())}));
    }
    if (o != nullptr) c = g.ocls.emplace(o->fingerprint(), i).first->second;
    cls.push_back(c);
  }
}

json Res(Graph& g, const absl::StatusOr<ExprNodePtr>& r) {
  if (!r.ok()) return {{"ok", false}, {"t", json::array({"null"})}};
  return {{"ok", true}, {"t", g.Term(*r)}};
}

void GraphOp(json& e) {
  Graph g;
  e["ok"] = e["cls"] = json::array();
  Build(e["items"], g, e["ok"], e["cls"]);
  e["run"] = false;
  int ri = e["root"].get<int>();
  ExprNodePtr root = ri == 0 ? nullptr : g.nodes[ri - 1];
  if (root == nullptr) return;
  e["run"] = true;
  e["term"] = g.Term(root);
  {
    PostOrder po(root);
    json ns = json::array(), ds = json::array();
    bool idx = po.node_indices().size() == po.nodes_size();
    for (size_t i = 0; i < po.nodes_size(); ++i) {
      ns.push_back(g.Cls(po.node(i)));
      ds.push_back(po.dep_indices(i));
      auto k = po.node_index(po.node(i)->fingerprint());
      idx = idx && k.has_value() && *k == i && po.nodes()[i] == po.node(i);
    }
    idx = idx && !po.node_index(FingerprintHasher("nothing").Finish()).has_value();
    PostOrder moved(std::move(po));
    idx = idx && moved.nodes_size() == ns.size() && moved.nodes().back() == root;
    e["po"] = ns; e["pod"] = ds; e["idx"] = idx;
    e["pk"] = GetPlaceholderKeys(moved) == GetPlaceholderKeys(root);
    e["lk"] = GetLeafKeys(moved) == GetLeafKeys(root);
    json calls = json::array();
    e["trav"] = PostOrderTraverse(moved, [&](const ExprNodePtr& n, absl::Span<const int* const> vs) -> int {
      calls.push_back(g.Cls(n));
      long r = g.Cls(n);
      for (size_t j = 0; j < vs.size(); ++j) r += long(j + 2) * *vs[j];
      return r % 100003;
    });
    e["calls"] = calls;
  }
  e["vo"] = e["pp"] = json::array();
  for (auto& n : VisitorOrder(root)) e["vo"].push_back(g.Cls(n));
  for (auto& [pre, n] : PreAndPostVisitorOrder(root)) e["pp"].push_back({{"pre", pre}, {"n", g.Cls(n)}});
  {
    std::map<std::string, int> lk, pk;
    e["leaves"] = e["phs"] = json::array();
    auto name = [&](const ExprNodePtr& n) { return g.leaf.at(n->fingerprint())[1]; };
    for (auto& k : GetLeafKeys(root)) e["leaves"].push_back(name(Leaf(k)));
    for (auto& k : GetPlaceholderKeys(root)) e["phs"].push_back(name(Placeholder(k)));
  }
  // rewriting
  absl::flat_hash_map<Fingerprint, ExprNodePtr> rules;
  absl::flat_hash_map<std::string, ExprNodePtr> lsubs, psubs;
  for (auto& r : e["rules"]) {
    auto a = g.nodes[r[0].get<int>() - 1], b = g.nodes[r[1].get<int>() - 1];
    if (a == nullptr || b == nullptr) { e["run"] = false; return; }
    rules.emplace(a->fingerprint(), b);
    if (a->is_leaf()) lsubs.emplace(a->leaf_key(), b);
    if (a->is_placeholder()) psubs.emplace(a->placeholder_key(), b);
  }
  auto apply = [&](ExprNodePtr n) -> absl::StatusOr<ExprNodePtr> {
    auto it = rules.find(n->fingerprint());
    return it == rules.end() ? n : it->second;
  };
  int calls = 0;
  auto tr = Transform(root, [&](ExprNodePtr n) -> absl::StatusOr<ExprNodePtr> { ++calls; return apply(n); });
  e["tr"] = Res(g, tr);
  e["trn"] = calls;
  e["same"] = tr.ok() && tr->get() == root.get();
  e["tr2"] = Res(g, Transform(root, [&](ExprNodePtr n) -> ExprNodePtr { return *apply(n); }));
  e["dt"] = Res(g, DeepTransform(root, apply));
  e["sf"] = Res(g, SubstituteByFingerprint(root, rules));
  e["sl"] = Res(g, SubstituteLeaves(root, lsubs));
  e["sp"] = Res(g, SubstitutePlaceholders(root, psubs, false));
  e["spm"] = Res(g, SubstitutePlaceholders(root, psubs, true));
  e["low1"] = Res(g, ToLowerNode(root));
  e["low"] = Res(g, ToLowest(root));
  {  // an error of the transformation is the result
    int left = e["fail"].get<int>();
    auto r = Transform(root, [&](ExprNodePtr n) -> absl::StatusOr<ExprNodePtr> {
      if (--left < 0) return absl::InvalidArgumentError("stop");
      return n;
    });
    e["failed"] = !r.ok();
  }
}

void BigOp(json& e) {
  Graph g;
  e["ok"] = e["cls"] = json::array();
  Build(e["items"], g, e["ok"], e["cls"]);
  auto at = [&](const char* k) { return g.nodes[e[k].get<int>() - 1]; };
  auto root = at("root"), from = at("from"), to = at("to");
  constexpr long kM = 19999999;
  auto show = [&](const absl::StatusOr<ExprNodePtr>& r) -> json {
    if (!r.ok()) return {{"ok", false}};
    std::set<const ExprNode*> ptrs;
    std::map<const ExprNode*, long> v;
    absl::flat_hash_map<Fingerprint, int> fps;
    std::vector<std::pair<const ExprNode*, bool>> stack{{r->get(), false}};
    while (!stack.empty()) {  // by address
      auto [n, done] = stack.back();
      stack.pop_back();
      if (done) {
        long x = n->is_op() ? 31L * g.ocls.at(n->op()->fingerprint()) : g.ncls.at(n->fingerprint());
        for (size_t j = 0; j < n->node_deps().size(); ++j) x += long(j + 2) * v.at(n->node_deps()[j].get());
        v[n] = x % kM;
        continue;
      }
      if (!ptrs.insert(n).second) continue;
      if (ptrs.size() > 200000) return {{"ok", false}, {"why", "too many nodes"}};
      fps.emplace(n->fingerprint(), 0);
      stack.push_back({n, true});
      for (auto& d : n->node_deps())
        if (!ptrs.count(d.get())) stack.push_back({d.get(), false});
    }
    return {{"ok", true}, {"fps", int(fps.size())}, {"ptrs", int(ptrs.size())}, {"v", v.at(r->get())}};
  };
  auto fn = [&](ExprNodePtr n) -> absl::StatusOr<ExprNodePtr> {
    return n->fingerprint() == from->fingerprint() ? to : n;
  };
  e["res"] = json::array();
  e["res"].push_back(show(root));
  e["res"].push_back(show(Transform(root, fn)));
  e["res"].push_back(show(DeepTransform(root, fn)));
  e["res"].push_back(show(SubstituteByFingerprint(root, {{from->fingerprint(), to}})));
  e["res"].push_back(show(SubstituteLeaves(root, {{from->leaf_key(), to}})));
}
void DeepOp(json& e) {
  int n = e["n"], ar = e["ar"];
  auto op = std::make_shared<TestOp>("f", Arity(ar), "");
  auto chain = [&](const char* leaf) {
    auto x = Leaf(leaf);
    for (int i = 0; i < n; ++i) x = *MakeOpNode(op, std::vector<ExprNodePtr>(ar, x));
    return x;
  };
  auto a = chain("a"), a2 = chain("a"), b = chain("b");
  e["size"] = PostOrder(a).nodes_size();
  e["equal"] = a->fingerprint() == a2->fingerprint();
  e["differ"] = a->fingerprint() != b->fingerprint();
  auto fn = [&](ExprNodePtr x) -> absl::StatusOr<ExprNodePtr> { return x->is_leaf() ? Leaf("b") : x; };
  auto t = Transform(a, fn), d = DeepTransform(a, fn);
  e["tr"] = t.ok() ? int(VisitorOrder(*t).size()) : -1;
  e["dt"] = d.ok() ? int(VisitorOrder(*d).size()) : -1;
  e["trsame"] = t.ok() && d.ok() && (*t)->fingerprint() == b->fingerprint() && (*d)->fingerprint() == b->fingerprint();
  e["leaf"] = t.ok() ? json(GetLeafKeys(*t)) : json::array();
}

// -------------------------------------------------------------- signatures
json Show(const Sig& s) {
  json r = {{"params", json::array()}, {"auxn", ToCodes(s.aux_policy_name)}, {"auxo", ToCodes(s.aux_policy_options)}};
  for (auto& p : s.parameters) {
    int d = 0;
    if (p.default_value.has_value()) d = p.default_value->GetType() == GetQType<int32_t>() ? p.default_value->UnsafeAs<int32_t>() : -1;
    r["params"].push_back({{"n", ToCodes(p.name)}, {"d", d}, {"v", p.kind == Sig::Parameter::Kind::kVariadicPositional}});
  }
  return r;
}
std::vector<TypedValue> Defaults(const Sig& s) {
  std::vector<TypedValue> r;
  for (auto& p : s.parameters)
    if (p.default_value.has_value()) r.push_back(*p.default_value);
  return r;
}
json Bound(absl::Span<const ExprNodePtr> ns) {
  json r = json::array();
  for (auto& n : ns) {
    if (n->is_leaf()) r.push_back({{"a", std::stoi(n->leaf_key())}, {"d", 0}});
    else if (n->is_literal() && n->qtype() == GetQType<int32_t>()) r.push_back({{"a", 0}, {"d", n->qvalue()->UnsafeAs<int32_t>()}});
    else r.push_back({{"a", -1}, {"d", -1}});
  }
  return r;
}
void SigRest(json& e, const Sig& s) {
  e["sig"] = Show(s);
  e["variadic"] = HasVariadicParameter(s);
  std::string spec = GetExprOperatorSignatureSpec(s);
  e["spec"] = ToCodes(spec);
  e["aux"] = ToCodes(GetAuxPolicy(s));
  auto again = Sig::Make(spec, Defaults(s));
  e["again"] = again.ok() && Show(*again) == Show(s) &&
               FingerprintHasher("").Combine(*again).Finish() == FingerprintHasher("").Combine(s).Finish();
  e["deps"] = json::array();
  for (int k = 0; k < 7; ++k) e["deps"].push_back(ValidateDepsCount(s, k, absl::StatusCode::kInternal).ok());
  for (auto& b : e["binds"]) {
    std::vector<ExprNodePtr> args;
    absl::flat_hash_map<std::string, ExprNodePtr> kw;
    int id = 0;
    for (int k = 0; k < b["n"].get<int>(); ++k) args.push_back(Leaf(std::to_string(++id)));
    for (auto& k : b["kw"]) kw.emplace(Codes(k), Leaf(std::to_string(++id)));
    auto r = BindArguments(s, args, kw);
    b["ok"] = r.ok();
    b["got"] = r.ok() ? Bound(*r) : json::array();
    auto n = BindOp(std::make_shared<TestOp>("t", s, ""), args, kw);
    b["same"] = n.ok() == r.ok() && (!n.ok() || Bound((*n)->node_deps()) == b["got"]);
  }
}

// ---------------------------------------------------------------- registry
struct Sess {
  std::string pfx;
  std::map<std::string, ExprOperatorPtr> handles;
  std::map<std::string, ExprOperatorRegistry::RevisionIdFn> rev;
  std::map<std::string, int64_t> seen;
} S;
int session = 0;
std::string Full(const json& name) {  // name: list of components
  std::string s = S.pfx;
  for (auto& c : name) s += "." + c.get<std::string>();
  return s;
}
ExprOperatorPtr Impl(int id) {
  return std::make_shared<TestOp>("impl" + std::to_string(id), Sig::MakeVariadicArgs(), std::to_string(id));
}
ExprOperatorPtr Handle(const json& name) {
  auto n = Full(name);
  auto it = S.handles.find(n);
  if (it == S.handles.end()) it = S.handles.emplace(n, std::make_shared<RegisteredOperator>(n)).first;
  return it->second;
}
int IdOf(const ExprOperatorPtr& op) {
  auto n = op->display_name();
  return n.substr(0, 4) == "impl" ? std::stoi(std::string(n.substr(4))) : -1;
}
}  // namespace

int main(int argc, char** argv) {
  InitArolla();
  (void)RegisterOperator("verif.f", std::make_shared<TestOp>("verif.f", Sig::MakeVariadicArgs(), ""));
  {
    auto body = BindOp("verif.f", {Placeholder("y"), Placeholder("x")}, {});
    (void)RegisterOperator("verif.g", *LambdaOperator::Make("verif.g", *Sig::Make("x, y"), *body));
  }
  return DriverMain(
      argc, argv,
      {
          {"graph", GraphOp},
          {"big", BigOp},
          {"deep", DeepOp},
          {"sig", [](json& e) {
             std::vector<TypedValue> d;
             for (int k = 0; k < e["ndef"].get<int>(); ++k) d.push_back(TypedValue::FromValue(int32_t(101 + k)));
             auto s = Sig::Make(Codes(e["text"]), d);
             e["ok"] = s.ok();
             if (s.ok()) { SigRest(e, *s); e["ok"] = ValidateSignature(*s).ok(); }
           }},
          {"sigv", [](json& e) {
             Sig s;
             for (auto& p : e["params"]) {
               Sig::Parameter q;
               q.name = Codes(p["n"]);
               if (p["v"].get<bool>()) q.kind = Sig::Parameter::Kind::kVariadicPositional;
               if (int d = p["d"].get<int>()) q.default_value = TypedValue::FromValue(int32_t(d));
               s.parameters.push_back(q);
             }
             s.aux_policy_name = Codes(e["auxn"]);
             s.aux_policy_options = Codes(e["auxo"]);
             e["ok"] = ValidateSignature(s).ok();
             if (e["ok"].get<bool>()) SigRest(e, s);
           }},
          {"sign", [](json& e) {
             auto s = e["n"].get<int>() < 0 ? Sig::MakeVariadicArgs() : Sig::MakeArgsN(e["n"].get<int>());
             e["ok"] = ValidateSignature(s).ok();
             SigRest(e, s);
           }},
          {"begin", [](json& e) { S = Sess(); S.pfx = "s" + std::to_string(++session) + "_"; }},
          {"ereg", [](json& e) { e["ok"] = RegisterOperator(Full(e["name"]), Impl(e["id"])).ok(); }},
          {"ealias", [](json& e) { e["ok"] = RegisterOperatorAlias(Full(e["name"]), Full(e["to"])).ok(); }},
          {"eref", [](json& e) { e["ok"] = RegisterOperator(Full(e["name"]), Handle(e["to"])).ok(); }},
          {"eunreg", [](json& e) { ExprOperatorRegistry::GetInstance()->UnsafeUnregister(Full(e["name"])); }},
          {"elook", [](json& e) {
             auto r = LookupOperator(Full(e["name"]));
             e["ok"] = r.ok();
             e["same"] = !r.ok() || ((*r)->display_name() == Full(e["name"]) && IsRegisteredOperator(*r) &&
                                     (*r)->fingerprint() == Handle(e["name"])->fingerprint());
             if (r.ok()) S.handles[Full(e["name"])] = *r;
           }},
          {"elist", [](json& e) {
             e["names"] = json::array();
             for (auto n : ExprOperatorRegistry::GetInstance()->ListRegisteredOperators()) {
               if (n.substr(0, S.pfx.size() + 1) != S.pfx + ".") continue;
               json a = json::array();
               std::string c;
               for (char x : std::string(n.substr(S.pfx.size() + 1)) + ".") {
                 if (x == '.') { a.push_back(c); c.clear(); } else { c += x; }
               }
               e["names"].push_back(a);
             }
           }},
          {"eimpl", [](json& e) {
             auto* r = dynamic_cast<const RegisteredOperator*>(Handle(e["name"]).get());
             auto i = r->GetImplementation();
             e["got"] = !i.ok() ? 0 : IdOf(*i);
             auto d = DecayRegisteredOperator(Handle(e["name"]));
             e["decay"] = !d.ok() ? 0 : IdOf(*d);
             auto doc = r->GetDoc();
             e["doc"] = !doc.ok() ? 0 : std::stoi(*doc);
             e["sig"] = r->GetSignature().ok();
             auto n = BindOp(Handle(e["name"]), {Leaf("x")}, {});
             e["node"] = n.ok();
           }},
          {"erev", [](json& e) {
             auto n = Full(e["name"]);
             auto it = S.rev.find(n);
             if (it == S.rev.end())
               it = S.rev.emplace(n, ExprOperatorRegistry::GetInstance()->AcquireRevisionIdFn(n)).first;
             int64_t v = it->second();
             e["changed"] = S.seen.count(n) == 0 || S.seen[n] != v;
             S.seen[n] = v;
           }},
      });
}
