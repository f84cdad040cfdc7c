#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "verif_path/path.h"

namespace verif {
using google::protobuf::FieldDescriptor;
using google::protobuf::Message;
using google::protobuf::Reflection;

std::map<std::string, Fn>& Registry() {
  static auto* r = new std::map<std::string, Fn>();
  return *r;
}
std::string BytesOf(const json& j) {
  std::string s;
  for (const auto& x : j) s += (char)x.get<int>();
  return s;
}
json BytesTo(absl::string_view s) {
  json r = json::array();
  for (unsigned char c : s) r.push_back((int)c);
  return r;
}

static void SetScalar(Message* m, const FieldDescriptor* f, const json& j, bool add) {
  const Reflection* r = m->GetReflection();
#define V_CASE(KIND, Name, expr) \
  case FieldDescriptor::KIND: { auto v = (expr); if (add) r->Add##Name(m, f, v); else r->Set##Name(m, f, v); return; }
  switch (f->cpp_type()) {
    V_CASE(CPPTYPE_INT32, Int32, j.get<int64_t>())
    V_CASE(CPPTYPE_INT64, Int64, j.get<int64_t>())
    V_CASE(CPPTYPE_UINT32, UInt32, j.get<int64_t>())
    V_CASE(CPPTYPE_UINT64, UInt64, j.get<int64_t>())
    V_CASE(CPPTYPE_FLOAT, Float, (float)j.get<int64_t>())
    V_CASE(CPPTYPE_DOUBLE, Double, (double)j.get<int64_t>())
    V_CASE(CPPTYPE_BOOL, Bool, j.get<int>() != 0)
    V_CASE(CPPTYPE_ENUM, EnumValue, j.get<int>())
    V_CASE(CPPTYPE_STRING, String, BytesOf(j))
    default: std::exit(77);
  }
}
static json GetScalar(const Message& m, const FieldDescriptor* f, int i) {
  const Reflection* r = m.GetReflection();
#undef V_CASE
#define V_CASE(KIND, Name) \
  case FieldDescriptor::KIND: return ShowValue(i < 0 ? r->Get##Name(m, f) : r->GetRepeated##Name(m, f, i));
  switch (f->cpp_type()) {
    V_CASE(CPPTYPE_INT32, Int32)
    V_CASE(CPPTYPE_INT64, Int64)
    V_CASE(CPPTYPE_UINT32, UInt32)
    V_CASE(CPPTYPE_UINT64, UInt64)
    V_CASE(CPPTYPE_FLOAT, Float)
    V_CASE(CPPTYPE_DOUBLE, Double)
    V_CASE(CPPTYPE_BOOL, Bool)
    V_CASE(CPPTYPE_ENUM, EnumValue)
    V_CASE(CPPTYPE_STRING, String)
    default: std::exit(77);
  }
}

void BuildMessage(const json& j, Message* m) {
  const Reflection* r = m->GetReflection();
  m->Clear();
  for (auto it = j.begin(); it != j.end(); ++it) {
    const std::string& n = it.key();
    const FieldDescriptor* f = n.rfind("x:", 0) == 0
        ? m->GetDescriptor()->file()->pool()->FindExtensionByName(n.substr(2))
        : m->GetDescriptor()->FindFieldByName(n);
    if (f == nullptr) { std::cerr << "no field " << n << "\n"; std::exit(77); }
    const json& v = it.value();
    if (f->is_map()) {
      for (const auto& kv : v) {
        Message* e = r->AddMessage(m, f);
        SetScalar(e, f->message_type()->map_key(), kv[0], false);
        const FieldDescriptor* vf = f->message_type()->map_value();
        if (vf->message_type()) BuildMessage(kv[1], e->GetReflection()->MutableMessage(e, vf));
        else SetScalar(e, vf, kv[1], false);
      }
    } else if (f->is_repeated()) {
      for (const auto& x : v) {
        if (f->message_type()) BuildMessage(x, r->AddMessage(m, f));
        else SetScalar(m, f, x, true);
      }
    } else if (f->message_type()) {
      BuildMessage(v, r->MutableMessage(m, f));
    } else {
      SetScalar(m, f, v, false);
    }
  }
}

json DumpMessage(const Message& m) {
  const Reflection* r = m.GetReflection();
  std::vector<const FieldDescriptor*> fs;
  r->ListFields(m, &fs);
  json res = json::object();
  for (const auto* f : fs) {
    std::string n = f->is_extension() ? "x:" + f->full_name() : f->name();
    if (f->is_map()) {
      std::vector<std::pair<json, json>> kvs;
      for (int i = 0; i < r->FieldSize(m, f); ++i) {
        const Message& e = r->GetRepeatedMessage(m, f, i);
        const FieldDescriptor* vf = f->message_type()->map_value();
        kvs.emplace_back(GetScalar(e, f->message_type()->map_key(), -1),
                         vf->message_type() ? DumpMessage(e.GetReflection()->GetMessage(e, vf)) : GetScalar(e, vf, -1));
      }
      std::sort(kvs.begin(), kvs.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
      res[n] = json::array();
      for (auto& kv : kvs) res[n].push_back(json::array({kv.first, kv.second}));
    } else if (f->is_repeated()) {
      res[n] = json::array();
      for (int i = 0; i < r->FieldSize(m, f); ++i) {
        if (f->message_type()) res[n].push_back(DumpMessage(r->GetRepeatedMessage(m, f, i)));
        else res[n].push_back(GetScalar(m, f, i));
      }
    } else if (f->message_type()) {
      res[n] = DumpMessage(r->GetMessage(m, f));
    } else {
      res[n] = GetScalar(m, f, -1);
    }
  }
  return res;
}

void Build(const json& j, Leafs& s) {
  s.x = j.at("x").get<int64_t>();
  s.w = j.at("w").get<int64_t>();
}
json Dump(const Leafs& s) { return {{"x", s.x}, {"w", ShowValue(s.w)}}; }
void Build(const json& j, Node& s) {
  s.x = j.at("x").get<int64_t>();
  s.flag = j.at("flag").get<int>() != 0;
  s.str = BytesOf(j.at("str"));
  s.raw = BytesOf(j.at("raw"));
  s.d = j.at("d").get<int64_t>();
  s.big = j.at("big").get<int64_t>();
  s.u = j.at("u").get<int64_t>();
  Build(j.at("leaf"), s.leaf);
  if (!j.at("ptr").empty()) { s.ptr = new Leafs; Build(j.at("ptr")[0], *s.ptr); }
  if (!j.at("next").empty()) { s.next = std::make_unique<Node>(); Build(j.at("next")[0], *s.next); }
  if (!j.at("pi").empty()) { s.pi = std::make_unique<int32_t>(j.at("pi")[0].get<int64_t>()); }
  if (!j.at("pm").empty()) { s.pm = std::make_shared<verifpb::M2>(); Build(j.at("pm")[0], *s.pm); }
  Build(j.at("msg"), s.msg);
  Build(j.at("sub"), s.sub);
}
json Dump(const Node& s) {
  json ptr = json::array(), next = json::array(), pi = json::array(), pm = json::array();
  if (s.ptr) ptr.push_back(Dump(*s.ptr));
  if (s.next) next.push_back(Dump(*s.next));
  if (s.pi) pi.push_back(*s.pi);
  if (s.pm) pm.push_back(Dump(*s.pm));
  return {{"x", s.x}, {"flag", s.flag ? 1 : 0}, {"str", BytesTo(s.str)}, {"raw", BytesTo(s.raw)}, {"d", ShowValue(s.d)},
          {"big", s.big}, {"u", s.u}, {"leaf", Dump(s.leaf)}, {"ptr", ptr}, {"next", next}, {"pi", pi}, {"pm", pm},
          {"msg", Dump(s.msg)}, {"sub", Dump(s.sub)}};
}
}  // namespace verif
