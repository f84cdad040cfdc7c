// Generated-accessor helpers: scalar mapping, presence, container resize.
#include <cstdint>
#include <cstring>
#include <string>
#include <typeinfo>
#include <vector>

#include "arolla/io/proto_types/types.h"
#include "arolla/memory/optional_value.h"
#include "arolla/util/bytes.h"
#include "arolla/util/text.h"
#include "common/driver.h"
#include "verifpb/m2.pb.h"
#include "verifpb/m3.pb.h"

using namespace arolla;
using namespace arolla::proto;

template <class T> std::string VTypeName() {
  if constexpr (std::is_same_v<T, int32_t>) return "int32";
  if constexpr (std::is_same_v<T, int64_t>) return "int64";
  if constexpr (std::is_same_v<T, uint64_t>) return "uint64";
  if constexpr (std::is_same_v<T, float>) return "float";
  if constexpr (std::is_same_v<T, double>) return "double";
  if constexpr (std::is_same_v<T, bool>) return "bool";
  if constexpr (std::is_same_v<T, Bytes>) return "bytes";
  if constexpr (std::is_same_v<T, Text>) return "text";
  return "other";
}
// Values are compared as decimal text, raw bits or byte lists.
template <class T> json Show(const T& v) {
  if constexpr (std::is_same_v<T, float>) {
    uint32_t u; std::memcpy(&u, &v, 4); return std::to_string(u);
  } else if constexpr (std::is_same_v<T, double>) {
    uint64_t u; std::memcpy(&u, &v, 8); return std::to_string(u);
  } else if constexpr (std::is_same_v<T, bool>) {
    return std::string(v ? "1" : "0");
  } else if constexpr (std::is_arithmetic_v<T>) {
    return std::to_string(v);
  } else if constexpr (std::is_same_v<T, Text>) {
    return Show(std::string(absl::string_view(v)));
  } else if constexpr (std::is_convertible_v<T, std::string>) {
    std::string s(v);
    std::string r;
    for (unsigned char c : s) r += std::to_string((int)c) + ",";
    return r;
  } else {
    return "?";
  }
}
template <class T> T Parse(const std::string& s) {
  if constexpr (std::is_same_v<T, float>) {
    uint32_t u = std::stoul(s); float f; std::memcpy(&f, &u, 4); return f;
  } else if constexpr (std::is_same_v<T, double>) {
    uint64_t u = std::stoull(s); double f; std::memcpy(&f, &u, 8); return f;
  } else if constexpr (std::is_same_v<T, bool>) {
    return s == "1";
  } else if constexpr (std::is_unsigned_v<T>) {
    return (T)std::stoull(s);
  } else {
    return (T)std::stoll(s);
  }
}
std::string ParseStr(const std::string& s) {
  std::string r;
  size_t i = 0;
  while (i < s.size()) { size_t k = s.find(',', i); r += (char)std::stoi(s.substr(i, k - i)); i = k + 1; }
  return r;
}

template <class X, class V>
void Observe(json& e, V&& x) {
  using S = arolla_single_value_t<X>;
  e["type"] = VTypeName<S>();
  e["otype"] = VTypeName<typename arolla_optional_value_t<X>::value_type>();
  arolla_optional_value_t<X> o;
  e["empty"] = o.present ? 1 : 0;
  o = ToArollaCompatibleType(std::forward<V>(x));
  e["present"] = o.present ? 1 : 0;
  e["value"] = Show(o.value);
  e["size"] = sizeof(arolla_size_t);
}

#define SETVAL(F, T) if (e["set"].get<int>()) m.set_##F(Parse<T>(e["v"]));
#define SETSTR(F, T) if (e["set"].get<int>()) m.set_##F(ParseStr(e["v"]));
#define SETENUM(F, T) if (e["set"].get<int>()) m.set_##F((T)Parse<int>(e["v"]));
#define FIELD(M, F, T, SET)                                           \
  {#M "." #F, [](json& e) {                                           \
     verifpb::M m;                                                    \
     SET(F, T)                                                        \
     const verifpb::M& c = m;                                         \
     e["has"] = AROLLA_PROTO3_COMPATIBLE_HAS(c, F) ? 1 : 0;           \
     e["has2"] = AROLLA_PROTO3_COMPATIBLE_HAS(m, F) ? 1 : 0;          \
     Observe<decltype(c.F())>(e, c.F());                              \
   }}
#define VALUE(T) {"c++." #T, [](json& e) { T t = Parse<T>(e["v"]); Observe<const T&>(e, t); Observe<T>(e, std::move(t)); }}

struct Pod { int32_t a = 5; std::string s; };
enum class Scoped : int64_t { kA = 3 };

const std::map<std::string, Handler>& Fields() {
  static const auto* m = new std::map<std::string, Handler>{
      FIELD(M2, f_int32, int32_t, SETVAL), FIELD(M2, f_int64, int64_t, SETVAL),
      FIELD(M2, f_uint32, uint32_t, SETVAL), FIELD(M2, f_uint64, uint64_t, SETVAL),
      FIELD(M2, f_sint32, int32_t, SETVAL), FIELD(M2, f_sint64, int64_t, SETVAL),
      FIELD(M2, f_fixed32, uint32_t, SETVAL), FIELD(M2, f_fixed64, uint64_t, SETVAL),
      FIELD(M2, f_sfixed32, int32_t, SETVAL), FIELD(M2, f_sfixed64, int64_t, SETVAL),
      FIELD(M2, f_float, float, SETVAL), FIELD(M2, f_double, double, SETVAL),
      FIELD(M2, f_bool, bool, SETVAL), FIELD(M2, f_string, std::string, SETSTR),
      FIELD(M2, f_bytes, std::string, SETSTR), FIELD(M2, f_enum, verifpb::E, SETENUM),
      FIELD(M2, f_def, int32_t, SETVAL),
      FIELD(M3, f_int32, int32_t, SETVAL), FIELD(M3, f_int64, int64_t, SETVAL),
      FIELD(M3, f_uint32, uint32_t, SETVAL), FIELD(M3, f_uint64, uint64_t, SETVAL),
      FIELD(M3, f_float, float, SETVAL), FIELD(M3, f_double, double, SETVAL),
      FIELD(M3, f_bool, bool, SETVAL), FIELD(M3, f_string, std::string, SETSTR),
      FIELD(M3, f_bytes, std::string, SETSTR), FIELD(M3, f_enum, verifpb::E3, SETENUM),
      FIELD(M3, o_int32, int32_t, SETVAL), FIELD(M3, o_string, std::string, SETSTR),
      FIELD(M3, o_enum, verifpb::E3, SETENUM), FIELD(M3, o_bool, bool, SETVAL),
      FIELD(M3, w_int, int32_t, SETVAL), FIELD(M3, w_string, std::string, SETSTR),
      VALUE(int8_t), VALUE(uint8_t), VALUE(int16_t), VALUE(uint16_t), VALUE(int32_t),
      VALUE(uint32_t), VALUE(int64_t), VALUE(uint64_t), VALUE(bool), VALUE(float), VALUE(double),
      {"c++.string", [](json& e) { std::string s = ParseStr(e["v"]); Observe<const std::string&>(e, s); Observe<std::string>(e, s); }},
      {"c++.view", [](json& e) { std::string s = ParseStr(e["v"]); Observe<absl::string_view>(e, s); }},
      {"c++.cord", [](json& e) { absl::Cord s(ParseStr(e["v"])); Observe<const absl::Cord&>(e, s); Observe<absl::Cord>(e, absl::Cord(s)); }},
      {"c++.fragcord", [](json& e) {
         // one external chunk per byte: never flat
         std::string s = ParseStr(e["v"]);
         absl::Cord c;
         for (size_t i = 0; i < s.size(); i += 2) {
           auto* piece = new std::string(s.substr(i, 2));
           c.Append(absl::MakeCordFromExternal(*piece, [piece](absl::string_view) { delete piece; }));
         }
         Observe<const absl::Cord&>(e, c);
         Observe<absl::Cord>(e, absl::Cord(c));
       }},
      {"c++.enum", [](json& e) { auto x = (verifpb::E)Parse<int>(e["v"]); Observe<verifpb::E>(e, x); }},
      {"c++.text", [](json& e) { std::string s = ParseStr(e["v"]); Text t; t = ToArollaCompatibleType(s); e["value"] = Show(t); e["type"] = "text"; e["otype"] = "text"; e["present"] = 1; e["empty"] = 0; }},
  };
  return *m;
}

// Containers of five kinds holding small integers (0 is the default element).
struct State {
  std::string kind;
  std::vector<int32_t> vi;
  std::vector<std::string> vs;
  std::vector<Pod> vp;
  google::protobuf::RepeatedPtrField<verifpb::Sub2> rm;
  google::protobuf::RepeatedPtrField<std::string> rs;
};
State g;
json Contents() {
  json r = json::array();
  if (g.kind == "vi") for (auto& x : g.vi) r.push_back(x);
  if (g.kind == "vs") for (auto& x : g.vs) r.push_back(x.empty() ? 0 : std::stoi(x));
  if (g.kind == "vp") for (auto& x : g.vp) r.push_back(x.a != 5 ? -1 : x.s.empty() ? 0 : std::stoi(x.s));
  if (g.kind == "rm") for (auto& x : g.rm)
    r.push_back(x.ByteSizeLong() == 0 ? 0 : x.a() * 10 + 1 == x.as(0) ? x.a() : -1);
  if (g.kind == "rs") for (auto& x : g.rs) r.push_back(x.empty() ? 0 : std::stoi(x));
  return r;
}
void Put(verifpb::Sub2* m, int v) { m->Clear(); m->set_a(v); m->add_as(v * 10 + 1); m->mutable_leaf()->set_v(v); }
template <class F> void OnContainer(F f) {
  if (g.kind == "vi") f(g.vi); else if (g.kind == "vs") f(g.vs); else if (g.kind == "vp") f(g.vp);
  else if (g.kind == "rm") f(g.rm); else f(g.rs);
}

int main(int argc, char** argv) {
  return DriverMain(argc, argv, {
    {"field", [](json& e) { Fields().at(e["f"])(e); }},
    {"begin", [](json& e) { g = State{e["kind"]}; e["got"] = Contents(); }},
    {"resize", [](json& e) {
       size_t n = e["n"].get<int>();
       OnContainer([&](auto& c) { ResizeContainer(c, n); });
       e["got"] = Contents();
     }},
    {"set", [](json& e) {
       int i = e["i"].get<int>() - 1, v = e["v"].get<int>();
       if (g.kind == "vi") g.vi[i] = v;
       if (g.kind == "vs") g.vs[i] = std::to_string(v);
       if (g.kind == "vp") g.vp[i].s = std::to_string(v);
       if (g.kind == "rm") Put(g.rm.Mutable(i), v);
       if (g.kind == "rs") *g.rs.Mutable(i) = std::to_string(v);
       e["got"] = Contents();
     }},
    {"add", [](json& e) {
       int v = e["v"].get<int>();
       if (g.kind == "vi") g.vi.push_back(v);
       if (g.kind == "vs") g.vs.push_back(std::to_string(v));
       if (g.kind == "vp") g.vp.push_back(Pod{5, std::to_string(v)});
       if (g.kind == "rm") Put(g.rm.Add(), v);
       if (g.kind == "rs") *g.rs.Add() = std::to_string(v);
       e["got"] = Contents();
     }}});
}
