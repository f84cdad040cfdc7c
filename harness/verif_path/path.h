// Typed trees <-> protos and structs, and observation of generated accessors.
#ifndef VERIF_PATH_H_
#define VERIF_PATH_H_
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/strings/str_format.h"
#include "absl/strings/string_view.h"
#include "arolla/codegen/io/multi_loader.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/io/proto_types/types.h"
#include "arolla/memory/optional_value.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/util/bytes.h"
#include "arolla/util/map.h"
#include "arolla/util/meta.h"
#include "arolla/util/text.h"
#include "common/driver.h"
#include "google/protobuf/message.h"
#include "verif_path/reg.h"
#include "verif_path/structs.h"
#include "verifpb/m2.pb.h"
#include "verifpb/m3.pb.h"

namespace verif {

std::string BytesOf(const json& j);
json BytesTo(absl::string_view s);
void BuildMessage(const json& j, google::protobuf::Message* m);
json DumpMessage(const google::protobuf::Message& m);

inline void Build(const json& j, google::protobuf::Message& m) { BuildMessage(j, &m); }
void Build(const json& j, Leafs& s);
void Build(const json& j, Node& s);
template <class T> void Build(const json& j, std::vector<T>& v) {
  v.clear();
  v.resize(j.size());
  for (size_t i = 0; i < j.size(); ++i) Build(j[i], v[i]);
}
inline json Dump(const google::protobuf::Message& m) { return DumpMessage(m); }
json Dump(const Leafs& s);
json Dump(const Node& s);
template <class T> json Dump(const std::vector<T>& v) {
  json r = json::array();
  for (const auto& x : v) r.push_back(Dump(x));
  return r;
}

// ------------------------------------------------------------------ values
template <class T> std::string TypeName() {
  if constexpr (std::is_same_v<T, int32_t>) return "INT32";
  else if constexpr (std::is_same_v<T, int64_t>) return "INT64";
  else if constexpr (std::is_same_v<T, uint64_t>) return "UINT64";
  else if constexpr (std::is_same_v<T, float>) return "FLOAT32";
  else if constexpr (std::is_same_v<T, double>) return "FLOAT64";
  else if constexpr (std::is_same_v<T, bool>) return "BOOLEAN";
  else if constexpr (std::is_same_v<T, arolla::Bytes>) return "BYTES";
  else if constexpr (std::is_same_v<T, arolla::Text>) return "TEXT";
  else if constexpr (std::is_pointer_v<T>) return "PTR";
  else return "OTHER";
}
template <class T> json ShowValue(const T& v) {
  if constexpr (std::is_same_v<T, bool>) return v ? 1 : 0;
  else if constexpr (std::is_arithmetic_v<T>) return (int64_t)v;
  else if constexpr (std::is_same_v<T, arolla::Text>) return BytesTo(absl::string_view(v));
  else if constexpr (std::is_convertible_v<T, absl::string_view>) return BytesTo(absl::string_view(v));
  else if constexpr (std::is_pointer_v<T>) { json r = json::array(); if (v) r.push_back(Dump(*v)); return r; }
  else return "?";
}
template <class T> T ReadValue(const json& j) {
  if constexpr (std::is_same_v<T, bool>) return j.get<int>() != 0;
  else if constexpr (std::is_arithmetic_v<T>) return (T)j.get<int64_t>();
  else return T(BytesOf(j));
}
template <class T> json Some(const T& v) { json r = json::array(); r.push_back(ShowValue(v)); return r; }

// ----------------------------------------------------------------- results
template <class T> struct Result {
  static json Show(const T& v) { return {{"kind", "val"}, {"type", TypeName<T>()}, {"v", ShowValue(v)}}; }
};
template <class T> struct Result<arolla::OptionalValue<T>> {
  static json Show(const arolla::OptionalValue<T>& v) {
    return {{"kind", "opt"}, {"type", TypeName<T>()}, {"v", v.present ? Some<T>(v.value) : json::array()}};
  }
  static arolla::OptionalValue<T> Read(const json& j) {
    if (j.empty()) return {};
    return arolla::OptionalValue<T>(ReadValue<T>(j[0]));
  }
};
template <> struct Result<arolla::DenseArrayShape> {
  static json Show(const arolla::DenseArrayShape& v) { return {{"kind", "shape"}, {"type", "SHAPE"}, {"v", v.size}}; }
  static arolla::DenseArrayShape Read(const json& j) { return {j.get<int64_t>()}; }
};
template <class T> struct Result<arolla::DenseArray<T>> {
  static json Show(const arolla::DenseArray<T>& v) {
    json r = json::array();
    for (int64_t i = 0; i < v.size(); ++i) {
      if (v.present(i)) {
        if constexpr (std::is_same_v<T, arolla::Text>) {
          r.push_back(json::array({BytesTo(absl::string_view(v.values[i]))}));
        } else if constexpr (std::is_same_v<T, arolla::Bytes>) {
          r.push_back(json::array({BytesTo(absl::string_view(v.values[i]))}));
        } else {
          r.push_back(Some<T>(v.values[i]));
        }
      } else {
        r.push_back(json::array());
      }
    }
    return {{"kind", "arr"}, {"type", TypeName<T>()}, {"v", r}};
  }
  static arolla::DenseArray<T> Read(const json& j) {
    arolla::DenseArrayBuilder<T> b(j.size());
    for (size_t i = 0; i < j.size(); ++i) {
      if (!j[i].empty()) b.Set(i, ReadValue<T>(j[i][0]));
    }
    return std::move(b).Build();
  }
};
template <class T> json ShowResult(const T& v) { return Result<T>::Show(v); }

// An out argument of whatever type the accessor asks for; filled with garbage
// first, because accessors must overwrite what is there.
class AnyOut {
 public:
  template <class T> operator T*() const {
    auto p = std::make_shared<T>();
    if constexpr (arolla::is_optional_v<T>) { p->present = true; }
    show_ = [p] { return ShowResult(*p); };
    return p.get();
  }
  json Show() const { return show_ ? show_() : json{{"kind", "none"}}; }

 private:
  mutable std::function<json()> show_;
};

template <class T> struct Tag { using type = T; };

template <class Root, class F> void GetOut(json& e, const F& f) {
  Root root;
  Build(e.at("v"), root);
  AnyOut out;
  const Root& r = root;
  f(r, out);
  e["got"] = out.Show();
}
template <class Root, class F> void GetOutKey(json& e, const F& f) {
  Root root;
  Build(e.at("v"), root);
  AnyOut out;
  const Root& r = root;
  f(r, absl::string_view(BytesOf(e.at("key"))), out);
  e["got"] = out.Show();
}
template <class Root, class F> void GetRet(json& e, const F& f) {
  Root root;
  Build(e.at("v"), root);
  const Root& r = root;
  e["got"] = ShowResult(f(r));
}
template <class Root, class F> void GetFac(json& e, const F& f) {
  Root root;
  Build(e.at("v"), root);
  const Root& r = root;
  e["got"] = ShowResult(f(r, arolla::GetHeapBufferFactory()));
}
template <class Root, class F> void GetFacKey(json& e, const F& f) {
  Root root;
  Build(e.at("v"), root);
  const Root& r = root;
  std::string key = BytesOf(e.at("key"));
  e["got"] = ShowResult(f(r, absl::string_view(key), arolla::GetHeapBufferFactory()));
}
template <class Root, class M> void PutMeta(json& e, const M& meta) {
  auto f = meta(Tag<Root>());
  using In = std::decay_t<arolla::meta::head_t<typename arolla::meta::function_traits<decltype(f)>::arg_types>>;
  Root root;
  Build(e.at("v"), root);
  In in = Result<In>::Read(e.at("val"));
  e["in"] = ShowResult(in);
  if constexpr (std::is_void_v<decltype(f(in, &root))>) {
    f(in, &root);
    e["status"] = "OK";
  } else {
    e["status"] = absl::StatusCodeToString(f(in, &root).code());
  }
  e["after"] = Dump(root);
}

}  // namespace verif
#endif
