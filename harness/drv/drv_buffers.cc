#include <cstring>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "common/driver.h"
#include "google/protobuf/arena.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"

using namespace arolla;

namespace {
// Conversion of buffer elements to and from the values of the specification:
// numbers, strings as sequences of character codes, units as 0.
template <class T> struct Conv {
  using Own = T;
  static T In(const json& v) { return static_cast<T>(v.get<int>()); }
  static json Out(T v) { return static_cast<int64_t>(v) > 1000000000 || static_cast<int64_t>(v) < -1000000000 ? 1000000001 : static_cast<int64_t>(v); }
};
template <> struct Conv<bool> {
  static bool In(const json& v) { return v.get<int>() != 0; }
  static json Out(bool v) { unsigned char c; std::memcpy(&c, &v, 1); return (int)c; }
};
template <> struct Conv<double> {
  static double In(const json& v) { return v.get<int>() + 0.5; }
  static json Out(double v) { return v == v && v > -1e6 && v < 1e6 && (v - 0.5) == (int)(v - 0.5) ? (int)(v - 0.5) : 1000000001; }
};
template <> struct Conv<Text> {
  static std::string In(const json& v) { std::string s; for (auto& c : v) s += static_cast<char>(c.get<int>()); return s; }
  static json Out(absl::string_view v) { json r = json::array(); for (char c : v) r.push_back((int)(unsigned char)c); return r; }
};
template <> struct Conv<std::string> {  // SimpleBuffer<std::string>: elements with destructors
  static std::string In(const json& v) { return Conv<Text>::In(v); }
  static json Out(const std::string& v) { return Conv<Text>::Out(v); }
};
template <> struct Conv<Unit> {
  static Unit In(const json&) { return {}; }
  static json Out(Unit) { return 0; }
};

struct Machine {
  virtual ~Machine() = default;
  virtual void Run(json& e) = 0;
};

template <class T, class B>
struct Typed : Machine {
  using C = Conv<T>;
  static constexpr bool kStr = std::is_same_v<B, StringsBuffer>;
  static constexpr bool kVoid = std::is_same_v<B, VoidBuffer>;
  static constexpr bool kSimple = !kStr && !kVoid;
  using Val = std::decay_t<decltype(C::In(json()))>;
  B buf[5];
  std::list<B> keep;  // owners of whatever unowned copies were made of
  struct Ext { std::vector<Val> vals; std::unique_ptr<Val[]> plain; std::string chars; std::vector<StringsBuffer::Offsets> offs; };
  std::unique_ptr<Ext> ext[3];
  std::list<std::unique_ptr<Ext>> old;
  google::protobuf::Arena parena;
  std::unique_ptr<UnsafeArenaBufferFactory> arena;
  std::unique_ptr<ProtobufArenaBufferFactory> pa;
  RawBufferFactory* fac = GetHeapBufferFactory();

  explicit Typed(const std::string& f) {
    if (f == "arena") { arena = std::make_unique<UnsafeArenaBufferFactory>(256); fac = arena.get(); }
    if (f == "parena") { pa = std::make_unique<ProtobufArenaBufferFactory>(parena); fac = pa.get(); }
  }
  std::vector<Val> Vals(const json& v) { std::vector<Val> r; for (auto& x : v) r.push_back(C::In(x)); return r; }

  void Observe(json& e) {
    json vals = json::array(), own = json::array(), eq = json::array(), same = json::array();
    for (int i = 1; i <= 4; ++i) {
      json v = json::array();
      const B& b = buf[i];
      bool ok = b.empty() == (b.size() == 0) && b.end() - b.begin() == b.size();
      auto it = b.begin();
      for (int64_t k = 0; k < b.size() && k < 5000; ++k, ++it) {
        v.push_back(C::Out(b[k]));
        if (ok && C::Out(*it) != v.back()) ok = false;
      }
      if (ok && !b.empty()) ok = C::Out(b.front()) == v.front() && C::Out(b.back()) == v.back();
      vals.push_back(v); own.push_back(b.is_owner()); same.push_back(ok);
      json row = json::array();
      for (int j = 1; j <= 4; ++j) row.push_back((b == buf[j]) && !(b != buf[j]));
      eq.push_back(row);
    }
    e["vals"] = vals; e["owner"] = own; e["eq"] = eq; e["same"] = same;
  }

  B Build(json& e) {
    typename B::Builder bld = [&] {
      int64_t max = e["max"];
      if constexpr (kStr) { if (e["chars"].get<int>() >= 0) return typename B::Builder(max, e["chars"].get<int64_t>(), fac); }
      return typename B::Builder(max, fac);
    }();
    std::optional<typename B::Inserter> ins;
    for (auto& s : e["steps"]) {
      std::string k = s["k"];
      if (k == "set") bld.Set(s["at"].get<int>(), C::In(s["v"]));
      else if (k == "copy") bld.Copy(s["from"].get<int>(), s["to"].get<int>());
      else if (k == "setn") {
        auto vs = Vals(s["vs"]);
        size_t n = 0;
        bld.SetN(s["at"].get<int>(), (int64_t)vs.size(), [&]() -> Val { return vs[n++]; });
      } else if (k == "setc") bld.SetNConst(s["at"].get<int>(), s["n"].get<int>(), C::In(s["v"]));
      else if (k == "ins") ins = bld.GetInserter(s["at"].get<int>());
      else if (k == "add") ins->Add(C::In(s["v"]));
      else if (k == "skip") ins->SkipN(s["n"].get<int>());
      else if (k == "span") {
        if constexpr (kSimple) { bld.GetMutableSpan()[s["at"].get<int>()] = C::In(s["v"]); }
      }
    }
    std::string how = e["how"];
    if (how == "full") return std::move(bld).Build();
    if (how == "ins") return std::move(bld).Build(*ins);
    return std::move(bld).Build(e["n"].get<int64_t>());
  }
  B Reshuffle(json& e) {
    const B& src = buf[e["j"].get<int>()];
    OptionalValue<view_type_t<T>> def;
    Val d{};
    if (!e["def"].empty()) { d = C::In(e["def"][0]); def = view_type_t<T>(d); }
    typename B::ReshuffleBuilder bld = [&] {
      if constexpr (kSimple) { OptionalValue<T> dd; if (!e["def"].empty()) dd = T(d); return typename B::ReshuffleBuilder(e["max"].get<int64_t>(), src, dd, fac); }
      else return typename B::ReshuffleBuilder(e["max"].get<int64_t>(), src, def, fac);
    }();
    for (auto& s : e["steps"]) {
      if (s["k"] == "one") bld.CopyValue(s["to"].get<int>(), s["from"].get<int>());
      else bld.CopyValueToRange(s["lo"].get<int>(), s["hi"].get<int>(), s["from"].get<int>());
    }
    if (e["how"] == "full") return std::move(bld).Build();
    return std::move(bld).Build(e["n"].get<int64_t>());
  }
  B Create(json& e) {
    auto vs = Vals(e["v"]);
    std::string how = e["how"];
    if constexpr (kSimple && !std::is_same_v<T, bool>) {
      if (how == "vec") return B::Create(std::move(vs));
      if (how == "inl") { absl::InlinedVector<Val, 4> iv(vs.begin(), vs.end()); return B::Create(std::move(iv)); }
    }
    std::list<Val> l(vs.begin(), vs.end());
    return how == "list" ? B::Create(l.begin(), l.end(), fac) : B::Create(vs.begin(), vs.end(), fac);
  }
  B Wrap(json& e) {
    auto x = std::make_unique<Ext>();
    x->vals = Vals(e["v"]);
    B r;
    if constexpr (kStr) {
      // Characters before, between and after the strings; biased offsets.
      int64_t base = e["base"];
      x->chars = "##";
      for (auto& s : x->vals) { int64_t st = base + x->chars.size(); x->chars += s; x->offs.push_back({st, (int64_t)(st + s.size())}); x->chars += "#"; }
      r = StringsBuffer(SimpleBuffer<StringsBuffer::Offsets>(nullptr, x->offs), SimpleBuffer<char>(nullptr, absl::Span<const char>(x->chars.data(), x->chars.size())), base);
    } else if constexpr (kSimple) {
      x->plain.reset(new Val[x->vals.size() + 1]);
      for (size_t i = 0; i < x->vals.size(); ++i) x->plain[i] = x->vals[i];
      r = B(nullptr, absl::Span<const T>(x->plain.get(), x->vals.size()));
    } else { r = B(x->vals.size()); }
    auto& place = ext[e["x"].get<int>()];
    if (place) old.push_back(std::move(place));
    place = std::move(x);
    return r;
  }
  void Scribble(json& e) {
    Ext& x = *ext[e["x"].get<int>()];
    if constexpr (kStr) { for (auto& c : x.chars) c = '!'; }
    if constexpr (kSimple) { for (size_t i = 0; i < x.vals.size(); ++i) x.plain[i] = C::In(e["junk"]); }
  }
  void Run(json& e) override {
    std::string op = e["op"];
    auto I = [&]() -> B& { return buf[e["i"].get<int>()]; };
    auto J = [&]() -> B& { return buf[e["j"].get<int>()]; };
    if (op == "create") I() = Create(e);
    else if (op == "uninit") I() = B::CreateUninitialized(e["n"].get<int>(), fac);
    else if (op == "build") I() = Build(e);
    else if (op == "reshuffle") I() = Reshuffle(e);
    else if (op == "slice") {
      auto slice = [&](auto&& b) -> B {
        if constexpr (!kVoid) { if (e["tail"].get<bool>()) return std::forward<decltype(b)>(b).Slice(e["off"].get<int>()); }
        return std::forward<decltype(b)>(b).Slice(e["off"].get<int>(), e["n"].get<int>());
      };
      if (e["i"] == e["j"] && e["mv"].get<bool>()) { B r = slice(std::move(J())); I() = std::move(r); }
      else { B r = slice(static_cast<const B&>(J())); I() = std::move(r); }
    }
    else if (op == "shallow") { keep.push_back(J()); I() = J().ShallowCopy(); }
    else if (op == "deep") I() = J().DeepCopy(fac);
    else if (op == "owned") { keep.push_back(J()); I() = ArenaTraits<B>::MakeOwned(J().ShallowCopy(), GetHeapBufferFactory()); }
    else if (op == "copy") I() = J();
    else if (op == "wrap") I() = Wrap(e);
    else if (op == "scribble") Scribble(e);
    else if (op == "reset") {
      for (auto& b : buf) b = ArenaTraits<B>::MakeOwned(std::move(b), GetHeapBufferFactory());
      keep.clear();
      if (arena) {
        arena->Reset();
        for (int i = 0; i < 40; ++i) { auto [h, p] = arena->CreateRawBuffer(100); std::memset(p, '!', 100); }
        arena->Reset();
      }
    }
    Observe(e);
  }
};
std::unique_ptr<Machine> m;
}  // namespace

int main(int argc, char** argv) {
  Handler run = [](json& e) { m->Run(e); };
  std::map<std::string, Handler> h;
  for (const char* op : {"create", "uninit", "build", "reshuffle", "slice", "shallow", "deep", "owned", "copy", "wrap", "scribble", "reset"}) h[op] = run;
  h["begin"] = [](json& e) {
    std::string k = e["kind"], f = e["fac"];
    m.reset();
    if (k == "i32") m = std::make_unique<Typed<int32_t, Buffer<int32_t>>>(f);
    if (k == "i64") m = std::make_unique<Typed<int64_t, Buffer<int64_t>>>(f);
    if (k == "f64") m = std::make_unique<Typed<double, Buffer<double>>>(f);
    if (k == "bool") m = std::make_unique<Typed<bool, Buffer<bool>>>(f);
    if (k == "text") m = std::make_unique<Typed<Text, Buffer<Text>>>(f);
    if (k == "obj") m = std::make_unique<Typed<std::string, SimpleBuffer<std::string>>>(f);
    if (k == "unit") m = std::make_unique<Typed<Unit, Buffer<Unit>>>(f);
    m->Run(e);
  };
  return DriverMain(argc, argv, h);
}
