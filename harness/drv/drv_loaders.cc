// Input loaders and slot listeners.
#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include "absl/container/flat_hash_map.h"
#include "absl/strings/str_format.h"
#include "common/driver.h"
#include "arolla/io/accessors_input_loader.h"
#include "arolla/io/accessors_slot_listener.h"
#include "arolla/io/chain_slot_listener.h"
#include "arolla/io/delegating_input_loader.h"
#include "arolla/io/delegating_slot_listener.h"
#include "arolla/io/input_loader.h"
#include "arolla/io/slot_listener.h"
#include "arolla/io/span_input_loader.h"
#include "arolla/io/tuple_input_loader.h"
#include "arolla/io/typed_refs_input_loader.h"
#include "arolla/io/wildcard_input_loader.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/typed_slot.h"
using namespace arolla;

namespace {
struct In {
  int id = 0;
  std::vector<int> vec;
  std::tuple<int, float> tup;
  std::vector<TypedRef> refs;
  std::vector<std::pair<std::string, int>> map;
  std::vector<In> kids;
  // keeps what refs point to
  std::vector<std::unique_ptr<TypedValue>> keep;
};
struct Out { int id = 0; std::vector<Out> kids; };

QTypePtr Type(const std::string& t) { return t == "i" ? GetQType<int>() : t == "f" ? GetQType<float>() : t == "o" ? GetQType<OptionalValue<int>>() : GetQType<double>(); }
std::string Name(QTypePtr t) { return t == nullptr ? "" : t == GetQType<int>() ? "i" : t == GetQType<float>() ? "f" : t == GetQType<double>() ? "d" : "o"; }

In MakeIn(const json& j) {
  In in;
  in.id = j["id"];
  for (int i = 0; i < j["vec"].get<int>(); ++i) in.vec.push_back(1000 * in.id + 101 + i);
  in.tup = {1000 * in.id + 201, 1000 * in.id + 202};
  int i = 300;
  for (auto& t : j["refs"]) {
    int v = 1000 * in.id + ++i;
    in.keep.push_back(std::make_unique<TypedValue>(t == "i" ? TypedValue::FromValue(v) : TypedValue::FromValue(float(v))));
    in.refs.push_back(in.keep.back()->AsRef());
  }
  for (auto& kv : j["map"]) in.map.push_back({kv["k"], kv["v"]});
  for (auto& k : j["kids"]) in.kids.push_back(MakeIn(k));
  return in;
}
Out MakeOut(const json& j) {
  Out o;
  o.id = j["id"];
  for (auto& k : j["kids"]) o.kids.push_back(MakeOut(k));
  return o;
}

std::vector<int> g_calls;
int g_inv = 0;
bool g_fac = true;
UnsafeArenaBufferFactory g_factory(256);
int Log(int v) { g_calls.push_back(v); return v; }
void Fac(RawBufferFactory* f) { if (f != &g_factory) g_fac = false; }

// Accessors in all signatures.
template <class T> struct A0 { int f; T operator()(const In& in) const { return Log(1000 * in.id + f); } };
template <class T> struct A1 { int f; void operator()(const In& in, T* out) const { *out = Log(1000 * in.id + f); } };
template <class T> struct A2 { int f; T operator()(const In& in, RawBufferFactory* r) const { Fac(r); return Log(1000 * in.id + f); } };
template <class T> struct A3 { int f; void operator()(const In& in, RawBufferFactory* r, T* out) const { Fac(r); *out = Log(1000 * in.id + f); } };
template <class T> struct W0 { absl::StatusOr<T> operator()(const In& in, const std::string& k) const {
  for (auto& [a, v] : in.map) if (a == k) return Log(v);
  return absl::NotFoundError("no key"); } };
template <class T> struct W1 { absl::StatusOr<T> operator()(const In& in, const std::string& k, RawBufferFactory* r) const { Fac(r); return W0<T>()(in, k); } };

using L = std::unique_ptr<InputLoader<In>>;
using LOr = absl::StatusOr<L>;

template <size_t I, class... As>
LOr Acc(const json& fs, std::tuple<std::pair<std::string, As>...> done) {
  if (I == fs.size()) {
    return CreateAccessorsInputLoaderFromTuple<In>(std::move(done));
  }
  if constexpr (I < 3) {
    const json& f = fs[I];
    std::string n = f["n"];
    int id = f["f"];
    auto add = [&](auto a) { return Acc<I + 1>(fs, std::tuple_cat(std::move(done), std::make_tuple(std::pair<std::string, decltype(a)>(n, a)))); };
    bool i = f["t"] == "i";
    if constexpr (I == 0) return i ? add(A0<int>{id}) : add(A3<float>{id});
    if constexpr (I == 1) return i ? add(A1<int>{id}) : add(A2<float>{id});
    if constexpr (I == 2) return i ? add(A2<int>{id}) : add(A0<float>{id});
  }
  return absl::InternalError("too many");
}
absl::ParsedFormat<'s'> Format(const json& n) {
  return *absl::ParsedFormat<'s'>::New(n["pre"].get<std::string>() + "%s" + n["suf"].get<std::string>());
}
struct SharedDelete;
LOr Load(const json& n) {
  std::string k = n["k"];
  std::vector<std::string> names;
  if (n.contains("fs")) for (auto& f : n["fs"]) names.push_back(f["n"]);
  if (k == "acc") return Acc<0>(n["fs"], std::tuple<>());
  if (k == "span") return CreateDelegatingInputLoaderWithCopyAllowed<In>(SpanInputLoader<int>::Create(names), [](const In& in) -> absl::Span<const int> { return in.vec; });
  if (k == "tuple") {
    ASSIGN_OR_RETURN(auto t, (TupleInputLoader<std::tuple<int, float>>::Create(names)));
    return CreateDelegatingInputLoader<In>(std::move(t), [](const In& in) -> const std::tuple<int, float>& { return in.tup; });
  }
  if (k == "refs") {
    std::vector<std::pair<std::string, QTypePtr>> args;
    for (auto& f : n["fs"]) args.push_back({f["n"], Type(f["t"])});
    return CreateDelegatingInputLoaderWithCopyAllowed<In>(CreateTypedRefsInputLoader(args), [](const In& in) -> absl::Span<const TypedRef> { return in.refs; });
  }
  if (k == "wild") {
    bool own = n["own"];
    if (own) {
      std::string pre = n["pre"], suf = n["suf"];
      return WildcardInputLoader<In>::Build(W1<int>(), [pre, suf](absl::string_view name) -> std::optional<std::string> {
        std::string s(name);
        if (s.size() < pre.size() + suf.size() || s.compare(0, pre.size(), pre) != 0 || s.compare(s.size() - suf.size(), suf.size(), suf) != 0) return std::nullopt;
        return s.substr(pre.size(), s.size() - pre.size() - suf.size());
      }, {pre + "*" + suf});
    }
    return WildcardInputLoader<In>::Build(W0<int>(), Format(n));
  }
  if (k == "cb") {
    absl::flat_hash_map<std::string, QTypePtr> types;
    for (auto& f : n["fs"]) types[f["n"].get<std::string>()] = Type(f["t"]);
    bool own = n["own"];
    auto fn = [types, own](const In& in, const std::string& key, WildcardInputLoaderCallback cb) -> absl::Status {
      ASSIGN_OR_RETURN(int v, W0<int>()(in, key));
      if (own) return cb(types.at(key) == GetQType<int>() ? TypedValue::FromValue(v).AsRef() : TypedValue::FromValue(float(v)).AsRef());
      return types.at(key) == GetQType<int>() ? cb(v) : cb(float(v));
    };
    return WildcardInputLoader<In>::BuildFromCallbackAccessorFn(fn, types, Format(n));
  }
  if (k == "chain") {
    std::vector<L> subs;
    for (auto& s : n["subs"]) { ASSIGN_OR_RETURN(auto x, Load(s)); subs.push_back(std::move(x)); }
    int inv = n["inv"];
    if (inv == 0) {
      if (subs.size() == 2) return ChainInputLoader<In>::Build(std::move(subs[0]), std::move(subs[1]));
      return ChainInputLoader<In>::Build(std::move(subs));
    }
    return ChainInputLoader<In>::Build(std::move(subs), [inv](absl::Span<const BoundInputLoader<In>> bs, const In& in, FramePtr frame, RawBufferFactory* f) -> absl::Status {
      ++g_inv;
      Fac(f);
      if (inv == 1) return ChainInputLoader<In>::InvokeBoundLoaders(bs, in, frame, f);
      for (size_t i = bs.size(); i-- > 0;) RETURN_IF_ERROR(bs[i](in, frame, f));
      return absl::OkStatus();
    });
  }
  if (k == "dyn") {
    auto subs = std::make_shared<absl::flat_hash_map<std::string, json>>();
    std::vector<std::string> keys;
    for (size_t i = 0; i < n["keys"].size(); ++i) {
      keys.push_back(n["keys"][i]);
      (*subs)[keys.back()] = n["subs"][i];
      RETURN_IF_ERROR(Load(n["subs"][i]).status());
    }
    return CreateDynamicDelegatingInputLoader<In>([subs](absl::string_view key) -> LOr {
      auto it = subs->find(std::string(key));
      if (it == subs->end()) return absl::NotFoundError("no loader");
      return Load(it->second);
    }, [](absl::string_view name) -> std::optional<std::string> { if (name.empty()) return std::nullopt; return std::string(name.substr(0, 1)); }, keys);
  }
  ASSIGN_OR_RETURN(auto sub, Load(n["sub"]));
  if (k == "filter") {
    std::vector<std::string> allowed;
    for (auto& x : n["names"]) allowed.push_back(x);
    return MakeFilteringInputLoader<In>(std::move(sub), allowed);
  }
  if (k == "pre") {
    int kid = n["kid"].get<int>() - 1;
    std::string pre = n["pre"];
    return CreateDelegatingInputLoader<In>(std::move(sub), [kid](const In& in) -> const In& { return in.kids.at(kid); }, pre);
  }
  // wrap
  if (n["own"]) return MakeSharedOwningInputLoader<In>(std::shared_ptr<const InputLoader<In>>(std::move(sub)));
  auto* keep = new L(std::move(sub));
  return MakeNotOwningInputLoader<In>(keep->get());
}

// A frame with slots for names and guards between them.
struct Frame {
  FrameLayout layout;
  std::vector<std::pair<std::string, TypedSlot>> slots;
  std::vector<FrameLayout::Slot<int>> guards;
  std::unique_ptr<MemoryAllocation> mem;
  explicit Frame(const json& js) {
    FrameLayout::Builder b;
    guards.push_back(b.AddSlot<int>());
    for (auto& s : js) {
      slots.push_back({s["n"], AddSlot(Type(s["t"]), &b)});
      guards.push_back(b.AddSlot<int>());
    }
    layout = std::move(b).Build();
    mem = std::make_unique<MemoryAllocation>(&layout);
  }
  absl::flat_hash_map<std::string, TypedSlot> Map() const { return {slots.begin(), slots.end()}; }
  void Fill(const std::vector<int>& v) {
    for (auto g : guards) mem->frame().Set(g, -7);
    for (size_t i = 0; i < slots.size(); ++i) {
      auto t = slots[i].second.GetType();
      if (t == GetQType<int>()) mem->frame().Set(slots[i].second.UnsafeToSlot<int>(), v[i]);
      if (t == GetQType<float>()) mem->frame().Set(slots[i].second.UnsafeToSlot<float>(), float(v[i]));
    }
  }
  bool Intact() const {
    for (auto g : guards) if (mem->frame().Get(g) != -7) return false;
    return true;
  }
  std::vector<int> Read() const {
    std::vector<int> r;
    for (auto& [n, s] : slots) {
      auto t = s.GetType();
      r.push_back(t == GetQType<int>() ? mem->frame().Get(s.UnsafeToSlot<int>()) : t == GetQType<float>() ? int(mem->frame().Get(s.UnsafeToSlot<float>())) : -9);
    }
    return r;
  }
};

void LoadEv(json& e) {
  auto l = Load(e["n"]);
  e["made"] = l.ok();
  e["types"] = e["sug"] = e["rest"] = e["res"] = json::array();
  e["bound"] = e["all"] = false;
  if (!l.ok()) return;
  std::vector<std::string> q;
  for (auto& x : e["queries"]) { q.push_back(x); e["types"].push_back(Name((*l)->GetQTypeOf(q.back()))); }
  e["sug"] = (*l)->SuggestAvailableNames();
  std::vector<std::string> names;
  for (auto& s : e["slots"]) names.push_back(s["n"]);
  auto all = GetInputLoaderQTypes(**l, names);
  e["all"] = all.ok() && all->size() == names.size();
  if (all.ok()) for (auto& x : names) if (all->at(x) != (*l)->GetQTypeOf(x)) e["all"] = false;
  Frame f(e["slots"]);
  auto map = f.Map();
  absl::StatusOr<BoundInputLoader<In>> b = absl::UnknownError("");
  if (e["partial"]) {
    b = (*l)->PartialBind(&map);
    for (auto& [n, s] : map) e["rest"].push_back(n);
  } else {
    b = (*l)->Bind(map);
  }
  e["bound"] = b.ok();
  if (!b.ok()) return;
  for (auto& j : e["ins"]) {
    In in = MakeIn(j);
    f.Fill(std::vector<int>(f.slots.size(), -5));
    g_calls.clear();
    g_inv = 0;
    g_fac = true;
    auto st = (*b)(in, f.mem->frame(), &g_factory);
    e["res"].push_back({{"ok", st.ok()}, {"vals", f.Read()}, {"calls", g_calls}, {"inv", g_inv}, {"intact", f.Intact()}, {"fac", g_fac}});
  }
}

std::vector<std::array<int, 3>> g_heard;
template <class T> struct H { int f; void operator()(T v, Out* o) const { g_heard.push_back({o->id, f, int(v)}); } };
template <class T> struct HC { int f; void operator()(const T& v, Out* o) const { g_heard.push_back({o->id, f, int(v)}); } };
using S = std::unique_ptr<SlotListener<Out>>;
using SOr = absl::StatusOr<S>;
template <size_t I, class... As>
SOr Hear(const json& fs, std::tuple<std::pair<std::string, As>...> done) {
  if (I == fs.size()) return CreateAccessorsSlotListenerFromTuple<Out>(std::move(done));
  if constexpr (I < 3) {
    const json& f = fs[I];
    std::string n = f["n"];
    int id = f["f"];
    auto add = [&](auto a) { return Hear<I + 1>(fs, std::tuple_cat(std::move(done), std::make_tuple(std::pair<std::string, decltype(a)>(n, a)))); };
    if (f["t"] == "i") { if constexpr (I == 1) return add(HC<int>{id}); else return add(H<int>{id}); }
    if constexpr (I == 1) return add(H<float>{id}); else return add(HC<float>{id});
  }
  return absl::InternalError("too many");
}
SOr Listen(const json& n) {
  std::string k = n["k"];
  if (k == "acc") return Hear<0>(n["fs"], std::tuple<>());
  if (k == "chain") {
    std::vector<S> subs;
    for (auto& s : n["subs"]) { ASSIGN_OR_RETURN(auto x, Listen(s)); subs.push_back(std::move(x)); }
    if (subs.size() == 2) return ChainSlotListener<Out>::Build(std::move(subs[0]), std::move(subs[1]));
    return ChainSlotListener<Out>::Build(std::move(subs));
  }
  ASSIGN_OR_RETURN(auto sub, Listen(n["sub"]));
  if (k == "pre") {
    int kid = n["kid"].get<int>() - 1;
    std::string pre = n["pre"];
    return CreateDelegatingSlotListener<Out>(std::move(sub), [kid](Out* o) -> Out* { return &o->kids.at(kid); }, pre);
  }
  if (n["own"]) return MakeSharedOwningSlotListener<Out>(std::shared_ptr<const SlotListener<Out>>(std::move(sub)));
  auto* keep = new S(std::move(sub));
  return MakeNotOwningSlotListener<Out>(keep->get());
}
void ListenEv(json& e) {
  auto l = Listen(e["n"]);
  e["made"] = l.ok();
  e["types"] = e["sug"] = e["res"] = json::array();
  e["bound"] = e["some"] = false;
  if (!l.ok()) return;
  for (auto& x : e["queries"]) e["types"].push_back(Name((*l)->GetQTypeOf(x.get<std::string>())));
  e["sug"] = (*l)->SuggestAvailableNames();
  Frame f(e["slots"]);
  auto map = f.Map();
  std::vector<int> v;
  for (auto& s : e["slots"]) v.push_back(s["v"]);
  absl::StatusOr<BoundSlotListener<Out>> b = absl::UnknownError("");
  if (e["partial"]) {
    auto p = (*l)->PartialBind(map);
    e["bound"] = p.ok();
    if (!p.ok() || !p->has_value()) return;
    b = std::move(**p);
  } else {
    b = (*l)->Bind(map);
    e["bound"] = b.ok();
    if (!b.ok()) return;
  }
  e["some"] = true;
  for (auto& j : e["outs"]) {
    Out o = MakeOut(j);
    f.Fill(v);
    g_heard.clear();
    auto st = (*b)(f.mem->frame(), &o);
    e["res"].push_back({{"ok", st.ok()}, {"heard", g_heard}, {"intact", f.Intact() && [&] { auto r = f.Read(); for (size_t i = 0; i < r.size(); ++i) if (r[i] != -9 && r[i] != v[i]) return false; return true; }()}});
  }
}
}  // namespace
int main(int argc, char** argv) { return DriverMain(argc, argv, {{"load", LoadEv}, {"listen", ListenEv}}); }
