// Binds rendered loaders and listeners to the slots of a frame.
#include <optional>
#include <string>

#include "absl/container/flat_hash_map.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/shape_qtype.h"
#include "arolla/qtype/typed_slot.h"
#include "verif_path/load.h"
#include "verif_path/path.h"

namespace verif {
using namespace arolla;

namespace {
std::string Str(const json& cps) {  // code points
  std::string r;
  for (const auto& c : cps) {
    uint32_t u = c.get<uint32_t>();
    if (u < 0x80) r += (char)u;
    else if (u < 0x800) { r += (char)(0xc0 | u >> 6); r += (char)(0x80 | (u & 63)); }
    else { r += (char)(0xe0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
  }
  return r;
}
json Cps(const std::string& s) {
  json r = json::array();
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : 3;
    uint32_t u = n == 1 ? c : n == 2 ? c & 31 : c & 15;
    for (int k = 1; k < n; ++k) u = u << 6 | (s[i + k] & 63);
    r.push_back(u);
    i += n;
  }
  return r;
}

template <class F> bool EachType(F f) {
  return f((int32_t*)0) || f((int64_t*)0) || f((uint64_t*)0) || f((float*)0) || f((double*)0) || f((bool*)0) || f((Bytes*)0) || f((Text*)0);
}
std::string KindOf(QTypePtr q) {
  if (q == nullptr) return "none";
  if (q == GetQType<DenseArrayShape>()) return "shape:SHAPE";
  std::string res = "other:" + std::string(q->name());
  EachType([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (q == GetQType<T>()) res = "val:" + TypeName<T>();
    else if (q == GetQType<OptionalValue<T>>()) res = "opt:" + TypeName<T>();
    else if (q == GetDenseArrayQType<T>()) res = "arr:" + TypeName<T>();
    else return false;
    return true;
  });
  return res;
}
json ShowSlot(TypedSlot s, ConstFramePtr f) {
  QTypePtr q = s.GetType();
  if (q == GetQType<DenseArrayShape>()) return Result<DenseArrayShape>::Show(f.Get(s.UnsafeToSlot<DenseArrayShape>()));
  json res = {{"kind", "?"}};
  EachType([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (q == GetQType<T>()) res = Result<T>::Show(f.Get(s.UnsafeToSlot<T>()));
    else if (q == GetQType<OptionalValue<T>>()) res = Result<OptionalValue<T>>::Show(f.Get(s.UnsafeToSlot<OptionalValue<T>>()));
    else if (q == GetDenseArrayQType<T>()) res = Result<DenseArray<T>>::Show(f.Get(s.UnsafeToSlot<DenseArray<T>>()));
    else return false;
    return true;
  });
  return res;
}
// how: 0 as built, 1 without a bitmap if nothing is missing, 2 behind an offset
template <class T> DenseArray<T> Array(const json& j, int how) {
  DenseArray<T> a = Result<DenseArray<T>>::Read(j);
  if (how == 1) {
    bool full = true;
    for (const auto& x : j) full = full && !x.empty();
    if (full) a.bitmap = {};
  } else if (how == 2) {
    json k = json::array();
    for (int i = 0; i < 3; ++i) k.push_back(json::array());
    for (const auto& x : j) k.push_back(x);
    for (int i = 0; i < 2; ++i) k.push_back(json::array());
    a = Result<DenseArray<T>>::Read(k).Slice(3, j.size());
  }
  return a;
}
void SetSlot(TypedSlot s, FramePtr f, const json& v, int how) {
  QTypePtr q = s.GetType();
  if (q == GetQType<DenseArrayShape>()) return f.Set(s.UnsafeToSlot<DenseArrayShape>(), Result<DenseArrayShape>::Read(v));
  EachType([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (q == GetQType<T>()) f.Set(s.UnsafeToSlot<T>(), ReadValue<T>(v[0]));
    else if (q == GetQType<OptionalValue<T>>()) f.Set(s.UnsafeToSlot<OptionalValue<T>>(), Result<OptionalValue<T>>::Read(v));
    else if (q == GetDenseArrayQType<T>()) f.Set(s.UnsafeToSlot<DenseArray<T>>(), Array<T>(v, how));
    else return false;
    return true;
  });
}
template <class L> void Slots(json& e, const L& l, FrameLayout::Builder* b, absl::flat_hash_map<std::string, TypedSlot>* slots, std::vector<std::optional<TypedSlot>>* order) {
  json types = json::array();
  for (auto& w : e.at("want")) {
    std::string n = Str(w.at("n"));
    QTypePtr q = l.GetQTypeOf(n);
    types.push_back(KindOf(q));
    if (q == nullptr) { order->push_back(std::nullopt); continue; }
    if (w.contains("as")) q = GetQType<DenseArray<Unit>>();  // a type nothing has
    TypedSlot s = AddSlot(q, b);
    slots->emplace(n, s);
    order->push_back(s);
  }
  e["types"] = types;
}

template <class T> void LoadImpl(json& e, const InputLoader<T>& l) {
  json avail = json::array();
  for (const auto& n : l.SuggestAvailableNames()) avail.push_back(Cps(n));
  e["avail"] = avail;
  FrameLayout::Builder b;
  absl::flat_hash_map<std::string, TypedSlot> slots;
  std::vector<std::optional<TypedSlot>> order;
  Slots(e, l, &b, &slots, &order);
  FrameLayout layout = std::move(b).Build();
  json got = json::array();
  if (e.value("partial", false)) {
    FrameLayout::Builder b2;
    slots.emplace("no such input", AddSlot(GetQType<float>(), &b2));
  }
  auto bound = e.value("partial", false) ? l.PartialBind(&slots) : l.Bind(slots);
  if (e.value("partial", false)) e["left"] = slots.size();
  e["status"] = bound.ok() ? "OK" : "ERROR";
  if (bound.ok()) {
    MemoryAllocation alloc(&layout);
    UnsafeArenaBufferFactory arena(512);
    for (const auto& v : e.at("vs")) {
      T root;
      Build(v, root);
      auto st = (*bound)(root, alloc.frame(), e.value("arena", false) ? (RawBufferFactory*)&arena : GetHeapBufferFactory());
      if (!st.ok()) e["status"] = "RUN";
      json row = json::array();
      for (auto& s : order) row.push_back(s ? ShowSlot(*s, alloc.frame()) : json{{"kind", "none"}});
      got.push_back(row);
    }
  }
  e["got"] = got;
}
template <class T> void NamesImpl(json& e, const std::vector<std::unique_ptr<InputLoader<T>>>& shards) {
  json r = json::array();
  for (const auto& s : shards) {
    json k = json::array();
    for (const auto& n : s->SuggestAvailableNames()) k.push_back(Cps(n));
    r.push_back(k);
  }
  e["shards"] = r;
}
template <class T> void ListenImpl(json& e, const SlotListener<T>& l) {
  json avail = json::array();
  for (const auto& n : l.SuggestAvailableNames()) avail.push_back(Cps(n));
  e["avail"] = avail;
  FrameLayout::Builder b;
  absl::flat_hash_map<std::string, TypedSlot> slots;
  std::vector<std::optional<TypedSlot>> order;
  Slots(e, l, &b, &slots, &order);
  FrameLayout layout = std::move(b).Build();
  MemoryAllocation alloc(&layout);
  const auto& want = e.at("want");
  for (size_t i = 0; i < want.size(); ++i) {
    if (order[i] && !want[i].contains("as")) SetSlot(*order[i], alloc.frame(), want[i].at("val"), e.value("how", 0));
  }
  T root;
  Build(e.at("v"), root);
  auto bound = l.Bind(slots);
  if (!bound.ok()) {
    e["status"] = "ERROR";
  } else {
    e["status"] = (*bound)(alloc.frame(), &root).ok() ? "OK" : "RUN";
  }
  e["after"] = Dump(root);
}
}  // namespace

#define VERIF_ROOT(T)                                                                        \
  void Load(json& e, const InputLoader<T>& l) { LoadImpl(e, l); }                            \
  void Names(json& e, const std::vector<std::unique_ptr<InputLoader<T>>>& s) { NamesImpl(e, s); } \
  void Listen(json& e, const SlotListener<T>& l) { ListenImpl(e, l); }
VERIF_ROOTS
}  // namespace verif
