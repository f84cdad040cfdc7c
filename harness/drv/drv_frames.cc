#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <typeinfo>
#include <vector>
#include "common/driver.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/util/struct_field.h"

using arolla::FrameLayout;
using arolla::FramePtr;
using arolla::MemoryAllocation;

namespace {
struct LogEntry { char* at; const char* t; };
std::vector<LogEntry> born, died;

struct T3 { char x[3]; };
struct alignas(16) P16 { int64_t a, b; };
struct NZ { int v = 5; };  // trivially destructible, needs construction
struct Cnt {
  int64_t v = 7;
  Cnt() { born.push_back({reinterpret_cast<char*>(this), "k"}); }
  Cnt(const Cnt&) = delete;
  ~Cnt() { died.push_back({reinterpret_cast<char*>(this), "k"}); }
};
struct Big {
  char pad[17];
  int v = 9;
  Big() { born.push_back({reinterpret_cast<char*>(this), "g"}); }
  ~Big() { died.push_back({reinterpret_cast<char*>(this), "g"}); }
};
struct Zd {  // constructed by zeroing, needs destruction
  int v;
  ~Zd() { died.push_back({reinterpret_cast<char*>(this), "z"}); }
};
struct Inner {
  int16_t x; int16_t y;
  static auto ArollaStructFields() {
    using CppType = Inner;
    return std::tuple{AROLLA_DECLARE_STRUCT_FIELD(x), AROLLA_DECLARE_STRUCT_FIELD(y)};
  }
};
struct Outer {
  double d; Inner in; int32_t e;
  static auto ArollaStructFields() {
    using CppType = Outer;
    return std::tuple{AROLLA_DECLARE_STRUCT_FIELD(d), AROLLA_DECLARE_STRUCT_FIELD(in), AROLLA_DECLARE_STRUCT_FIELD(e)};
  }
};
}  // namespace
template <> struct arolla::is_bzero_constructible<Zd> : std::true_type {};

namespace {
constexpr int kBad = -9999;
struct Ops {
  size_t size, align;
  const std::type_info* info;
  size_t (*add)(FrameLayout::Builder&);
  bool (*reg)(FrameLayout::Builder&, size_t, bool);
  int (*get)(FramePtr, size_t);
  void (*set)(FramePtr, size_t, int);
};
int G(char v) { return v; }
void S(char* p, int v) { *p = v; }
int G(int16_t v) { return v; }
void S(int16_t* p, int v) { *p = v; }
int G(int32_t v) { return v; }
void S(int32_t* p, int v) { *p = v; }
int G(double v) { return v; }
void S(double* p, int v) { *p = v; }
int G(const T3& v) { return v.x[0] == v.x[1] && v.x[1] == v.x[2] ? v.x[0] : kBad; }
void S(T3* p, int v) { p->x[0] = p->x[1] = p->x[2] = v; }
int G(const P16& v) { return v.a == v.b ? v.a : kBad; }
void S(P16* p, int v) { p->a = p->b = v; }
int G(const NZ& v) { return v.v; }
void S(NZ* p, int v) { p->v = v; }
int G(const Cnt& v) { return v.v; }
void S(Cnt* p, int v) { p->v = v; }
int G(const Big& v) { return v.v; }
void S(Big* p, int v) { p->v = v; std::memset(p->pad, v, 17); }
int G(const Zd& v) { return v.v; }
void S(Zd* p, int v) { p->v = v; }
int G(const Outer& v) { return v.d == v.in.x && v.d == v.in.y && v.d == v.e ? v.e : kBad; }
void S(Outer* p, int v) { p->d = v; p->in.x = p->in.y = v; p->e = v; }
int G(const Inner& v) { return v.x == v.y ? v.x : kBad; }
void S(Inner* p, int v) { p->x = p->y = v; }

template <class T> FrameLayout::Slot<T> At(size_t off) { return FrameLayout::Slot<T>::UnsafeSlotFromOffset(off); }
template <class T> Ops Make() {
  return {sizeof(T), alignof(T), &typeid(T),
          [](FrameLayout::Builder& b) { return b.AddSlot<T>().byte_offset(); },
          [](FrameLayout::Builder& b, size_t off, bool dup) { return b.RegisterUnsafeSlot(At<T>(off), dup).ok(); },
          [](FramePtr f, size_t off) { return G(f.Get(At<T>(off))); },
          [](FramePtr f, size_t off, int v) { S(f.GetMutable(At<T>(off)), v); }};
}
const std::map<std::string, Ops> kT = {
    {"c", Make<char>()}, {"s", Make<int16_t>()}, {"i", Make<int32_t>()}, {"d", Make<double>()},
    {"t", Make<T3>()}, {"p", Make<P16>()}, {"n", Make<NZ>()}, {"k", Make<Cnt>()}, {"g", Make<Big>()},
    {"z", Make<Zd>()}, {"o", Make<Outer>()}, {"y", Make<Inner>()}};

using Fields = std::vector<std::pair<size_t, std::string>>;
struct Layout {
  std::optional<FrameLayout::Builder> bldr;
  std::unique_ptr<FrameLayout> built;
  Fields fields;
};
struct Alloc {
  int layout = 0;
  size_t n = 0;
  std::unique_ptr<char[]> raw;
  char* mem = nullptr;
  std::unique_ptr<MemoryAllocation> ma;
  char* At(size_t k, size_t size) { return mem + k * size; }
};
Layout lay[4];
Alloc al[4];
constexpr size_t kGuard = 64;

// [alloc, copy, offset, type] of a constructor or destructor call.
json Locate(const std::vector<LogEntry>& log, int a, char* mem, size_t size, size_t n) {
  json r = json::array();
  for (auto& e : log) {
    size_t d = e.at - mem;
    if (e.at < mem || d >= size * n) r.push_back(json::array({a, -1, 0, e.t}));
    else r.push_back(json::array({a, d / size + 1, d % size, e.t}));
  }
  return r;
}
// The byte offset meant by field number "f" (0: the frame) plus "delta".
void Resolve(Layout& l, json& e) {
  int f = e["f"];
  f = f > (int)l.fields.size() ? 0 : f;
  e["off"] = (f ? l.fields[f - 1].first : 0) + e["delta"].get<size_t>();
  e["size"] = kT.at(e["t"]).size;
}
void Clear(Alloc& a) { a.layout = 0; a.n = 0; a.raw.reset(); a.mem = nullptr; }
void Observe(json& e) {
  json vals = json::array(), guards = json::array();
  for (int a = 1; a <= 3; ++a) {
    json v = json::array();
    bool ok = true;
    Alloc& x = al[a];
    if (x.layout && (x.raw || (x.ma && x.ma->IsValid()))) {
      const FrameLayout* l = lay[x.layout].built.get();
      for (size_t k = 0; k < x.n; ++k) {
        json row = json::array();
        FramePtr f = x.ma ? x.ma->frame() : FramePtr(x.At(k, l->AllocSize()), l);
        for (auto& [off, t] : lay[x.layout].fields) row.push_back(kT.at(t).get(f, off));
        v.push_back(row);
      }
      if (x.raw) {
        size_t sz = l->AllocSize() * x.n;
        for (size_t i = 1; i <= kGuard; ++i) if (x.mem[-(ptrdiff_t)i] != 0x5A || x.mem[sz + i - 1] != 0x5A) ok = false;
      }
    }
    vals.push_back(v);
    guards.push_back(ok);
  }
  e["vals"] = vals;
  e["guards"] = guards;
}
}  // namespace

int main(int argc, char** argv) {
  auto L = [](json& e) -> Layout& { return lay[e["l"].get<int>()]; };
  auto A = [](json& e) -> Alloc& { return al[e["a"].get<int>()]; };
  return DriverMain(argc, argv, {
    {"begin", [&](json& e) {
       for (auto& a : al) { a.ma.reset(); Clear(a); }
       for (auto& l : lay) { l.bldr.reset(); l.built.reset(); l.fields.clear(); }
       Observe(e); }},
    {"nb", [&](json& e) { L(e).bldr.emplace(); L(e).built.reset(); L(e).fields.clear(); }},
    {"add", [&](json& e) {
       std::string t = e["t"];
       size_t off = kT.at(t).add(*L(e).bldr);
       L(e).fields.push_back({off, t});
       e["off"] = off; e["size"] = kT.at(t).size; e["align"] = kT.at(t).align; }},
    {"sub", [&](json& e) {
       Layout& m = lay[e["m"].get<int>()];
       size_t off = L(e).bldr->AddSubFrame(*m.built).byte_offset();
       for (auto& [o, t] : m.fields) L(e).fields.push_back({off + o, t});
       e["off"] = off; }},
    {"reg", [&](json& e) {
       Resolve(L(e), e);
       e["ok"] = kT.at(e["t"]).reg(*L(e).bldr, e["off"].get<size_t>(), e["dup"].get<bool>()); }},
    {"unreg", [&](json& e) {
       e["ok"] = L(e).bldr->RegisterUnsafeSlot(FrameLayout::Slot<int>::UnsafeUninitializedSlot()).ok(); }},
    {"build", [&](json& e) {
       Layout& l = L(e);
       l.built = std::make_unique<FrameLayout>(std::move(*l.bldr).Build());
       l.bldr.reset();
       e["size"] = l.built->AllocSize(); e["align"] = l.built->AllocAlignment(); }},
    {"has", [&](json& e) {
       Resolve(L(e), e);
       e["has"] = L(e).built->HasField(e["off"].get<size_t>(), *kT.at(e["t"]).info); }},
    {"alloc", [&](json& e) {
       Alloc& a = A(e);
       a.layout = e["l"]; a.n = e["n"];
       const FrameLayout* l = lay[a.layout].built.get();
       size_t sz = l->AllocSize() * a.n;
       a.raw = std::make_unique<char[]>(sz + 2 * kGuard + 256);
       uintptr_t p = reinterpret_cast<uintptr_t>(a.raw.get()) + kGuard;
       size_t al = l->AllocAlignment();
       p = (p + 2 * al - 1) / (2 * al) * (2 * al) + al;  // aligned, but not more than asked for
       a.mem = reinterpret_cast<char*>(p);
       std::memset(a.mem - kGuard, 0x5A, sz + 2 * kGuard);
       born.clear(); died.clear();
       if (e["one"].get<bool>()) l->InitializeAlignedAlloc(a.mem); else l->InitializeAlignedAllocN(a.mem, a.n);
       e["born"] = Locate(born, e["a"], a.mem, l->AllocSize(), a.n);
       e["died"] = Locate(died, e["a"], a.mem, l->AllocSize(), a.n);
       Observe(e); }},
    {"ma", [&](json& e) {
       Alloc& a = A(e);
       a.layout = e["l"]; a.n = 1;
       const FrameLayout* l = lay[a.layout].built.get();
       born.clear(); died.clear();
       a.ma = std::make_unique<MemoryAllocation>(l);
       char* m = static_cast<char*>(a.ma->frame().GetRawPointer(0));
       e["aligned"] = reinterpret_cast<uintptr_t>(m) % l->AllocAlignment() == 0;
       e["born"] = Locate(born, e["a"], m, l->AllocSize(), 1);
       e["died"] = Locate(died, e["a"], m, l->AllocSize(), 1);
       Observe(e); }},
    {"move", [&](json& e) {  // a takes over the memory of b (both MemoryAllocation)
       Alloc &a = A(e), &b = al[e["b"].get<int>()];
       born.clear(); died.clear();
       char* old = nullptr; size_t osz = 0;
       if (a.ma && a.ma->IsValid()) { old = static_cast<char*>(a.ma->frame().GetRawPointer(0)); osz = lay[a.layout].built->AllocSize(); }
       if (e["ctor"].get<bool>()) { auto m = std::make_unique<MemoryAllocation>(std::move(*b.ma)); a.ma = std::move(m); }
       else { if (!a.ma) a.ma = std::make_unique<MemoryAllocation>(); *a.ma = std::move(*b.ma); }
       e["valid"] = json::array({a.ma->IsValid(), b.ma->IsValid()});
       a.layout = b.layout; a.n = 1;
       b.layout = 0; b.n = 0; b.ma.reset();
       e["born"] = Locate(born, e["a"], old, osz, 1);
       e["died"] = Locate(died, e["a"], old, osz, 1);
       Observe(e); }},
    {"set", [&](json& e) {
       Alloc& a = A(e);
       const FrameLayout* l = lay[a.layout].built.get();
       FramePtr f = a.ma ? a.ma->frame() : FramePtr(a.At(e["k"].get<int>() - 1, l->AllocSize()), l);
       auto& [off, t] = lay[a.layout].fields[e["s"].get<int>() - 1];
       kT.at(t).set(f, off, e["v"]);
       Observe(e); }},
    {"free", [&](json& e) {
       Alloc& a = A(e);
       const FrameLayout* l = lay[a.layout].built.get();
       born.clear(); died.clear();
       char* m; size_t n = a.n;
       if (a.ma) { m = static_cast<char*>(a.ma->frame().GetRawPointer(0)); a.ma.reset(); }
       else { m = a.mem; if (e["one"].get<bool>()) l->DestroyAlloc(m); else l->DestroyAllocN(m, n); }
       e["born"] = Locate(born, e["a"], m, l->AllocSize(), n);
       e["died"] = Locate(died, e["a"], m, l->AllocSize(), n);
       Clear(a);
       Observe(e); }},
  });
}
