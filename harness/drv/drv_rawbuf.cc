#include <cstring>
#include <map>
#include <memory>
#include <vector>
#include "common/driver.h"
#include "google/protobuf/arena.h"
#include "arolla/memory/raw_buffer_factory.h"

using namespace arolla;

namespace {
// Heap factory that hands out numbered chunks with guard zones.
struct Chunks : RawBufferFactory {
  static constexpr size_t kGuard = 4096;
  struct Chunk { char* raw; char* p; size_t n; };
  std::map<int, Chunk> live;
  int made = 0;
  static bool Clean(const Chunk& c) {
    for (size_t i = 0; i < kGuard; ++i) if (c.raw[i] != 0x5A || c.p[c.n + i] != 0x5A) return false;
    return true;
  }
  bool spoiled = false;
  std::tuple<RawBufferPtr, void*> CreateRawBuffer(size_t n) override {
    char* raw = static_cast<char*>(::operator new(n + 2 * kGuard));
    std::memset(raw, 0x5A, n + 2 * kGuard);
    int id = ++made;
    live[id] = {raw, raw + kGuard, n};
    return {std::shared_ptr<void>(raw, [this, id](void* p) {
              if (!Clean(live[id])) spoiled = true;
              live.erase(id);
              ::operator delete(p);
            }), raw + kGuard};
  }
  std::tuple<RawBufferPtr, void*> ReallocRawBuffer(RawBufferPtr&& b, void* d, size_t o, size_t n) override {
    auto [h, p] = CreateRawBuffer(n);
    std::memcpy(p, d, std::min(o, n));
    b.reset();
    return {h, p};
  }
  bool Ok() const { for (auto& [_, c] : live) if (!Clean(c)) return false; return !spoiled; }
};
struct Block { RawBufferPtr h; char* p = nullptr; size_t n = 0; unsigned seed = 0; };
std::unique_ptr<Chunks> base;
std::unique_ptr<google::protobuf::Arena> pb;
std::unique_ptr<RawBufferFactory> own;
RawBufferFactory* fac;
UnsafeArenaBufferFactory* arena;
std::map<int, Block> blk;
unsigned seed = 0;

char Pat(unsigned s, size_t i) { return static_cast<char>((s * 131 + i * 7 + (i >> 8) * 13 + 1) & 0xff); }
void Fill(Block& b) { b.seed = ++seed; for (size_t i = 0; i < b.n; ++i) b.p[i] = Pat(b.seed, i); }
bool Holds(const Block& b, size_t n) { for (size_t i = 0; i < n; ++i) if (b.p[i] != Pat(b.seed, i)) return false; return true; }

void Observe(json& e) {
  json r = json::array();
  for (auto& [id, b] : blk) {
    int chunk = 0;
    int64_t off = -1;
    if (arena) for (auto& [c, x] : base->live) if (b.p >= x.p && b.p + b.n <= x.p + x.n) { chunk = c; off = b.p - x.p; }
    r.push_back({{"id", id}, {"chunk", chunk}, {"off", off}, {"holds", Holds(b, b.n)},
                 {"mod", b.n == 0 ? 0 : (int)(reinterpret_cast<uintptr_t>(b.p) % 8)}, {"owner", b.h != nullptr}});
  }
  e["blocks"] = r;
  e["guards"] = base->Ok();
}
}  // namespace

int main(int argc, char** argv) {
  return DriverMain(argc, argv, {
    {"begin", [](json& e) {
       blk.clear(); own.reset(); pb.reset(); base = nullptr; base = std::make_unique<Chunks>(); arena = nullptr;
       std::string f = e["fac"];
       if (f == "heap") fac = GetHeapBufferFactory();
       if (f == "proto") { pb = std::make_unique<google::protobuf::Arena>(); own = std::make_unique<ProtobufArenaBufferFactory>(*pb); fac = own.get(); }
       if (f == "arena") { auto a = std::make_unique<UnsafeArenaBufferFactory>(e["page"].get<int>(), *base); arena = a.get(); fac = a.get(); own = std::move(a); }
       Observe(e); }},
    {"create", [](json& e) {
       auto [h, p] = fac->CreateRawBuffer(e["n"].get<size_t>());
       Block b{std::move(h), static_cast<char*>(p), e["n"].get<size_t>()};
       Fill(b);
       blk[e["id"].get<int>()] = std::move(b);
       Observe(e); }},
    {"realloc", [](json& e) {
       Block& b = blk[e["id"].get<int>()];
       size_t n = e["n"].get<size_t>(), old = b.n;
       auto [h, p] = fac->ReallocRawBuffer(std::move(b.h), b.p, old, n);
       b.h = std::move(h); b.p = static_cast<char*>(p); b.n = n;
       e["kept"] = Holds(b, std::min(old, n));
       Fill(b);
       Observe(e); }},
    {"drop", [](json& e) { blk.erase(e["id"].get<int>()); Observe(e); }},
    {"reset", [](json& e) { blk.clear(); arena->Reset(); Observe(e); }},
  });
}
