// Bit operations of the real code on guarded memory.
#include <cstdint>
#include <vector>
#include "common/driver.h"
#include "arolla/util/algorithms.h"
#include "arolla/util/bits.h"
#include "arolla/dense_array/bitmap.h"

using namespace arolla;  // NOLINT

namespace {
template <class W>
struct Mem {
  static constexpr int B = sizeof(W) * 8;
  static constexpr int G = 3;
  std::vector<W> v;
  size_t n;
  W canary = static_cast<W>(0xA5C3'96E1'5A3C'691EULL);
  Mem(const json& pos, size_t words) : v(words + 2 * G), n(words) {
    for (int i = 0; i < G; ++i) v[i] = v[G + n + i] = canary;
    for (auto& p : pos) v[G + p.get<int>() / B] |= W{1} << (p.get<int>() % B);
  }
  W* data() { return v.data() + G; }
  bool guard() {
    for (int i = 0; i < G; ++i)
      if (v[i] != canary || v[G + n + i] != canary) return false;
    return true;
  }
  std::vector<int> out() {
    std::vector<int> r;
    for (size_t i = 0; i < n * B; ++i)
      if ((data()[i / B] >> (i % B)) & 1) r.push_back(i);
    return r;
  }
};
template <class W>
std::vector<int> Pos(W w) {
  std::vector<int> r;
  for (size_t i = 0; i < sizeof(W) * 8; ++i)
    if ((w >> i) & 1) r.push_back(i);
  return r;
}
std::vector<int> Pos(const bitmap::Bitmap& b) {
  std::vector<int> r;
  for (int64_t i = 0; i < b.size() * 32; ++i)
    if ((b[i / 32] >> (i % 32)) & 1) r.push_back(i);
  return r;
}
bitmap::Bitmap ToBitmap(Mem<uint32_t>& m) {
  return bitmap::Bitmap(nullptr, absl::Span<const uint32_t>(m.data(), m.n));
}

template <class W>
void Run(json& e) {
  std::string op = e["op"];
  size_t words = e.value("words_in", 0);
  Mem<W> m(e["m"], words);
  Mem<W> r(e.contains("r") ? e["r"] : json::array(), e.value("words_r", 0));
  auto before_r = r.out();
  bool ok = true;
  auto N = [&](const char* k) { return e[k].get<int64_t>(); };
  if (op == "getbit") e["res"] = GetBit<W>(m.data(), N("a"));
  else if (op == "setbit") SetBit<W>(m.data(), N("a")), e["out"] = m.out();
  else if (op == "setrange") SetBitsInRange<W>(m.data(), N("a"), N("b")), e["out"] = m.out();
  else if (op == "countrange") e["res"] = GetOnesCountInRange<W>(m.data(), N("a"), N("b"));
  else if (op == "findnext") e["res"] = Bits<W>::FindNextSetBitInVector(m.data(), N("a"), N("b"));
  else if (op == "ones") e["res"] = CountOnes<W>(m.data()[0]);
  else if (op == "lsb") e["res"] = FindLSBSetNonZero<W>(m.data()[0]);
  else if (op == "msb") e["res"] = BitScanReverse<W>(m.data()[0]);
  else if (op == "clz") e["res"] = CountLeadingZeros<W>(m.data()[0]);
  else if (op == "and") {
    Mem<W> d(json::array(), words);
    for (size_t i = 0; i < words; ++i) d.data()[i] = static_cast<W>(0x5A5A5A5A5A5A5A5AULL);
    auto before = m.out();
    LogicalAnd<W>(m.data(), r.data(), d.data(), words);
    e["out"] = d.out();
    ok = d.guard() && before == m.out();
  } else if (op == "andin") InPlaceLogicalAnd<W>(r.data(), m.data(), words), e["out"] = m.out();
  else if (op == "andoff") InplaceLogicalAndWithOffsets<W>(N("n"), r.data(), N("rs"), m.data(), N("ls")), e["out"] = m.out();
  else if (op == "copybits") CopyBits<W>(N("n"), r.data(), N("rs"), m.data(), N("ls")), e["out"] = m.out();
  if constexpr (sizeof(W) == 4) {
    if (op == "bm_get") {
      auto bm = ToBitmap(m);
      bool x = bitmap::GetBit(m.data(), N("a"));
      ok = x == bitmap::GetBit(bm, N("a"));
      e["res"] = x;
    } else if (op == "bm_set") bitmap::SetBit(m.data(), N("a")), e["out"] = m.out();
    else if (op == "bm_unset") bitmap::UnsetBit(m.data(), N("a")), e["out"] = m.out();
    else if (op == "bm_allset") e["res"] = bitmap::AreAllBitsSet(m.data(), N("n"));
    else if (op == "bm_allunset") e["res"] = bitmap::AreAllBitsUnset(m.data(), N("n"));
    else if (op == "bm_count") e["res"] = bitmap::CountBits(ToBitmap(m), N("a"), N("n"));
    else if (op == "bm_iter") {
      std::vector<bool> seq;
      bitmap::Iterate(ToBitmap(m), N("a"), N("n"), [&](bool x) { seq.push_back(x); });
      e["seq"] = seq;
    } else if (op == "bm_intersect") {
      Mem<W> d(json::array(), std::min(m.n, r.n));
      bitmap::Intersect(ToBitmap(m), ToBitmap(r), N("ls"), N("rs"), absl::Span<W>(d.data(), d.n));
      e["out"] = d.out();
      ok = d.guard();
    } else if (op == "bm_word") {
      auto bm = ToBitmap(m);
      e["word"] = Pos(bitmap::GetWord(bm, N("a")));
      e["off"] = Pos(bitmap::GetWordWithOffset(bm, N("a"), N("b")));
    } else if (op == "bm_almost") {
      bitmap::AlmostFullBuilder b(N("n"));
      for (auto& i : e["missed"]) b.AddMissed(i.get<int>());
      auto bm = N("size") == N("n") ? std::move(b).Build() : std::move(b).Build(N("size"));
      e["empty"] = bm.empty();
      e["words"] = bm.size();
      e["out"] = Pos(bm);
    } else if (op == "bm_builder") {
      bitmap::Builder b(N("n"));
      int at = 0;
      for (auto& c : e["chunks"]) {
        int k = c.get<int>();
        std::vector<bool> x;
        for (int i = 0; i < k; ++i) x.push_back(bitmap::GetBit(m.data(), at + i));
        at += k;
        if (k % 2) b.AddForEach(x, [](bool v) { return v; });
        else b.AddForEach(x.begin(), x.end(), [](bool v) { return v; });
      }
      auto bm = std::move(b).Build();
      e["empty"] = bm.empty();
      e["words"] = bm.size();
      e["out"] = Pos(bm);
    } else if (op == "bm_empty") {
      auto bm = bitmap::CreateEmptyBitmap(N("n"));
      e["words"] = bm.size();
      e["out"] = Pos(bm);
    }
  }
  e["guard"] = ok && m.guard() && r.guard() && before_r == r.out();
}
void Dispatch(json& e) {
  if (e["w"] == 32) Run<uint32_t>(e);
  else Run<uint64_t>(e);
}
void Round(json& e) {
  e["res"] = RoundUp<int64_t>(e["v"].get<int64_t>(), e["d"].get<int64_t>());
  e["guard"] = true;
}
}  // namespace

int main(int argc, char** argv) {
  std::map<std::string, Handler> h{{"roundup", Round}};
  for (auto o : {"getbit", "setbit", "setrange", "countrange", "findnext", "ones", "lsb", "msb", "clz", "and", "andin",
                 "andoff", "copybits", "bm_get", "bm_set", "bm_unset", "bm_allset", "bm_allunset", "bm_count", "bm_iter",
                 "bm_intersect", "bm_word", "bm_almost", "bm_builder", "bm_empty"})
    h[o] = Dispatch;
  return DriverMain(argc, argv, h);
}
