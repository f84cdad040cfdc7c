// Scalar comparison and arithmetic functors on operands given as raw bytes.
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>

#include "arolla/qexpr/operators/bool/comparison.h"
#include "arolla/qexpr/operators/core/logic_operators.h"
#include "arolla/qexpr/operators/math/arithmetic.h"
#include "common/driver.h"

using namespace arolla;

template <typename T>
T From(const json& j) {
  unsigned char b[sizeof(T)];
  for (size_t i = 0; i < sizeof(T); ++i) b[i] = j.at(i).get<int>();
  T t;
  std::memcpy(&t, b, sizeof(T));
  return t;
}
template <typename T>
json To(T t) {
  unsigned char b[sizeof(T)];
  std::memcpy(b, &t, sizeof(T));
  json r = json::array();
  for (unsigned char c : b) r.push_back((int)c);
  return r;
}
template <typename T>
json To(const absl::StatusOr<T>& s) {
  if (!s.ok()) return "E" + std::to_string((int)s.status().code());
  return To(*s);
}
json Bit(bool b) { return b ? 1 : 0; }
json Bit(OptionalUnit b) { return b.present ? 1 : 0; }

template <typename T>
void Cmp(json& e, const T& a, const T& b) {
  e["eq"] = Bit(EqualOp()(a, b));
  e["ne"] = Bit(NotEqualOp()(a, b));
  e["lt"] = Bit(LessOp()(a, b));
  e["le"] = Bit(LessEqualOp()(a, b));
  e["meq"] = Bit(MaskEqualOp()(a, b));
  e["mne"] = Bit(MaskNotEqualOp()(a, b));
  e["mlt"] = Bit(MaskLessOp()(a, b));
  e["mle"] = Bit(MaskLessEqualOp()(a, b));
}

template <typename T>
void Pair(json& e) {
  T a = From<T>(e["a"]), b = From<T>(e["b"]);
  Cmp(e, a, b);
  e["add"] = To<T>(AddOp()(a, b));
  e["add3"] = To<T>(AddOp()(a, b, a));
  e["sub"] = To<T>(SubtractOp()(a, b));
  e["mul"] = To<T>(MultiplyOp()(a, b));
  e["fdiv"] = To<T>(FloorDivOp()(a, b));
  e["mod"] = To<T>(ModOp()(a, b));
  e["max"] = To<T>(MaxOp()(a, b));
  e["min"] = To<T>(MinOp()(a, b));
  e["neg"] = To<T>(NegOp()(a));
  e["pos"] = To<T>(PosOp()(a));
  e["abs"] = To<T>(AbsOp()(a));
  e["sign"] = To<T>(SignOp()(a));
  if constexpr (std::is_floating_point_v<T>) {
    e["div"] = To<T>(DivideOp()(a, b));
    e["fmod"] = To<T>(FmodOp()(a, b));
    e["floor"] = To<T>(FloorOp()(a));
    e["ceil"] = To<T>(CeilOp()(a));
    e["round"] = To<T>(RoundOp()(a));
    e["isnan"] = Bit(IsNanOp()(a));
    e["isinf"] = Bit(IsInfOp()(a));
    e["isfin"] = Bit(IsFiniteOp()(a));
  }
}

// A result known to be a small multiple of 1/16 as an integer; else -999999.
template <typename T>
json Sixteenths(T x) {
  T y = x * 16;
  if (!(std::fabs(y) < 900000) || y != std::floor(y)) return -999999;
  return (int)y;
}
template <typename T>
json Sixteenths(const absl::StatusOr<T>& x) {
  if (!x.ok()) return "E" + std::to_string((int)x.status().code());
  return Sixteenths<T>(*x);
}

// Operands are small multiples of 1/4: every result below is exact.
template <typename T>
void Quarters(json& e) {
  T a = e["a"].get<int>() / T(4), b = e["b"].get<int>() / T(4);
  Cmp(e, a, b);
  e["add"] = Sixteenths<T>(AddOp()(a, b));
  e["add3"] = Sixteenths<T>(AddOp()(a, b, b));
  e["sub"] = Sixteenths<T>(SubtractOp()(a, b));
  e["mul"] = Sixteenths<T>(MultiplyOp()(a, b));
  e["fdiv"] = Sixteenths<T>(FloorDivOp()(a, b));
  e["mod"] = Sixteenths<T>(ModOp()(a, b));
  e["max"] = Sixteenths<T>(MaxOp()(a, b));
  e["min"] = Sixteenths<T>(MinOp()(a, b));
  e["floor"] = Sixteenths<T>(FloorOp()(a));
  e["ceil"] = Sixteenths<T>(CeilOp()(a));
  e["round"] = Sixteenths<T>(RoundOp()(a));
  e["neg"] = Sixteenths<T>(NegOp()(a));
  e["abs"] = Sixteenths<T>(AbsOp()(a));
  e["sign"] = Sixteenths<T>(SignOp()(a));
  // (a * b) / b and the sign-of-dividend remainder are exact as well.
  e["back"] = b == 0 ? json(0) : Sixteenths<T>(DivideOp()(a * b, b));
  e["fmod"] = b == 0 ? json(0) : Sixteenths<T>(FmodOp()(a, b));
}

int main(int argc, char** argv) {
  return DriverMain(
      argc, argv,
      {{"pair",
        [](json& e) {
          std::string t = e["t"];
          if (t == "i32") Pair<int32_t>(e);
          else if (t == "i64") Pair<int64_t>(e);
          else if (t == "u64") Pair<uint64_t>(e);
          else if (t == "f32") Pair<float>(e);
          else if (t == "f64") Pair<double>(e);
          else std::exit(77);
        }},
       {"quarters",
        [](json& e) {
          if (e["t"] == "f32") Quarters<float>(e);
          else Quarters<double>(e);
        }},
       {"str",
        [](json& e) {
          std::string a, b;
          for (int c : e["a"]) a += (char)c;
          for (int c : e["b"]) b += (char)c;
          if (e["t"] == "view") Cmp(e, std::string_view(a), std::string_view(b));
          else Cmp(e, a, b);
        }},
       {"bool", [](json& e) {
          bool a = e["a"].get<int>(), b = e["b"].get<int>();
          Cmp(e, a, b);
        }}});
}
