// Elementary math functors: raw results, and fixed-point observations.
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>

#include "arolla/qexpr/operators/math/arithmetic.h"
#include "arolla/qexpr/operators/math/math.h"
#include "common/driver.h"

using namespace arolla;

template <typename T>
T From(const json& j) {
  unsigned char b[sizeof(T)];
  for (size_t i = 0; i < sizeof(T); ++i) b[i] = j.at(i).get<int>();
  T t;
  std::memcpy(&t, b, sizeof(T));
  return t;
}
template <typename T>
json To(T t) {
  unsigned char b[sizeof(T)];
  std::memcpy(b, &t, sizeof(T));
  json r = json::array();
  for (unsigned char c : b) r.push_back((int)c);
  return r;
}
// Fixed point with the given scale; -1999999999 when out of range / NaN.
template <typename T>
json Fix(T x, double scale) {
  double y = (double)x * scale;
  if (!(std::fabs(y) < 1.9e9)) return -1999999999;
  return (int)std::llround(y);
}

template <typename T>
T F(const std::string& f, T x) {
  if (f == "log") return LogOp()(x);
  if (f == "log2") return Log2Op()(x);
  if (f == "log10") return Log10Op()(x);
  if (f == "log1p") return Log1pOp()(x);
  if (f == "sqrt") return SqrtOp()(x);
  if (f == "symlog1p") return Symlog1pOp()(x);
  if (f == "exp") return ExpOp()(x);
  if (f == "expm1") return Expm1Op()(x);
  if (f == "sigmoid") return SigmoidOp()(x, T(0), T(1));
  if (f == "sigmoid_down") return SigmoidOp()(x, T(0), T(-1));
  if (f == "logit") return LogitOp()(x);
  if (f == "log_sigmoid") return LogSigmoidOp()(x);
  if (f == "sin") return SinOp()(x);
  if (f == "cos") return CosOp()(x);
  if (f == "sinh") return SinhOp()(x);
  if (f == "atan") return AtanOp()(x);
  std::exit(77);
}

template <typename T>
void Point(json& e) {
  std::string f = e["f"];
  T x = From<T>(e["x"]), y = From<T>(e["y"]);
  e["fx"] = To<T>(F<T>(f, x));
  e["fy"] = To<T>(F<T>(f, y));
  e["fnx"] = To<T>(F<T>(f, -x));
}

template <typename T>
void Rel(json& e) {  // x = n / 1000 > 0
  const double S = 10000;
  T x = T(e["n"].get<int>()) / T(1000);
  T lg = LogOp()(x);
  e["log"] = Fix(lg, S);
  e["log2"] = Fix(Log2Op()(x), S);
  e["log10"] = Fix(Log10Op()(x), S);
  e["logsq"] = Fix(LogOp()(T(x * x)), S);
  e["loginv"] = Fix(LogOp()(T(T(1) / x)), S);
  e["log1p"] = Fix(Log1pOp()(T(x - T(1))), S);
  e["symlog"] = Fix(Symlog1pOp()(T(x - T(1))), S);
  e["logabs"] = Fix(LogOp()(T(T(1) + std::fabs(x - T(1)))), S);
  e["explog"] = Fix(ExpOp()(lg), S);
  e["expm1log"] = Fix(Expm1Op()(lg), S);
  T s = SqrtOp()(x);
  e["sqrt"] = Fix(s, S);
  e["sqrtsq"] = Fix(T(s * s), S);
  e["powhalf"] = Fix(PowOp()(x, T(0.5)), S);
  e["powtwo"] = Fix(PowOp()(x, T(2)), S / 10);
  e["square"] = Fix(T(x * x), S / 10);
  e["powinv"] = Fix(T(PowOp()(x, T(-1)) * x), S);
  e["logpow"] = Fix(LogOp()(PowOp()(x, T(1.5))), S);
  T p = T(e["n"].get<int>()) / T(51000);  // in (0, 1)
  e["logit"] = Fix(LogitOp()(p), S);
  e["logodds"] = Fix(LogOp()(T(p / (T(1) - p))), S);
}

template <typename T>
void Sym(json& e) {  // x = n / 1000 of any sign; half, slope in tenths
  const double S = 10000;
  T x = T(e["n"].get<int>()) / T(1000);
  T h = T(e["h"].get<int>()) / T(10), s = T(e["s"].get<int>()) / T(10);
  T sg = SigmoidOp()(x, h, s);
  e["sg"] = Fix(sg, S);
  e["sgr"] = Fix(SigmoidOp()(T(2 * h - x), h, s), S);
  e["sgd"] = Fix(SigmoidOp()(x, h, T(-s)), S);
  e["lsg"] = Fix(LogitOp()(sg), S);
  e["lin"] = Fix(T(s * (x - h)), S);
  e["s0"] = Fix(SigmoidOp()(x, T(0), T(1)), S);
  e["ls"] = Fix(LogSigmoidOp()(x), S);
  e["lsn"] = Fix(LogSigmoidOp()(T(-x)), S);
  e["els"] = Fix(ExpOp()(LogSigmoidOp()(x)), S);
  e["x"] = Fix(x, S);
  e["sin"] = Fix(SinOp()(x), S);
  e["cos"] = Fix(CosOp()(x), S);
  e["sin2"] = Fix(SinOp()(T(2 * x)), S);
  e["cos2"] = Fix(CosOp()(T(2 * x)), S);
  e["atan"] = Fix(AtanOp()(x), S);
  e["ataninv"] = x == 0 ? json(0) : Fix(AtanOp()(T(1 / x)), S);
  T at = AtanOp()(x);
  e["tanat"] = Fix(T(SinOp()(at) / CosOp()(at)), S);
  T y = x / T(8);
  e["sinh"] = Fix(SinhOp()(y), S / 10);
  e["exp"] = Fix(ExpOp()(y), S / 10);
  e["expn"] = Fix(ExpOp()(T(-y)), S / 10);
  e["expm1"] = Fix(Expm1Op()(y), S / 10);
}

template <typename T>
void Tiny(json& e) {  // x = 10^-k: f(x) ~ x
  const double S = 10000;
  T x = std::pow(T(10), -T(e["k"].get<int>()));
  for (int sign : {1, -1}) {
    T v = sign * x;
    json r;
    for (const char* f : {"log1p", "expm1", "sin", "sinh", "atan", "symlog1p"})
      r.push_back(Fix(T(F<T>(f, v) / v), S));
    e[sign > 0 ? "pos" : "neg"] = r;
  }
  e["logit"] = Fix(T(LogitOp()(x) - LogOp()(x)), S);
}

template <typename T>
void Large(json& e) {  // x = k
  const double S = 10000;
  T x = T(e["k"].get<int>());
  T ex = ExpOp()(x), en = ExpOp()(T(-x));
  e["ls"] = Fix(T(-LogSigmoidOp()(x) / en), S);
  e["lsn"] = Fix(T(LogSigmoidOp()(T(-x)) / -x), S);
  e["sinh"] = Fix(T(SinhOp()(x) / ex * 2), S);
  e["sinhn"] = Fix(T(SinhOp()(T(-x)) / ex * 2), S);
  e["expm1"] = Fix(T(Expm1Op()(x) / ex), S);
  e["sg"] = Fix(T(SigmoidOp()(T(-x), T(0), T(1)) / en), S);
  e["expinv"] = Fix(T(ex * en), S);
  e["logexp"] = Fix(T(LogOp()(ex) / x), S);
}

template <typename T>
void Exact(json& e) {
  int k = e["k"].get<int>();
  e["log2"] = Fix(Log2Op()(std::ldexp(T(1), k)), 1000);
  e["log10"] = Fix(Log10Op()((T)std::pow((T)10, (T)(k / 4))), 1000);
  e["sqrt"] = Fix(SqrtOp()(T(k) * T(k)), 1000);
  e["logit"] = Fix(LogitOp()(T(T(1) - std::ldexp(T(1), -e["j"].get<int>()))), 1000);
  e["pow2k"] = To<T>(PowOp()(T(2), T(k)));
  e["ldexp"] = To<T>(std::ldexp(T(1), k));
  json p = json::array();
  for (int a = -5; a <= 5; ++a)
    for (int n = 0; n <= 6; ++n) p.push_back(Fix(PowOp()(T(a), T(n)), 1));
  e["pows"] = p;
}

template <typename T>
void Pow(json& e) {
  T a = From<T>(e["x"]), b = From<T>(e["y"]);
  e["r"] = To<T>(PowOp()(a, b));
}
template <typename T>
void Sig3(json& e) {
  e["r"] = To<T>(SigmoidOp()(From<T>(e["x"]), From<T>(e["y"]), From<T>(e["z"])));
}

#define BOTH(F) [](json& e) { if (e["t"] == "f32") F<float>(e); else F<double>(e); }
int main(int argc, char** argv) {
  return DriverMain(argc, argv,
                    {{"point", BOTH(Point)}, {"rel", BOTH(Rel)}, {"sym", BOTH(Sym)},
                     {"tiny", BOTH(Tiny)}, {"large", BOTH(Large)},
                     {"exact", BOTH(Exact)}, {"pow", BOTH(Pow)}, {"sig3", BOTH(Sig3)}});
}
