// Piecewise linear curves.
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "common/driver.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/memory/optional_value.h"
#include "arolla/pwlcurve/curve_operator.h"
#include "arolla/pwlcurve/curves.h"
#include "arolla/util/bytes.h"
#include "arolla/util/fingerprint.h"
using namespace arolla;
using namespace arolla::pwlcurve;

namespace {
constexpr int kPInf = 9999, kNInf = -9999, kLow = -8000, kNan = 8888;
const double kInf = std::numeric_limits<double>::infinity();

double X(const std::string& kind, int u) {
  if (u == kPInf) return kInf;
  if (u == kNan) return std::numeric_limits<double>::quiet_NaN();
  if (u == kNInf) return kind == "log" ? 0 : kind == "log1p" ? -1 : -kInf;
  if (u == kLow) return kind == "log" ? -1 : -1.5;
  if (kind == "lin") return u / 4.0;
  if (kind == "log") return std::exp2(u / 4.0);
  if (kind == "log1p") return std::exp2(u / 4.0) - 1;
  return u >= 0 ? std::exp2(u / 4.0) - 1 : 1 - std::exp2(-u / 4.0);
}
double Y(int y) { return y == kPInf ? kInf : y == kNInf ? -kInf : y; }
int64_t Res(double r) {
  if (std::isnan(r)) return 1999999999;
  if (std::isinf(r)) return r > 0 ? 2000000000 : -2000000000;
  if (std::abs(r) > 7e6) return 1888888888;
  return std::llround(r * 256);
}
template <class T> bool SameBits(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
CurveType Type(const std::string& k) { return k == "lin" ? PWLCurve : k == "log" ? LogPWLCurve : k == "log1p" ? Log1pPWLCurve : Symlog1pPWLCurve; }
const char* Kind(CurveType t) { return t == PWLCurve ? "lin" : t == LogPWLCurve ? "log" : t == Log1pPWLCurve ? "log1p" : t == Symlog1pPWLCurve ? "sym" : "?"; }

void CurveEv(json& e) {
  std::string kind = e["kind"], via = e["via"];
  bool spoilt = e["spoilt"];
  std::vector<Point<double>> pts;
  for (auto& p : e["pts"]) pts.push_back({X(kind, p[0]), Y(p[1])});
  std::string text;
  for (auto& t : e["toks"]) text += t["t"].get<std::string>();
  absl::StatusOr<std::shared_ptr<const Curve>> c;
  auto keep = [&](absl::StatusOr<std::unique_ptr<Curve>> r) { if (r.ok()) c = std::shared_ptr<const Curve>(std::move(*r)); else c = r.status(); };
  bool narrow = false;
  if (via == "points") keep(NewCurve(spoilt ? static_cast<CurveType>(7) : Type(kind), pts));
  if (via == "xy") {
    std::vector<double> x, y;
    for (auto& p : pts) { x.push_back(p.x); y.push_back(p.y); }
    if (spoilt) y.push_back(1000);
    keep(NewCurve(Type(kind), x, y));
  }
  if (via == "fxy" || via == "opxy") {
    narrow = true;
    std::vector<float> x, y;
    for (auto& p : pts) { x.push_back(p.x); y.push_back(p.y); }
    if (via == "fxy") {
      if (spoilt) x.push_back(1e30f);
      keep(NewCurve(Type(kind), x, y));
    } else {
      auto arr = [&](const std::vector<float>& v, bool miss, bool bm) {
        std::vector<OptionalValue<float>> o(v.begin(), v.end());
        if (miss) o.push_back({});
        auto a = CreateDenseArray<float>(o);
        if (!miss && bm) a.bitmap = CreateBuffer<uint32_t>(std::vector<uint32_t>((v.size() + 31) / 32, ~0u));
        return a;
      };
      bool bm = e["bm"];
      c = CreateCurveOp()(spoilt && bm ? 9 : int(Type(kind)), arr(x, spoilt && !bm, bm), arr(y, spoilt && !bm, bm));
    }
  }
  if (via == "spec") keep(NewCurve(text));
  if (via == "bar") keep(NewCurveWithSeparator('|', text));
  if (via == "none") keep(NewCurveWithSeparator(',', text));
  if (via == "either") keep(NewCurveWithAllowedSeparators(";|", text));
  if (via == "opspec") c = CreateCurveOp()(Bytes(text));
  e["ok"] = c.ok();
  if (!c.ok()) return;
  const Curve& k = **c;
  e["kindout"] = Kind(k.Type());
  // the control points, by their codes
  auto codes = [&](absl::Span<const Point<double>> a) {
    json r = json::array();
    for (auto& p : a) {
      json c = {777777, 777777};
      auto see = [&](int u, int y) {
        double x = X(kind, u);
        if (narrow) x = float(x);
        if (x == p.x) c[0] = u;
        if (Y(y) == p.y) c[1] = y;
      };
      for (auto& q : e["pts"]) see(q[0], q[1]);
      for (auto& q : e["toks"]) if (q["k"] == "num") see(q["v"], q["v"]);
      r.push_back(c);
    }
    return r;
  };
  e["cp"] = codes(k.ControlPoints());
  auto again = NewCurve(k.ToString());
  e["text"] = again.ok() && (*again)->Type() == k.Type() && codes((*again)->ControlPoints()) == e["cp"] &&
      FingerprintHasher("x").Combine(CurvePtr(std::move(*again))).Finish() == FingerprintHasher("x").Combine(*c).Finish();
  std::vector<double> xs;
  std::vector<float> fs;
  for (auto& u : e["args"]) { xs.push_back(X(kind, u)); fs.push_back(X(kind, u)); }
  auto ds = k.Eval(xs);
  auto gs = k.Eval(fs);
  bool bulk = ds.size() == xs.size() && gs.size() == fs.size(), asop = true;
  e["d"] = json::array();
  e["f"] = json::array();
  for (size_t i = 0; i < xs.size(); ++i) {
    double d = k.Eval(xs[i]);
    float f = k.Eval(fs[i]);
    e["d"].push_back(Res(d));
    e["f"].push_back(Res(f));
    bulk = bulk && SameBits(d, ds[i]) && SameBits(f, gs[i]);
    asop = asop && SameBits(d, EvalCurveOp()(*c, xs[i])) && SameBits(f, EvalCurveOp()(*c, fs[i]));
  }
  e["bulk"] = bulk;
  e["asop"] = asop;
}
}  // namespace
int main(int argc, char** argv) { return DriverMain(argc, argv, {{"curve", CurveEv}}); }
