// Compat shim: the part of double-conversion's interface that arolla uses,
// implemented on std::to_chars (which is shortest-round-trip).
#ifndef VERIF_COMPAT_DC_H_
#define VERIF_COMPAT_DC_H_
#include <charconv>
#include <cmath>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <string>
namespace double_conversion {
class StringBuilder {
 public:
  StringBuilder(char* buf, int size) : buf_(buf), size_(size) {}
  void AddString(const char* s) { Add(s); }
  void AddCharacter(char c) { Add(std::string(1, c)); }
  void Add(const std::string& s) {
    for (char c : s) if (pos_ + 1 < size_) buf_[pos_++] = c;
  }
  char* Finalize() { buf_[pos_] = 0; return buf_; }
  int position() const { return pos_; }
  int size() const { return size_; }
  void Reset() { pos_ = 0; }
 private:
  char* buf_; int size_; int pos_ = 0;
};
class DoubleToStringConverter {
 public:
  enum Flags {
    NO_FLAGS = 0, EMIT_POSITIVE_EXPONENT_SIGN = 1, EMIT_TRAILING_DECIMAL_POINT = 2,
    EMIT_TRAILING_ZERO_AFTER_POINT = 4, UNIQUE_ZERO = 8, NO_TRAILING_ZERO = 16
  };
  static const int kBase10MaximalLength = 17;
  DoubleToStringConverter(int flags, const char* inf, const char* nan, char e,
                          int low, int high, int max_lead, int max_trail, int=0)
      : flags_(flags), inf_(inf), nan_(nan), e_(e), low_(low), high_(high) {}
  bool ToShortest(double v, StringBuilder* b) const { return Do(v, b); }
  bool ToShortestSingle(float v, StringBuilder* b) const { return Do(v, b); }
 private:
  template <typename T>
  bool Do(T v, StringBuilder* b) const {
    if (std::isnan(v)) { b->Add(nan_); return true; }
    if (std::isinf(v)) { b->Add(std::string(v < 0 ? "-" : "") + inf_); return true; }
    char tmp[64];
    auto r = std::to_chars(tmp, tmp + 64, v, std::chars_format::scientific);
    std::string s(tmp, r.ptr);
    std::string out;
    if (s[0] == '-') { if (!(v == 0 && (flags_ & UNIQUE_ZERO))) out = "-"; s = s.substr(1); }
    size_t ep = s.find('e');
    int exp10 = std::atoi(s.c_str() + ep + 1);
    std::string digits;
    for (size_t i = 0; i < ep; ++i) if (s[i] != '.') digits += s[i];
    int dp = exp10 + 1;  // decimal point position
    int n = (int)digits.size();
    if (exp10 >= low_ && exp10 < high_) {
      if (dp <= 0) {
        out += "0." + std::string(-dp, '0') + digits;
      } else if (dp >= n) {
        out += digits + std::string(dp - n, '0');
        if (flags_ & EMIT_TRAILING_DECIMAL_POINT) out += ".";
        if (flags_ & EMIT_TRAILING_ZERO_AFTER_POINT) out += "0";
      } else {
        out += digits.substr(0, dp) + "." + digits.substr(dp);
      }
    } else {
      out += digits[0];
      if (n > 1) out += "." + digits.substr(1);
      out += e_;
      int ee = exp10;
      if (ee < 0) { out += "-"; ee = -ee; }
      else if (flags_ & EMIT_POSITIVE_EXPONENT_SIGN) out += "+";
      out += std::to_string(ee);
    }
    b->Add(out);
    return true;
  }
  int flags_; const char* inf_; const char* nan_; char e_; int low_, high_;
};
}  // namespace double_conversion
#endif
