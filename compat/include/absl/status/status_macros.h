// Compat shim (newer abseil API on the installed abseil 20220623).
#ifndef VERIF_COMPAT_ABSL_STATUS_MACROS_H_
#define VERIF_COMPAT_ABSL_STATUS_MACROS_H_
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/base/optimization.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/types/source_location.h"
namespace absl {
class StatusBuilder {
 public:
  explicit StatusBuilder(Status s, SourceLocation loc = SourceLocation())
      : status_(std::move(s)), loc_(loc) {}
  StatusBuilder(const StatusBuilder& o)
      : status_(o.status_), loc_(o.loc_), mode_(o.mode_) { stream_ << o.stream_.str(); }
  StatusBuilder(StatusBuilder&& o)
      : status_(std::move(o.status_)), loc_(o.loc_), mode_(o.mode_) {
    stream_ << o.stream_.str();
  }
  bool ok() const { return status_.ok(); }
  template <typename T>
  StatusBuilder& operator<<(const T& v) & { if (!ok()) stream_ << v; return *this; }
  template <typename T>
  StatusBuilder&& operator<<(const T& v) && { return std::move(*this << v); }
  template <typename F>
  auto With(F&& f) && { return std::forward<F>(f)(std::move(*this)); }
  template <typename F>
  auto With(F&& f) & { return std::forward<F>(f)(*this); }
  StatusBuilder& SetPrepend() & { mode_ = 1; return *this; }
  StatusBuilder&& SetPrepend() && { mode_ = 1; return std::move(*this); }
  StatusBuilder& SetAppend() & { mode_ = 2; return *this; }
  StatusBuilder&& SetAppend() && { mode_ = 2; return std::move(*this); }
  SourceLocation source_location() const { return loc_; }
  operator Status() const& { return Make(); }
  operator Status() && { return Make(); }
  template <typename T>
  operator StatusOr<T>() const { return StatusOr<T>(Make()); }

 private:
  Status Make() const {
    std::string extra = stream_.str();
    if (extra.empty() || status_.ok()) return status_;
    // Default joining style of abseil: "original; extra".
    std::string msg = mode_ == 1 ? absl::StrCat(extra, status_.message())
                      : mode_ == 2 ? absl::StrCat(status_.message(), extra)
                      : status_.message().empty()
                          ? extra
                          : absl::StrCat(status_.message(), "; ", extra);
    Status r(status_.code(), msg);
    status_.ForEachPayload([&](absl::string_view url, const absl::Cord& c) {
      r.SetPayload(url, c);
    });
    return r;
  }
  Status status_;
  SourceLocation loc_;
  int mode_ = 0;
  std::ostringstream stream_;
};
inline bool operator==(const StatusBuilder&, const StatusBuilder&) = delete;
namespace status_macro_internal {
inline Status ToStatus(Status s) { return s; }
inline Status ToStatus(const StatusBuilder& s) { return s; }
template <typename T>
Status ToStatus(const StatusOr<T>& s) { return s.status(); }
struct Adaptor {
  explicit Adaptor(Status s, SourceLocation loc) : b(std::move(s), loc) {}
  explicit operator bool() const { return b.ok(); }
  StatusBuilder&& Consume() { return std::move(b); }
  StatusBuilder b;
};
}  // namespace status_macro_internal
}  // namespace absl

#define ABSL_RETURN_IF_ERROR(expr)                                        \
  switch (0)                                                              \
  case 0:                                                                 \
  default:                                                                \
    if (::absl::status_macro_internal::Adaptor verif_adaptor(             \
            ::absl::status_macro_internal::ToStatus(expr),                \
            ::absl::SourceLocation::current());                           \
        verif_adaptor)                                                    \
      ;                                                                   \
    else                                                                  \
      return verif_adaptor.Consume()

#define VERIF_CAT_I_(a, b) a##b
#define VERIF_CAT_(a, b) VERIF_CAT_I_(a, b)
#define VERIF_AOR_PICK_(a, b, c, NAME, ...) NAME
#define ABSL_ASSIGN_OR_RETURN(...)                                         \
  VERIF_AOR_PICK_(__VA_ARGS__, VERIF_AOR_3_, VERIF_AOR_2_)(__VA_ARGS__)
#define VERIF_AOR_2_(lhs, rexpr) \
  VERIF_AOR_IMPL_(VERIF_CAT_(verif_sor_, __LINE__), lhs, rexpr, _)
#define VERIF_AOR_3_(lhs, rexpr, err) \
  VERIF_AOR_IMPL_(VERIF_CAT_(verif_sor_, __LINE__), lhs, rexpr, err)
#define VERIF_REMOVE_PARENS_I_(...) VERIF_ESC_(__VA_ARGS__)
#define VERIF_ESC_(...) VERIF_VAN##__VA_ARGS__
#define VERIF_REMOVE_PARENS_(X) VERIF_ESC2_(VERIF_ISH X)
#define VERIF_ISH(...) VERIF_ISH __VA_ARGS__
#define VERIF_ESC2_(...) VERIF_ESC3_(__VA_ARGS__)
#define VERIF_ESC3_(...) VERIF_VAN##__VA_ARGS__
#define VERIF_VANVERIF_ISH
#define VERIF_AOR_IMPL_(sor, lhs, rexpr, err)                              \
  auto sor = (rexpr);                                                      \
  if (ABSL_PREDICT_FALSE(!sor.ok())) {                                     \
    ::absl::StatusBuilder _(std::move(sor).status(),                       \
                            ::absl::SourceLocation::current());            \
    (void)_;                                                               \
    return (err);                                                          \
  }                                                                        \
  VERIF_REMOVE_PARENS_(lhs) = (*std::move(sor))

#define RETURN_IF_ERROR ABSL_RETURN_IF_ERROR
#define ASSIGN_OR_RETURN ABSL_ASSIGN_OR_RETURN
#endif
