// Compat shim (newer abseil API on the installed abseil 20220623).
#ifndef VERIF_COMPAT_ABSL_CHECK_H_
#define VERIF_COMPAT_ABSL_CHECK_H_
#include "absl/log/log.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace verif_compat {
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T>
const absl::Status& AsStatus(const absl::StatusOr<T>& s) { return s.status(); }
}  // namespace verif_compat
#define VERIF_CHECK_(cond, text)                                        \
  switch (0)                                                            \
  case 0:                                                               \
  default:                                                              \
    if (cond)                                                           \
      ;                                                                 \
    else                                                                \
      ::verif_compat::LogMessage(3, __FILE__, __LINE__).stream()        \
          << "Check failed: " text " "
#define CHECK(c) VERIF_CHECK_((c), #c)
#define CHECK_EQ(a, b) VERIF_CHECK_((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) VERIF_CHECK_((a) != (b), #a " != " #b)
#define CHECK_LT(a, b) VERIF_CHECK_((a) < (b), #a " < " #b)
#define CHECK_LE(a, b) VERIF_CHECK_((a) <= (b), #a " <= " #b)
#define CHECK_GT(a, b) VERIF_CHECK_((a) > (b), #a " > " #b)
#define CHECK_GE(a, b) VERIF_CHECK_((a) >= (b), #a " >= " #b)
#define CHECK_OK(s)                                                       \
  switch (0)                                                              \
  case 0:                                                                 \
  default:                                                                \
    if (::absl::Status verif_st_ = ::verif_compat::AsStatus(s);           \
        verif_st_.ok())                                                   \
      ;                                                                   \
    else                                                                  \
      ::verif_compat::LogMessage(3, __FILE__, __LINE__).stream()          \
          << "Check failed: " #s " is OK " << verif_st_.ToString()
#define QCHECK CHECK
#ifdef NDEBUG
#define VERIF_DC_(x) \
  while (false) x
#else
#define VERIF_DC_(x) x
#endif
#define DCHECK(c) VERIF_DC_(CHECK(c))
#define DCHECK_EQ(a, b) VERIF_DC_(CHECK_EQ(a, b))
#define DCHECK_NE(a, b) VERIF_DC_(CHECK_NE(a, b))
#define DCHECK_LT(a, b) VERIF_DC_(CHECK_LT(a, b))
#define DCHECK_LE(a, b) VERIF_DC_(CHECK_LE(a, b))
#define DCHECK_GT(a, b) VERIF_DC_(CHECK_GT(a, b))
#define DCHECK_GE(a, b) VERIF_DC_(CHECK_GE(a, b))
#define DCHECK_OK(s) VERIF_DC_(CHECK_OK(s))
#define ABSL_CHECK CHECK
#define ABSL_DCHECK DCHECK
#endif
