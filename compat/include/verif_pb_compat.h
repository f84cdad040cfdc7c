#ifndef VERIF_PB_COMPAT_H_
#define VERIF_PB_COMPAT_H_
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace verif_compat {
template <typename T>
decltype(auto) PbStr(T&& v) {
  if constexpr (std::is_same_v<std::decay_t<T>, absl::string_view> ||
                std::is_same_v<std::decay_t<T>, std::string_view>) {
    return std::string(v.data(), v.size());
  } else {
    return std::forward<T>(v);
  }
}
}  // namespace verif_compat
#endif
