#ifndef VERIF_COMPAT_ABSL_DIE_IF_NULL_H_
#define VERIF_COMPAT_ABSL_DIE_IF_NULL_H_
#include <cstdlib>
#include <utility>
namespace verif_compat {
template <typename T>
T DieIfNull(T&& t) { if (t == nullptr) std::abort(); return std::forward<T>(t); }
}
#define ABSL_DIE_IF_NULL(v) ::verif_compat::DieIfNull(v)
#endif
