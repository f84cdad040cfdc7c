// Compat shim (newer abseil API on the installed abseil 20220623).
#ifndef VERIF_COMPAT_ABSL_NULLABILITY_H_
#define VERIF_COMPAT_ABSL_NULLABILITY_H_
#define absl_nullable
#define absl_nonnull
#define absl_nullability_unknown
#define ABSL_POINTERS_DEFAULT_NONNULL
#define ABSL_NULLABILITY_COMPATIBLE
#endif
