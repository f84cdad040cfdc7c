// RE2 is not installed in the sandbox; regular expressions are out of scope.
#include <string>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/qtype/strings/regex.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/repr.h"

namespace arolla {
absl::StatusOr<absl_nonnull RegexPtr> CompileRegex(absl::string_view) {
  return absl::UnimplementedError("no RE2 in this build");
}
void FingerprintHasherTraits<RegexPtr>::operator()(
    FingerprintHasher* hasher, const RegexPtr& value) const {
  if (value != nullptr) hasher->Combine(value->pattern());
}
ReprToken ReprTraits<RegexPtr>::operator()(const RegexPtr& value) const {
  return {"regex{}"};
}
AROLLA_DEFINE_SIMPLE_QTYPE(REGEX, RegexPtr)
}  // namespace arolla
