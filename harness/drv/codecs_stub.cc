// The regular expression library is not installed: a type without values.
#include "absl/status/statusor.h"
#include "arolla/qtype/strings/regex.h"
#include "arolla/qtype/simple_qtype.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/repr.h"
namespace arolla {
absl::StatusOr<absl_nonnull RegexPtr> CompileRegex(absl::string_view) { return absl::UnimplementedError("no regex"); }
void FingerprintHasherTraits<RegexPtr>::operator()(FingerprintHasher* h, const RegexPtr&) const { h->Combine(1); }
ReprToken ReprTraits<RegexPtr>::operator()(const RegexPtr&) const { return ReprToken("regex"); }
AROLLA_DEFINE_SIMPLE_QTYPE(REGEX, RegexPtr);
}  // namespace arolla
