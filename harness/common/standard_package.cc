// Loads the committed snapshot of the standard operator package (what
// arolla/expr/operators/all/BUILD embeds) at start-up.
#include <fstream>
#include <iterator>
#include <string>

#include "absl/status/status.h"
#include "arolla/codegen/operator_package/operator_package.h"
#include "arolla/codegen/operator_package/operator_package.pb.h"
#include "arolla/expr/registered_expr_operator.h"
#include <iostream>
#include "arolla/util/status.h"
#include "arolla/util/init_arolla.h"

namespace {

absl::Status run() {
  std::ifstream f(
      "/repo/arolla/expr/operators/all/"
      "standard.operator_package.pb2.snapshot",
      std::ios::binary);
  std::string data((std::istreambuf_iterator<char>(f)),
                   std::istreambuf_iterator<char>());
  ::arolla::operator_package::OperatorPackageProto proto;
  if (data.empty() || !proto.ParseFromString(data)) {
    return absl::InternalError("cannot parse the operator package snapshot");
  }
  // The snapshot predates the move of a few operators to C++: those are already
  // registered by arolla_operators/standard:bootstrap.
  ::arolla::operator_package::OperatorPackageProto filtered;
  filtered.set_version(proto.version());
  *filtered.mutable_required_registered_operators() =
      proto.required_registered_operators();
  auto* registry = ::arolla::expr::ExprOperatorRegistry::GetInstance();
  for (const auto& op : proto.operators()) {
    if (registry->LookupOperatorOrNull(op.registration_name()) == nullptr) {
      *filtered.add_operators() = op;
    }
  }
  auto st = ::arolla::operator_package::LoadOperatorPackageProto(filtered);
  for (const absl::Status* s = &st; s && !s->ok(); s = ::arolla::GetCause(*s)) std::cerr << "CAUSE " << s->message() << std::endl;
  return st;
}

AROLLA_INITIALIZER(
        .name = "arolla_operators/standard:operator_package",
        .deps = {arolla::initializer_dep::kQExprOperators,
                 arolla::initializer_dep::kQTypes,
                 arolla::initializer_dep::kS11n,
                 "arolla_operators/standard:bootstrap"},
        .reverse_deps = {arolla::initializer_dep::kOperators},
        .init_fn = &run)

}  // namespace
