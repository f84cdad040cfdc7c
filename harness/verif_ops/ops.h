// Operators whose result identifies the operator and the order of arguments.
#ifndef VERIF_OPS_OPS_H_
#define VERIF_OPS_OPS_H_
#include <cstdint>
#include <memory>
#include <tuple>
#include <type_traits>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qexpr/bound_operators.h"
#include "arolla/util/bytes.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"

namespace verif {
template <class T>
int64_t W(const T& x) {
  if constexpr (std::is_arithmetic_v<T>) return static_cast<int64_t>(x);
  else if constexpr (std::is_same_v<T, ::arolla::Unit>) return 1;
  else if constexpr (std::is_same_v<T, ::arolla::OptionalUnit>) return x.present ? 1 : 0;
  else if constexpr (::arolla::is_optional_v<T>) return x.present ? W(x.value) : -1;
  else return static_cast<int64_t>(::absl::string_view(x).size());
}
template <class... Ts>
int64_t Sum(int id, const Ts&... xs) {
  int64_t r = id * 10000, i = 0;
  ((r += ++i * W(xs)), ...);
  return r;
}
template <class... Ts>
bool Bad(const Ts&... xs) { return ((W(xs) == 13) || ... || false); }

template <int Id>
struct SumOp {
  template <class... Ts> requires (!std::is_pointer_v<Ts> && ...)
  int64_t operator()(const Ts&... xs) const { return Sum(Id, xs...); }
};
template <int Id>
struct EagerOp {
  using run_on_missing = std::true_type;
  template <class... Ts> requires (!std::is_pointer_v<Ts> && ...)
  int64_t operator()(const Ts&... xs) const { return Sum(Id, xs...); }
};
template <int Id>
struct CtxOp {
  template <class... Ts> requires (!std::is_pointer_v<Ts> && ...)
  int64_t operator()(::arolla::EvaluationContext* ctx, const Ts&... xs) const {
    if (Bad(xs...)) ctx->set_status(absl::InvalidArgumentError("bad"));
    return Sum(Id, xs...);
  }
};
template <int Id>
struct StatusOp {
  template <class... Ts> requires (!std::is_pointer_v<Ts> && ...)
  absl::StatusOr<int64_t> operator()(const Ts&... xs) const {
    if (Bad(xs...)) return absl::InvalidArgumentError("bad");
    return Sum(Id, xs...);
  }
};
template <int Id>
struct PairOp {
  template <class... Ts> requires (!std::is_pointer_v<Ts> && ...)
  std::tuple<int64_t, int32_t> operator()(const Ts&... xs) const { return {Sum(Id, xs...), Id}; }
};

// Returns its K-th argument.
template <int K>
class PickFamily : public ::arolla::OperatorFamily {
  absl::StatusOr<::arolla::OperatorPtr> DoGetOperator(
      absl::Span<const ::arolla::QTypePtr> in, ::arolla::QTypePtr out) const final {
    if (in.size() <= K) return absl::InvalidArgumentError("not enough arguments");
    return ::arolla::EnsureOutputQTypeMatches(::arolla::OperatorPtr(std::make_unique<Op>(in)), in, out);
  }
  class Op : public ::arolla::QExprOperator {
   public:
    explicit Op(absl::Span<const ::arolla::QTypePtr> in) : QExprOperator(in, in[K]) {}
   private:
    absl::StatusOr<std::unique_ptr<::arolla::BoundOperator>> DoBind(
        absl::Span<const ::arolla::TypedSlot> in, ::arolla::TypedSlot out) const final {
      return ::arolla::MakeBoundOperator([from = in[K], out](::arolla::EvaluationContext*, ::arolla::FramePtr f) { from.CopyTo(f, out, f); });
    }
  };
};
}  // namespace verif
#endif
