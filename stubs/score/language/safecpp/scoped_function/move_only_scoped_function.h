#pragma once
#include "score/language/safecpp/scoped_function/scope.h"
#include <optional>
#include <type_traits>
#include <utility>
namespace score::safecpp {
template <class S> class MoveOnlyScopedFunction;
template <class R, class... A> class MoveOnlyScopedFunction<R(A...)> { public:
 template <class S, class F> MoveOnlyScopedFunction(const Scope<S>&, F&&) {} MoveOnlyScopedFunction(const MoveOnlyScopedFunction&) = delete; MoveOnlyScopedFunction(MoveOnlyScopedFunction&&) noexcept;  MoveOnlyScopedFunction& operator=(MoveOnlyScopedFunction&&) noexcept; ~MoveOnlyScopedFunction();
 std::optional<std::conditional_t<std::is_void_v<R>, bool, R>> operator()(A...) const; };
}
