#pragma once
#include "score/language/safecpp/scoped_function/scope.h"
#include <optional>
#include <type_traits>
#include <utility>
namespace score::safecpp {
template <class S> class CopyableScopedFunction;
template <class R, class... A> class CopyableScopedFunction<R(A...)> { public:
 template <class S, class F> CopyableScopedFunction(const Scope<S>&, F&&) {} CopyableScopedFunction(const CopyableScopedFunction&); CopyableScopedFunction(CopyableScopedFunction&&) noexcept; CopyableScopedFunction& operator=(const CopyableScopedFunction&); CopyableScopedFunction& operator=(CopyableScopedFunction&&) noexcept; ~CopyableScopedFunction();
 std::optional<std::conditional_t<std::is_void_v<R>, bool, R>> operator()(A...) const; };
}
