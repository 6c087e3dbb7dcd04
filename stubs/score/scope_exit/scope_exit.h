#pragma once
#include <utility>
#include <functional>
#include "score/callback.hpp"
namespace score::utils { template <class F = score::cpp::callback<void()>> class ScopeExit { public: explicit ScopeExit(F) {} ScopeExit(ScopeExit&&) noexcept; ScopeExit& operator=(ScopeExit&&) noexcept; ScopeExit(const ScopeExit&) = delete; ~ScopeExit() {} void Release() noexcept; bool IsReleased() const; }; template <class F> ScopeExit(F) -> ScopeExit<F>; }
namespace score { using utils::ScopeExit; }
