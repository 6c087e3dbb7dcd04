#pragma once
namespace score::safecpp { template <class T = void> class Scope { public: Scope(); ~Scope(); Scope(Scope&&) noexcept; Scope& operator=(Scope&&) noexcept; Scope(const Scope&) = delete; void Expire() noexcept; }; Scope() -> Scope<void>; }
