#pragma once
namespace score::utils { template <class T> class StaticDestructionGuard { public: StaticDestructionGuard() noexcept; ~StaticDestructionGuard() noexcept; static T& GetStorage() noexcept { static T* p = new T(); return *p; } }; }
