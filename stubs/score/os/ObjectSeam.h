#pragma once
#include "score/memory.hpp"
namespace score::os { template <class T> class ObjectSeam { public: static T& instance() noexcept; static void set_testing_instance(T&) noexcept; static void restore_instance() noexcept; }; }
