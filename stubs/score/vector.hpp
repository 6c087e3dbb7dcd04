#pragma once
#include "score/memory_resource.hpp"
#include <vector>
namespace score::cpp::pmr { template <class T> using vector = std::vector<T, polymorphic_allocator<T>>; }
