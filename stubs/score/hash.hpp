#pragma once
#include <cstddef>
#include <cstdint>
namespace score::cpp { std::size_t hash_bytes(const void*, std::size_t) noexcept; std::size_t hash_bytes_fnv1a(const void*, std::size_t) noexcept; }
