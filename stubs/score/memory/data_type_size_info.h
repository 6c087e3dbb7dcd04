#pragma once
#include <cstddef>
namespace score::memory {
class DataTypeSizeInfo {
 public:
  constexpr DataTypeSizeInfo() noexcept : s_{0}, a_{1} {}
  constexpr DataTypeSizeInfo(std::size_t size, std::size_t alignment) noexcept : s_{size}, a_{alignment} {}
  constexpr std::size_t Size() const noexcept { return s_; } constexpr std::size_t Alignment() const noexcept { return a_; }
 private: std::size_t s_; std::size_t a_;
};
bool operator==(const DataTypeSizeInfo&, const DataTypeSizeInfo&) noexcept;
bool operator!=(const DataTypeSizeInfo&, const DataTypeSizeInfo&) noexcept;
}
