#pragma once
namespace score::cpp {
struct blank {};
constexpr bool operator==(blank, blank) noexcept { return true; }
constexpr bool operator<(blank, blank) noexcept { return false; }
constexpr bool operator!=(blank, blank) noexcept { return false; }
}
