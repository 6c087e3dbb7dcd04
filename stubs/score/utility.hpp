#pragma once
#include <type_traits>
#include <utility>
#include <cstddef>
namespace score::cpp {
struct ignore_t { template <class... T> constexpr ignore_t(T&&...) noexcept {} template <class T> constexpr const ignore_t& operator=(const T&) const noexcept { return *this; } };
inline constexpr std::integral_constant<int,0> vf_dummy{};
struct vf_ignore { template <class T> constexpr const vf_ignore& operator=(const T&) const noexcept { return *this; } };
inline constexpr vf_ignore ignore{};
template <class E> constexpr auto to_underlying(E e) noexcept { return static_cast<std::underlying_type_t<E>>(e); }
template <class T> using remove_cvref_t = std::remove_cv_t<std::remove_reference_t<T>>;
template <class C> auto at(C& c, std::size_t i) -> decltype(c[i]) { return c[i]; }
template <class T> constexpr bool cmp_less(T, T) noexcept;
}
