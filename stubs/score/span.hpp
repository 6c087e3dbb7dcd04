#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <vector>
namespace score::cpp {
inline constexpr std::size_t dynamic_extent = static_cast<std::size_t>(-1);
template <class T, std::size_t N = dynamic_extent> class span {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using size_type = std::size_t; using pointer = T*; using reference = T&; using iterator = T*; using const_iterator = const T*; using difference_type = std::ptrdiff_t;
  constexpr span() noexcept = default;
  template <class S, std::enable_if_t<std::is_integral_v<S>, int> = 0> constexpr span(T* p, S n) : p_{p}, n_{static_cast<std::size_t>(n)} {}
  constexpr span(T* p, T* e);
  template <std::size_t M> constexpr span(T (&a)[M]);
  template <class U, std::size_t M> constexpr span(std::array<U, M>& a);
  template <class U, std::size_t M> constexpr span(const std::array<U, M>& a);
  template <class C, class = decltype(std::declval<C&>().data()), class = decltype(std::declval<C&>().size()), class = std::enable_if_t<!std::is_array_v<C> && std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<C&>().data())> (*)[], T (*)[]>>> constexpr span(C& c);
  template <class C, class = decltype(std::declval<const C&>().data()), class = decltype(std::declval<const C&>().size()), class = std::enable_if_t<std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<const C&>().data())> (*)[], T (*)[]>>, class = void> constexpr span(const C& c);
  constexpr T* data() const noexcept { return p_; }
  constexpr size_type size() const noexcept { return n_; }
  constexpr size_type size_bytes() const noexcept;
  constexpr bool empty() const noexcept { return n_ == 0; }
  constexpr T& operator[](size_type i) const { return p_[i]; }
  constexpr T& operator()(size_type i) const { return p_[i]; }
  constexpr T& front() const; constexpr T& back() const;
  constexpr T* begin() const noexcept { return p_; }
  constexpr T* end() const noexcept { return p_ + n_; }
  constexpr const T* cbegin() const noexcept; constexpr const T* cend() const noexcept;
  constexpr span<T> subspan(size_type o, size_type n = dynamic_extent) const;
  constexpr span<T> first(size_type n) const; constexpr span<T> last(size_type n) const;
 private: T* p_{nullptr}; std::size_t n_{0};
};
template <class T, std::size_t M> span(std::array<T, M>&) -> span<T>;
template <class T, std::size_t M> span(const std::array<T, M>&) -> span<const T>;
template <class T, class A> span(std::vector<T, A>&) -> span<T>;
template <class T, class A> span(const std::vector<T, A>&) -> span<const T>;
template <class T, class S> span(T*, S) -> span<T>;
template <class T> span<const std::byte> as_bytes(span<T>);
template <class T> span<std::byte> as_writable_bytes(span<T>);
}
