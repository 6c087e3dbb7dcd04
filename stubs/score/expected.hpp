#pragma once
#include "score/blank.hpp"
#include "score/utility.hpp"
#include <initializer_list>
#include <type_traits>
#include <utility>
namespace score::cpp {
struct unexpect_t { explicit unexpect_t() = default; };
inline constexpr unexpect_t unexpect{};
template <class E> class unexpected {
 public:
  constexpr explicit unexpected(const E& e) : e_(e) {}
  constexpr explicit unexpected(E&& e) : e_(std::move(e)) {}
  constexpr const E& error() const& { return e_; }
  constexpr E& error() & { return e_; }
  constexpr E&& error() && { return std::move(e_); }
 private: E e_;
};
template <class E> unexpected(E) -> unexpected<E>;
template <class E> constexpr unexpected<std::decay_t<E>> make_unexpected(E&& e) { return unexpected<std::decay_t<E>>(std::forward<E>(e)); }
template <class E, class... A> constexpr unexpected<E> make_unexpected(A&&... a) { return unexpected<E>(E(std::forward<A>(a)...)); }
template <class T, class E> class [[nodiscard]] expected;
template <class X> struct vf_is_expected : std::false_type {};
template <class T, class E> struct vf_is_expected<expected<T, E>> : std::true_type {};
template <class X> struct vf_is_unexpected : std::false_type {};
template <class E> struct vf_is_unexpected<unexpected<E>> : std::true_type {};
template <class T, class E> class [[nodiscard]] expected {
 public:
  using value_type = T; using error_type = E;
  expected();
  expected(const expected&) = default;
  expected(expected&&) = default;
  expected& operator=(const expected&) = default;
  expected& operator=(expected&&) = default;
  ~expected();
  template <class U = T, std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, expected> && !vf_is_unexpected<std::decay_t<U>>::value && std::is_convertible_v<U&&, T>, int> = 0>
  expected(U&& u);
  template <class U = T, std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, expected> && !vf_is_unexpected<std::decay_t<U>>::value && !std::is_convertible_v<U&&, T>, int> = 0>
  explicit expected(U&& u);
  template <class G, std::enable_if_t<std::is_constructible_v<E, const G&>, int> = 0> expected(const unexpected<G>&);
  template <class G, std::enable_if_t<std::is_constructible_v<E, G&&>, int> = 0> expected(unexpected<G>&&);
  template <class U, class G, std::enable_if_t<!std::is_same_v<expected<U,G>, expected> && std::is_constructible_v<T, U&&>, int> = 0> expected(expected<U, G>&&);

  template <class... A> explicit expected(unexpect_t, A&&...);
  template <class... A> explicit expected(std::in_place_t, A&&...);
  bool has_value() const noexcept;
  explicit operator bool() const noexcept;
  T& value() &;
  const T& value() const&;
  T&& value() &&;
  const T&& value() const&&;
  E& error() &;
  const E& error() const&;
  E&& error() &&;
  T& operator*() &;
  const T& operator*() const&;
  T&& operator*() &&;
  T* operator->();
  const T* operator->() const;
  template <class U> T value_or(U&&) const&;
  template <class U> T value_or(U&&) &&;
  template <class G> E error_or(G&&) const;
  template <class... A> T& emplace(A&&...);
  template <class F> auto and_then(F&& f) & -> std::invoke_result_t<F, T&> { __builtin_unreachable(); }
  template <class F> auto and_then(F&& f) && -> std::invoke_result_t<F, T&&> { __builtin_unreachable(); }
  template <class F> auto and_then(F&& f) const& -> std::invoke_result_t<F, const T&> { __builtin_unreachable(); }
  template <class F> auto or_else(F&& f) & -> expected { __builtin_unreachable(); }
  template <class F> auto or_else(F&& f) && -> expected { __builtin_unreachable(); }
  template <class F> auto transform(F&& f) & -> expected<std::invoke_result_t<F, T&>, E> { __builtin_unreachable(); }
  template <class F> auto transform(F&& f) && -> expected<std::invoke_result_t<F, T&&>, E> { __builtin_unreachable(); }
  template <class F> auto transform_error(F&& f) & -> expected<T, std::invoke_result_t<F, E&>> { __builtin_unreachable(); }
  template <class F> auto transform_error(F&& f) && -> expected<T, std::invoke_result_t<F, E&&>> { __builtin_unreachable(); }
};
template <class E> class [[nodiscard]] expected<void, E> {
 public:
  using value_type = void; using error_type = E;
  expected();
  expected(const expected&) = default;
  expected(expected&&) = default;
  expected& operator=(const expected&) = default;
  expected& operator=(expected&&) = default;
  ~expected();
  template <class G, std::enable_if_t<std::is_constructible_v<E, const G&>, int> = 0> expected(const unexpected<G>&);
  template <class G, std::enable_if_t<std::is_constructible_v<E, G&&>, int> = 0> expected(unexpected<G>&&);
  expected(blank);
  bool has_value() const noexcept;
  explicit operator bool() const noexcept;
  void value() const;
  void operator*() const;
  E& error() &;
  const E& error() const&;
  E&& error() &&;
  template <class G> E error_or(G&&) const;
  template <class F> auto and_then(F&& f) const -> std::invoke_result_t<F> { __builtin_unreachable(); }
  template <class F> auto or_else(F&& f) & -> expected { __builtin_unreachable(); }
  template <class F> auto or_else(F&& f) && -> expected { __builtin_unreachable(); }
  template <class F> auto transform(F&& f) const -> expected<std::invoke_result_t<F>, E> { __builtin_unreachable(); }
  template <class F> auto transform_error(F&& f) -> expected<void, std::invoke_result_t<F, E&>> { __builtin_unreachable(); }
};
template <class T, class E, class U, class G> bool operator==(const expected<T, E>&, const expected<U, G>&);
template <class T, class E, class U, class G> bool operator!=(const expected<T, E>&, const expected<U, G>&);
template <class T, class E, class G> bool operator==(const expected<T, E>&, const unexpected<G>&);
template <class T, class E, class G> bool operator!=(const expected<T, E>&, const unexpected<G>&);
template <class E> using expected_blank = expected<blank, E>;
}
