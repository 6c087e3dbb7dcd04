#pragma once
#include <cstddef>
#include <functional>
#include <type_traits>
#include <utility>
namespace score::cpp {
template <class S, std::size_t C = 32, std::size_t A = 16> class callback;
template <class R, class... Args, std::size_t C, std::size_t Al> class callback<R(Args...), C, Al> {
 public:
  using alignment_t = std::integral_constant<std::size_t, Al>; using capacity_t = std::integral_constant<std::size_t, C>;
  callback() noexcept; callback(std::nullptr_t) noexcept;
  callback(callback&&) noexcept; callback& operator=(callback&&) noexcept; callback& operator=(std::nullptr_t) noexcept;
  callback(const callback&) = delete; callback& operator=(const callback&) = delete;
  template <class F, std::enable_if_t<!std::is_same_v<std::decay_t<F>, callback> && std::is_invocable_r_v<R, std::decay_t<F>&, Args...>, int> = 0> callback(F&&) {}
  template <class F, std::enable_if_t<!std::is_same_v<std::decay_t<F>, callback> && std::is_invocable_r_v<R, std::decay_t<F>&, Args...>, int> = 0> callback& operator=(F&&) { return *this; }
  ~callback();
  R operator()(Args...) const;
  explicit operator bool() const noexcept;
  bool empty() const noexcept;
};
template <class R, class... Args, std::size_t C, std::size_t Al> bool operator==(const callback<R(Args...), C, Al>&, std::nullptr_t) noexcept;
template <class R, class... Args, std::size_t C, std::size_t Al> bool operator!=(const callback<R(Args...), C, Al>&, std::nullptr_t) noexcept;
}
