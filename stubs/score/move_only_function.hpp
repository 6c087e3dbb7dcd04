#pragma once
#include <cstddef>
#include <functional>
#include <type_traits>
#include <utility>
namespace score::cpp {
template <class S, std::size_t C = 32, std::size_t A = 16> class move_only_function;
template <class R, class... Args, std::size_t C, std::size_t Al> class move_only_function<R(Args...), C, Al> {
 public:
  using alignment_t = std::integral_constant<std::size_t, Al>; using capacity_t = std::integral_constant<std::size_t, C>;
  move_only_function() noexcept; move_only_function(std::nullptr_t) noexcept;
  move_only_function(move_only_function&&) noexcept; move_only_function& operator=(move_only_function&&) noexcept; move_only_function& operator=(std::nullptr_t) noexcept;
  move_only_function(const move_only_function&) = delete; move_only_function& operator=(const move_only_function&) = delete;
  template <class F, std::enable_if_t<!std::is_same_v<std::decay_t<F>, move_only_function> && std::is_invocable_r_v<R, std::decay_t<F>&, Args...>, int> = 0> move_only_function(F&&) {}
  template <class F, std::enable_if_t<!std::is_same_v<std::decay_t<F>, move_only_function> && std::is_invocable_r_v<R, std::decay_t<F>&, Args...>, int> = 0> move_only_function& operator=(F&&) { return *this; }
  ~move_only_function();
  R operator()(Args...) const;
  explicit operator bool() const noexcept;
  bool empty() const noexcept;
};
template <class R, class... Args, std::size_t C, std::size_t Al> bool operator==(const move_only_function<R(Args...), C, Al>&, std::nullptr_t) noexcept;
template <class R, class... Args, std::size_t C, std::size_t Al> bool operator!=(const move_only_function<R(Args...), C, Al>&, std::nullptr_t) noexcept;
}
