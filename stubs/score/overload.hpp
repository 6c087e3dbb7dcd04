#pragma once
#include <utility>
#include <variant>
namespace score::cpp {
template <class... F> struct vf_overload : F... { using F::operator()...; };
template <class... F> vf_overload(F...) -> vf_overload<F...>;
template <class... F> constexpr vf_overload<std::decay_t<F>...> overload(F&&... f) { return {std::forward<F>(f)...}; }
template <class V, class... F> decltype(auto) visit(V&& v, F&&... f);
}
