#pragma once
#include "score/memory_resource.hpp"
#include <memory>
namespace score::cpp::pmr {
template <class T> struct deleter {
  deleter() noexcept; deleter(memory_resource*) noexcept;
  template <class U, std::enable_if_t<std::is_convertible_v<U*, T*>, int> = 0> deleter(const deleter<U>&) noexcept;
  void operator()(T*);
};
template <class T> using unique_ptr = std::unique_ptr<T, deleter<T>>;
template <class T, class... A> unique_ptr<T> make_unique(memory_resource* r, A&&... a) { return unique_ptr<T>{new T(std::forward<A>(a)...), deleter<T>{r}}; }
template <class T, class... A> unique_ptr<T> make_unique(const polymorphic_allocator<T>& r, A&&... a) { return unique_ptr<T>{new T(std::forward<A>(a)...), deleter<T>{}}; }
template <class T, class... A> std::shared_ptr<T> make_shared(memory_resource*, A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
template <class T, class... A> std::shared_ptr<T> make_shared(const polymorphic_allocator<T>&, A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
}
