#pragma once
#include "score/containers/dynamic_array.h"
namespace score::containers {
template <class T, class A = std::allocator<T>> class NonRelocatableVector {
 public:
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using allocator_type = A; using reference = T&; using const_reference = const T&; using iterator = T*; using const_iterator = const T*;
  explicit NonRelocatableVector(size_type, const A& = A()); NonRelocatableVector(NonRelocatableVector&&) noexcept; NonRelocatableVector& operator=(NonRelocatableVector&&) noexcept; ~NonRelocatableVector();
  template <class... X> T& emplace_back(X&&...); void push_back(const T&); void push_back(T&&); void pop_back();
  T& at(size_type); const T& at(size_type) const; T& operator[](size_type); const T& operator[](size_type) const; T& front(); T& back(); const T& back() const; T* data() noexcept; const T* data() const noexcept;
  iterator begin() noexcept; iterator end() noexcept; const_iterator begin() const noexcept; const_iterator end() const noexcept; const_iterator cbegin() const noexcept; const_iterator cend() const noexcept;
  size_type size() const noexcept; size_type capacity() const noexcept; bool empty() const noexcept; void clear();
};
}
