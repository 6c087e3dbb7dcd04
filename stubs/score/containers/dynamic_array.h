#pragma once
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <cstdint>
namespace score::containers {
template <class T, class A = std::allocator<T>> class DynamicArray {
 public:
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using allocator_type = A; using reference = T&; using const_reference = const T&; using pointer = T*; using iterator = T*; using const_iterator = const T*;
  explicit DynamicArray(size_type, const A& = A()); DynamicArray(size_type, const T&, const A& = A()); explicit DynamicArray(const A&); DynamicArray(); DynamicArray(std::initializer_list<T>, const A& = A()); DynamicArray(DynamicArray&&) noexcept; DynamicArray(const DynamicArray&); DynamicArray& operator=(DynamicArray&&) noexcept; DynamicArray& operator=(const DynamicArray&); ~DynamicArray();
  T& at(size_type); const T& at(size_type) const; T& operator[](size_type); const T& operator[](size_type) const; T& front(); const T& front() const; T& back(); const T& back() const; T* data() noexcept; const T* data() const noexcept;
  iterator begin() noexcept; iterator end() noexcept; const_iterator begin() const noexcept; const_iterator end() const noexcept; const_iterator cbegin() const noexcept; const_iterator cend() const noexcept;
  size_type size() const noexcept; bool empty() const noexcept; void clear(); A get_allocator() const;
};
}
