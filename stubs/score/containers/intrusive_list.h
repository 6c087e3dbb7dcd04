#pragma once
#include <cstddef>
#include <iterator>
namespace score::containers {
template <class Tag = void> class intrusive_list_element { public: intrusive_list_element() noexcept; ~intrusive_list_element(); intrusive_list_element(const intrusive_list_element&) = delete; };
template <class T, class Tag = void> class intrusive_list {
 public:
  struct iterator { using iterator_category = std::bidirectional_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&; T& operator*() const; T* operator->() const; iterator& operator++(); iterator operator++(int); iterator& operator--(); bool operator==(const iterator&) const; bool operator!=(const iterator&) const; };
  struct const_iterator { using iterator_category = std::bidirectional_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&; const_iterator(iterator); const T& operator*() const; const T* operator->() const; const_iterator& operator++(); bool operator==(const const_iterator&) const; bool operator!=(const const_iterator&) const; };
  bool empty() const; std::size_t size() const; T& front(); T& back(); const T& front() const; void push_front(T&); void push_back(T&); void pop_front(); void pop_back(); iterator insert(const_iterator, T&); iterator erase(const_iterator); iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator cbegin() const; void clear(); void splice(const_iterator, intrusive_list&); void splice(const_iterator, intrusive_list&, const_iterator); template <class P, class D> void remove_and_dispose_if(P p, D d) { if (p(front())) d(&front()); } template <class I> void assign(I, I); template <class D> void clear_and_dispose(D d) { d(&front()); } template <class P> void remove_if(P p) { p(front()); } template <class D> iterator erase_and_dispose(const_iterator, D) { __builtin_unreachable(); } static iterator iterator_to(T&);
};
}
