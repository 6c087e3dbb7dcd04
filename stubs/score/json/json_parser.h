#pragma once
#include "score/result/result.h"
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <unordered_map>
#include <functional>
#include <optional>
namespace score::memory {
class StringAdapter { public: StringAdapter(std::string_view); StringAdapter(const char*); StringAdapter(std::string); std::string_view GetAsStringView() const noexcept; };
bool operator==(const StringAdapter&, std::string_view); bool operator<(const StringAdapter&, const StringAdapter&);
}
namespace score::json {
enum class Error { kInvalidFilePath = 1, kParsingError, kKeyNotFound, kWrongType, kUnknownError };
score::result::Error MakeError(Error, std::string_view = {}) noexcept;
class Any;
class Null {};
class List { public: using value_type = Any; using iterator = Any*; using const_iterator = const Any*; List(); template <class I> List(I, I); List(List&&) noexcept; List& operator=(List&&) noexcept; List(const List&) = delete; ~List(); iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator cbegin() const; const_iterator cend() const; std::size_t size() const; bool empty() const; Any& at(std::size_t); const Any& at(std::size_t) const; Any& operator[](std::size_t); const Any& operator[](std::size_t) const; template <class... X> Any& emplace_back(X&&...); template <class X> void push_back(X&&); void reserve(std::size_t); const Any& front() const; const Any& back() const; };
class Object {
 public:
  using value_type = std::pair<const score::memory::StringAdapter, Any>;
  using iterator = value_type*; using const_iterator = const value_type*;
  Object(); Object(Object&&) noexcept; Object(const Object&) = delete; Object& operator=(Object&&) noexcept; ~Object();
  Any& operator[](std::string_view);
  iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator cbegin() const; const_iterator cend() const;
  iterator find(std::string_view); const_iterator find(std::string_view) const;
  bool empty() const; std::size_t size() const; std::size_t count(std::string_view) const;
  template <class K, class V> std::pair<iterator, bool> insert(std::pair<K, V>&&);
  template <class V> std::pair<iterator, bool> insert_or_assign(std::string_view, V&&);
  template <class... V> std::pair<iterator, bool> emplace(V&&...);
};
class Any {
 public:
  Any(); Any(Any&&) noexcept; Any& operator=(Any&&) noexcept; ~Any(); Any(const Any&) = delete;
  template <class T, std::enable_if_t<!std::is_same_v<std::decay_t<T>, Any> && (std::is_arithmetic_v<std::decay_t<T>> || std::is_same_v<std::decay_t<T>, Object> || std::is_same_v<std::decay_t<T>, List> || std::is_same_v<T, std::string> || std::is_same_v<std::decay_t<T>, Null>), int> = 0> Any(T&&);
  template <class T, std::enable_if_t<!std::is_same_v<std::decay_t<T>, Any>, int> = 0> Any& operator=(T&&);
  template <class T> score::Result<std::conditional_t<std::is_same_v<T,List>||std::is_same_v<T,Object>||std::is_same_v<T,std::string>, std::reference_wrapper<const T>, T>> As() const noexcept;
  template <class T> score::Result<std::conditional_t<std::is_same_v<T,List>||std::is_same_v<T,Object>||std::is_same_v<T,std::string>, std::reference_wrapper<T>, T>> As() noexcept;
  Any CloneByValue() const;
};
template <class T> bool operator==(const Any&, const T&);
class JsonParser { public: score::Result<Any> FromFile(std::string_view) const noexcept; score::Result<Any> FromBuffer(std::string_view) const noexcept; };
template <class T> score::Result<T> GetValueFromKey_();
}
