#pragma once
#include <cstdint>
#include <ostream>
#include <string_view>
#include <utility>
namespace score::result {
using ErrorCode = std::int32_t;
class ErrorDomain {
 public:
  virtual std::string_view MessageFor(const ErrorCode& code) const noexcept = 0;
  constexpr ErrorDomain() = default;
 protected:
  ~ErrorDomain() noexcept = default;
};
class Error {
 public:
  constexpr Error(const ErrorCode code, const ErrorDomain& d, std::string_view m = {}) noexcept : code_{code}, d_{&d}, m_{m} {}
  template <class E, class = decltype(MakeError(std::declval<E>(), std::string_view{}))> Error(E e, std::string_view m = {}) noexcept : Error(MakeError(e, m)) {}
  const ErrorCode& operator*() const noexcept;
  std::string_view Message() const noexcept;
  std::string_view UserMessage() const noexcept;
 private: ErrorCode code_; const ErrorDomain* d_; std::string_view m_;
};
std::ostream& operator<<(std::ostream&, const Error&);
bool operator==(const Error&, const Error&);
bool operator!=(const Error&, const Error&);
template <class E> bool operator==(const Error&, const E&);
template <class E> bool operator!=(const Error&, const E&);
}
namespace score::mw::log { class LogStream; LogStream& operator<<(LogStream&, const score::result::Error&); }
