#pragma once
#include "score/mw/log/log_types.h"
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
namespace score::mw::log {
class LogStream { public: LogStream(LogStream&&) noexcept; ~LogStream();
 template <class T, std::enable_if_t<std::is_arithmetic_v<std::decay_t<T>> || std::is_same_v<std::decay_t<T>, void*> || std::is_same_v<std::decay_t<T>, const void*> || std::is_convertible_v<T, std::string_view>, int> = 0> LogStream& operator<<(const T&) noexcept;
 template <class T> LogStream& operator<<(const LogHexT<T>&) noexcept;
 void Flush() noexcept; };
template <class T> auto operator<<(LogStream&& s, const T& t) -> decltype(s << t);
}
