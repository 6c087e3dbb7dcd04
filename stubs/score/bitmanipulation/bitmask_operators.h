#pragma once
#include <type_traits>
namespace score { template <class E> struct enable_bitmask_operators : std::false_type {}; }
template <class E, std::enable_if_t<::score::enable_bitmask_operators<E>::value, int> = 0> constexpr E operator|(E a, E b) { return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) | static_cast<std::underlying_type_t<E>>(b)); }
namespace score::os { using ::operator|; }
