#pragma once
#include <type_traits>
#define VF_BITS(E) constexpr E operator|(E a, E b) { return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) | static_cast<std::underlying_type_t<E>>(b)); } \
 constexpr E operator&(E a, E b) { return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) & static_cast<std::underlying_type_t<E>>(b)); } \
 inline E& operator|=(E& a, E b) { return a = a | b; } constexpr E operator~(E a) { return static_cast<E>(~static_cast<std::underlying_type_t<E>>(a)); }
