#pragma once
#include <cstdint>
#include <string_view>
namespace score::mw::log {
enum class LogLevel : std::uint8_t { kOff = 0, kFatal, kError, kWarn, kInfo, kDebug, kVerbose };
template <class T> struct LogHexT { T v; }; using LogHex8 = LogHexT<std::uint8_t>; using LogHex16 = LogHexT<std::uint16_t>; using LogHex32 = LogHexT<std::uint32_t>; using LogHex64 = LogHexT<std::uint64_t>;
}
