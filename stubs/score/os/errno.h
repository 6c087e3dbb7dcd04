#pragma once
#include "score/expected.hpp"
#include <cerrno>
#include <cstdint>
#include <ostream>
#include <string>
namespace score::os {
class Error {
 public:
  enum class Code : std::int32_t { kUnexpected, kNoSuchFileOrDirectory, kPermissionDenied, kOperationNotPermitted, kObjectExists, kOperationWasInterruptedBySignal, kResourceTemporarilyUnavailable, kInvalidArgument, kUnknown, kCouldNotAllocateMemory, kBadFileDescriptor, kNotConnected, kBrokenPipe, kConnectionRefused, kWouldBlock, kResourceDeadlockAvoided, kDeviceOrResourceBusy };
  static Error createFromErrno() noexcept; static Error createFromErrno(std::int32_t) noexcept; static Error createUnspecifiedError() noexcept; static Error createFromErrnoFlockSpecific(std::int32_t = 0) noexcept;
  std::string ToString() const noexcept; std::int32_t GetOsDependentErrorCode() const noexcept;
  bool operator==(const Error&) const noexcept; bool operator!=(const Error&) const noexcept; bool operator==(const Code&) const noexcept; bool operator!=(const Code&) const noexcept;
};
std::ostream& operator<<(std::ostream&, const Error&);
template <class T> using Result = score::cpp::expected<T, Error>;
}
namespace score::mw::log { class LogStream; LogStream& operator<<(LogStream&, const score::os::Error&); }
