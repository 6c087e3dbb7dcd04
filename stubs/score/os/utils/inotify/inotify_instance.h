#pragma once
#include "score/os/errno.h"
#include "score/os/vf_bits.h"
#include "score/static_vector.hpp"
#include <sys/inotify.h>
#include <string_view>
#include <cstdint>
namespace score::os {
class InotifyWatchDescriptor { public: explicit InotifyWatchDescriptor(std::int32_t); std::int32_t GetUnderlying() const noexcept; }; bool operator==(const InotifyWatchDescriptor&, const InotifyWatchDescriptor&); bool operator<(const InotifyWatchDescriptor&, const InotifyWatchDescriptor&); bool operator!=(const InotifyWatchDescriptor&, const InotifyWatchDescriptor&);
class InotifyEvent { public: enum class ReadMask : std::uint32_t { kUnknown = 0, kInAccess = 1, kInCreate = 0x100, kInDelete = 0x200, kInMovedTo = 0x80, kInIgnored = 0x8000, kInQOverflow = 0x4000, kInIsDir = 0x40000000 }; InotifyWatchDescriptor GetWatchDescriptor() const noexcept; ReadMask GetMask() const noexcept; std::uint32_t GetCookie() const noexcept; std::string_view GetName() const noexcept; };
VF_BITS(InotifyEvent::ReadMask)
class Inotify { public: enum class EventMask : std::uint32_t { kUnknown = 0, kAccess = 1, kInMovedTo = 2, kInCreate = 4, kInDelete = 8 }; };
VF_BITS(Inotify::EventMask)
class InotifyInstance { public: static constexpr std::size_t max_events = 10; virtual ~InotifyInstance() = default; virtual score::cpp::expected_blank<Error> IsValid() const noexcept = 0; virtual void Close() noexcept = 0; virtual score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(std::string_view, Inotify::EventMask) noexcept = 0; virtual score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor) noexcept = 0; virtual score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept = 0; };
class InotifyInstanceImpl : public InotifyInstance { public: InotifyInstanceImpl(); score::cpp::expected_blank<Error> IsValid() const noexcept override; void Close() noexcept override; score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(std::string_view, Inotify::EventMask) noexcept override; score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor) noexcept override; score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept override; };
}
template <> struct std::hash<score::os::InotifyWatchDescriptor> { std::size_t operator()(const score::os::InotifyWatchDescriptor&) const noexcept; };
