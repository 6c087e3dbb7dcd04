#pragma once
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include "score/os/vf_bits.h"
#include <sys/socket.h>
#include <sys/types.h>
namespace score::os {
class Socket : public ObjectSeam<Socket> {
 public:
  enum class Domain { kUnix, kIPv4, kIPv6, kUnspecified }; enum class MessageFlag : std::int32_t { kNone = 0, kWaitAll = 1, kWaitForOne = 2, kNoSignal=4, kDontWait=8 };
  static score::cpp::pmr::unique_ptr<Socket> Default(score::cpp::pmr::memory_resource*) noexcept; static Socket& instance() noexcept;
  virtual score::cpp::expected<std::int32_t, Error> socket(Domain, std::int32_t, std::int32_t) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> listen(std::int32_t, std::int32_t) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> bind(std::int32_t, const sockaddr*, socklen_t) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> connect(std::int32_t, const sockaddr*, socklen_t) const noexcept = 0;
  virtual score::cpp::expected<std::int32_t, Error> accept(std::int32_t, sockaddr*, socklen_t*) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> setsockopt(std::int32_t, std::int32_t, std::int32_t, const void*, socklen_t) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> getsockopt(std::int32_t, std::int32_t, std::int32_t, void*, socklen_t*) const noexcept = 0;
  virtual score::cpp::expected<ssize_t, Error> recv(std::int32_t, void*, std::size_t, MessageFlag) const noexcept = 0;
  virtual score::cpp::expected<ssize_t, Error> recvfrom(std::int32_t, void*, std::size_t, MessageFlag, sockaddr*, socklen_t*) const noexcept = 0;
  virtual score::cpp::expected<ssize_t, Error> recvmsg(std::int32_t, msghdr*, MessageFlag) const noexcept = 0;
  virtual score::cpp::expected<ssize_t, Error> send(std::int32_t, const void*, std::size_t, MessageFlag) const noexcept = 0;
  virtual score::cpp::expected<ssize_t, Error> sendmsg(std::int32_t, const msghdr*, MessageFlag) const noexcept = 0;
  virtual score::cpp::expected<ssize_t, Error> sendto(std::int32_t, const void*, std::size_t, MessageFlag, const sockaddr*, socklen_t) const noexcept = 0;
  virtual ~Socket() = default;
};
VF_BITS(Socket::MessageFlag)
}
