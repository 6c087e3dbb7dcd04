#pragma once
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include "score/os/vf_bits.h"
#include <unistd.h>
#include <sys/types.h>
namespace score::os {
class Unistd : public ObjectSeam<Unistd> {
 public:
  enum class AccessMode : std::uint32_t { kRead = 1, kWrite = 2, kExec = 4, kExists = 8 };
  static score::cpp::pmr::unique_ptr<Unistd> Default(score::cpp::pmr::memory_resource*) noexcept; static std::unique_ptr<Unistd> Default() noexcept; static Unistd& instance() noexcept;
  virtual score::cpp::expected_blank<Error> close(std::int32_t) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> unlink(const char*) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> access(const char*, AccessMode) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> pipe(std::int32_t*) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> ftruncate(std::int32_t, off_t) const noexcept = 0;
  virtual score::cpp::expected<ssize_t, Error> read(std::int32_t, void*, std::size_t) const noexcept = 0;
  virtual score::cpp::expected<ssize_t, Error> write(std::int32_t, const void*, std::size_t) const noexcept = 0;
  virtual pid_t getpid() const noexcept = 0; virtual uid_t getuid() const noexcept = 0; virtual gid_t getgid() const noexcept = 0; virtual std::int64_t gettid() const noexcept = 0;
  virtual score::cpp::expected_blank<Error> setuid(uid_t) const noexcept = 0;
  virtual score::cpp::expected<ssize_t, Error> readlink(const char*, char*, size_t) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> nanosleep(const timespec*, timespec*) const noexcept = 0;
  virtual ~Unistd() = default;
};
VF_BITS(Unistd::AccessMode)
namespace internal { class UnistdImpl : public Unistd { public:
  score::cpp::expected_blank<Error> close(std::int32_t) const noexcept override; score::cpp::expected_blank<Error> unlink(const char*) const noexcept override; score::cpp::expected_blank<Error> access(const char*, AccessMode) const noexcept override; score::cpp::expected_blank<Error> pipe(std::int32_t*) const noexcept override; score::cpp::expected_blank<Error> ftruncate(std::int32_t, off_t) const noexcept override; score::cpp::expected<ssize_t, Error> read(std::int32_t, void*, std::size_t) const noexcept override; score::cpp::expected<ssize_t, Error> write(std::int32_t, const void*, std::size_t) const noexcept override; pid_t getpid() const noexcept override; uid_t getuid() const noexcept override; gid_t getgid() const noexcept override; std::int64_t gettid() const noexcept override; score::cpp::expected_blank<Error> setuid(uid_t) const noexcept override; score::cpp::expected<ssize_t, Error> readlink(const char*, char*, size_t) const noexcept override; score::cpp::expected_blank<Error> nanosleep(const timespec*, timespec*) const noexcept override; }; }
}
