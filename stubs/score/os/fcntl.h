#pragma once
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include "score/os/stat.h"
#include "score/os/vf_bits.h"
namespace score::os {
class Fcntl : public ObjectSeam<Fcntl> {
 public:
  enum class Open : std::uint64_t { kReadOnly = 1, kWriteOnly = 2, kReadWrite = 4, kCreate = 8, kCloseOnExec = 16, kNonBlocking = 32, kExclusive = 64, kTruncate = 128, kDirectory = 256, kAppend = 512, kSynchronized = 1024 };
  enum class Operation : std::uint64_t { kLockShared = 1, kLockExclusive = 2, kUnLock = 4, kLockNB = 8 };
  enum class Command { kFileGetStatusFlags, kFileSetStatusFlags };
  static score::cpp::pmr::unique_ptr<Fcntl> Default(score::cpp::pmr::memory_resource*) noexcept; static Fcntl& instance() noexcept;
  virtual score::cpp::expected<std::int32_t, Error> open(const char*, Open) const noexcept = 0;
  virtual score::cpp::expected<std::int32_t, Error> open(const char*, Open, Stat::Mode) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> flock(std::int32_t, Operation) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> fcntl(std::int32_t, Command, Open) const noexcept = 0;
  virtual score::cpp::expected<Open, Error> fcntl(std::int32_t, Command) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> posix_fallocate(std::int32_t, off_t, off_t) const noexcept = 0;
  virtual ~Fcntl() = default;
};
VF_BITS(Fcntl::Open) VF_BITS(Fcntl::Operation)
}
