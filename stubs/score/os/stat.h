#pragma once
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include "score/os/vf_bits.h"
#include <sys/stat.h>
#include <cstdint>
#include <ctime>
namespace score::os {
struct StatBuffer { std::int64_t st_dev, st_ino, st_nlink, st_size, mtime, ctime; std::uint32_t st_mode; std::int64_t st_uid, st_gid; };
class Stat : public ObjectSeam<Stat> {
 public:
  enum class Mode : std::uint64_t { kNone = 0, kReadUser = 1, kWriteUser = 2, kExecUser = 4, kReadGroup = 8, kWriteGroup = 16, kExecGroup = 32, kReadOthers = 64, kWriteOthers = 128, kExecOthers = 256, kReadWriteExecUser = 7, kReadWriteExecGroup = 56, kReadWriteExecOthers = 448 };
  static score::cpp::pmr::unique_ptr<Stat> Default(score::cpp::pmr::memory_resource*) noexcept; static Stat& instance() noexcept;
  virtual score::cpp::expected_blank<Error> stat(const char*, StatBuffer&, bool resolve_symlinks = true) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> fstat(std::int32_t, StatBuffer&) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> chmod(const char*, Mode) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> fchmod(std::int32_t, Mode) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> mkdir(const char*, Mode) const noexcept = 0;
  virtual mode_t umask(mode_t) const noexcept = 0;
  virtual ~Stat() = default;
};
VF_BITS(Stat::Mode)
std::uint32_t ModeToInteger(Stat::Mode) noexcept; Stat::Mode IntegerToMode(std::uint32_t) noexcept;
}
