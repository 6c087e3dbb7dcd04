#pragma once
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include "score/os/fcntl.h"
#include "score/os/stat.h"
#include <sys/mman.h>
namespace score::os {
class Mman : public ObjectSeam<Mman> {
 public:
  enum class Protection : std::int32_t { kNone = 0, kRead = 1, kWrite = 2, kExec = 4 };
  enum class Map : std::int32_t { kShared = 1, kPrivate = 2, kFixed = 4 };
  enum class PosixTypedMem : std::int32_t { kAllocateContig = 1 };
  static score::cpp::pmr::unique_ptr<Mman> Default(score::cpp::pmr::memory_resource*) noexcept; static Mman& instance() noexcept;
  virtual score::cpp::expected<void*, Error> mmap(void*, std::size_t, Protection, Map, std::int32_t, std::int64_t) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> munmap(void*, std::size_t) const noexcept = 0;
  virtual score::cpp::expected<std::int32_t, Error> shm_open(const char*, Fcntl::Open, Stat::Mode) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> shm_unlink(const char*) const noexcept = 0;
  virtual ~Mman() = default;
};
VF_BITS(Mman::Protection) VF_BITS(Mman::Map)
}
