#pragma once
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include <sys/uio.h>
namespace score::os { class SysUio : public ObjectSeam<SysUio> { public: static score::cpp::pmr::unique_ptr<SysUio> Default(score::cpp::pmr::memory_resource*) noexcept; virtual score::cpp::expected<ssize_t, Error> readv(std::int32_t, const iovec*, std::int32_t) const noexcept = 0; virtual score::cpp::expected<ssize_t, Error> writev(std::int32_t, const iovec*, std::int32_t) const noexcept = 0; virtual ~SysUio() = default; }; }
