#pragma once
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include <poll.h>
namespace score::os { class SysPoll : public ObjectSeam<SysPoll> { public: static score::cpp::pmr::unique_ptr<SysPoll> Default(score::cpp::pmr::memory_resource*) noexcept; virtual score::cpp::expected<std::int32_t, Error> poll(pollfd*, nfds_t, std::int32_t) const noexcept = 0; virtual ~SysPoll() = default; }; }
