#pragma once
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include <cstdint>
#include <vector>
namespace score::os { class Acl : public ObjectSeam<Acl> { public: enum class Permission : std::uint32_t { kRead, kWrite, kExecute }; using FileDescriptor = std::int32_t; using UserIdentifier = std::uint32_t; virtual ~Acl() = default; }; }
