#pragma once
#include "score/os/acl.h"
#include <vector>
#include <string>
namespace score::os {
class IAccessControlList { public: using UserIdentifier = std::uint32_t; virtual ~IAccessControlList() = default;
 virtual score::cpp::expected_blank<Error> AllowUser(UserIdentifier, Acl::Permission) = 0;
 virtual score::cpp::expected<bool, Error> VerifyMaskPermissions(const std::vector<Acl::Permission>&) const = 0;
 virtual score::cpp::expected<std::vector<UserIdentifier>, Error> FindUserIdsWithPermission(Acl::Permission) const = 0;
 virtual score::cpp::expected<std::string, Error> ToString() const = 0; };
}
