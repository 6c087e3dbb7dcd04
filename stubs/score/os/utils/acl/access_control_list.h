#pragma once
#include "score/os/utils/acl/i_access_control_list.h"
namespace score::os { class AccessControlList final : public IAccessControlList { public: explicit AccessControlList(Acl::FileDescriptor); 
 score::cpp::expected_blank<Error> AllowUser(UserIdentifier, Acl::Permission) override;
 score::cpp::expected<bool, Error> VerifyMaskPermissions(const std::vector<Acl::Permission>&) const override;
 score::cpp::expected<std::vector<UserIdentifier>, Error> FindUserIdsWithPermission(Acl::Permission) const override;
 score::cpp::expected<std::string, Error> ToString() const override; }; }
