#pragma once
#include "score/filesystem/path.h"
#include "score/os/stat.h"
#include "score/result/result.h"
#include <memory>
#include <fstream>
namespace score::filesystem {
using Perms = score::os::Stat::Mode;
enum class PermOptions { kReplace, kAdd, kRemove }; enum class FileType { kNone, kNotFound, kRegular, kDirectory, kSymlink }; 
class FileStatus { public: FileType Type() const; Perms Permissions() const; };
enum class ErrorCode : std::int32_t { kFileOrDirectoryDoesNotExist = 1, kCouldNotRemoveFileOrDirectory, kCouldNotCreateDirectory };
score::result::Error MakeError(ErrorCode, std::string_view = {}) noexcept;
class IStandardFilesystem { public: virtual ~IStandardFilesystem() = default;
 virtual score::Result<bool> Exists(const Path&) const noexcept = 0; virtual score::ResultBlank CreateDirectory(const Path&) const noexcept = 0; virtual score::ResultBlank CreateDirectories(const Path&) const noexcept = 0; virtual score::ResultBlank Permissions(const Path&, Perms, PermOptions = PermOptions::kReplace) const noexcept = 0; virtual score::ResultBlank Remove(const Path&) const noexcept = 0; virtual score::ResultBlank RemoveAll(const Path&) const noexcept = 0; virtual score::Result<FileStatus> Status(const Path&) const noexcept = 0; virtual score::Result<bool> IsDirectory(const Path&) const noexcept = 0; virtual score::Result<bool> IsRegularFile(const Path&) const noexcept = 0; virtual score::Result<Path> CurrentPath() const noexcept = 0; };
using StandardFilesystem = IStandardFilesystem;
class IFilesystemUtils { public: virtual ~IFilesystemUtils() = default; virtual score::ResultBlank CreateDirectories(const Path&, Perms) const = 0; virtual score::ResultBlank ValidateGroup(const Path&, gid_t) const = 0; virtual score::ResultBlank ValidateOwner(const Path&, uid_t) const = 0; virtual score::ResultBlank ValidatePermissions(const Path&, Perms, bool = true) const = 0; };
class IFileFactory { public: virtual ~IFileFactory() = default; virtual score::Result<std::unique_ptr<std::iostream>> Open(const Path&, std::ios_base::openmode) = 0; };
struct Filesystem { std::shared_ptr<IStandardFilesystem> standard; std::shared_ptr<IFilesystemUtils> utils; std::shared_ptr<IFileFactory> streams; };
class DirectoryEntry { public: DirectoryEntry(); const Path& GetPath() const; score::Result<FileStatus> Status() const; bool IsDirectory() const; score::Result<bool> IsRegularFile() const; operator const Path&() const; };
class DirectoryIterator { public: DirectoryIterator(); explicit DirectoryIterator(const Path&); const DirectoryEntry& operator*() const; const DirectoryEntry* operator->() const; DirectoryIterator& operator++(); bool operator!=(const DirectoryIterator&) const; bool operator==(const DirectoryIterator&) const; };
DirectoryIterator begin(DirectoryIterator); DirectoryIterator end(const DirectoryIterator&);
class FilesystemFactory { public: Filesystem CreateInstance() const; };
}
