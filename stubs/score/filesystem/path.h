#pragma once
#include <ostream>
#include <string>
#include <string_view>
namespace score::filesystem {
class Path { public: Path(); Path(const char*); Path(std::string); Path(std::string_view); Path(const Path&); Path(Path&&) noexcept; Path& operator=(const Path&); Path& operator=(Path&&) noexcept; ~Path();
 Path& operator/=(const Path&); const std::string& Native() const&; std::string Native() &&; const char* CStr() const; operator std::string() const; operator std::string_view() const; Path Filename() const; Path RelativePath() const; Path ParentPath() const; Path Extension() const; bool Empty() const; bool IsAbsolute() const; Path RootDirectory() const; Path LexicallyNormal() const;
 struct iterator { Path operator*() const; iterator& operator++(); bool operator!=(const iterator&) const; bool operator==(const iterator&) const; }; iterator begin() const; iterator end() const; };
Path operator/(const Path&, const Path&); bool operator==(const Path&, const Path&); bool operator!=(const Path&, const Path&); bool operator<(const Path&, const Path&); std::ostream& operator<<(std::ostream&, const Path&);
}
template <> struct std::hash<score::filesystem::Path> { std::size_t operator()(const score::filesystem::Path&) const noexcept; };
