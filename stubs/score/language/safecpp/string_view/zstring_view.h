#pragma once
#include <string>
#include <string_view>
namespace score::safecpp { class zstring_view { public: zstring_view() noexcept; zstring_view(const char*, std::size_t); zstring_view(const std::string&); template <std::size_t N> zstring_view(const char (&)[N]); const char* data() const noexcept; const char* c_str() const noexcept; std::size_t size() const noexcept; operator std::string_view() const noexcept; bool empty() const noexcept; }; bool operator==(zstring_view, std::string_view);
inline namespace literals { zstring_view operator""_zsv(const char*, std::size_t); } }
