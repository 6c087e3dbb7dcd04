#pragma once
#include <optional>
#include <string>
#include <cstdint>
#include <array>
#include <netinet/in.h>
namespace score::os { class Ipv4Address { public: Ipv4Address(); explicit Ipv4Address(const std::string&); explicit Ipv4Address(const char*); std::string ToString() const; static std::optional<Ipv4Address> CreateFromString(std::string_view); in_addr ToInAddr() const; std::array<std::uint8_t, 4> ToIpv4Bytes() const; }; bool operator==(const Ipv4Address&, const Ipv4Address&); bool operator!=(const Ipv4Address&, const Ipv4Address&); }
