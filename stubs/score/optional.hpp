#pragma once
#include <optional>
namespace score::cpp { template <class T> using optional = std::optional<T>; using std::nullopt; using std::nullopt_t; using std::make_optional; }
