#pragma once
#include "score/result/error.h"
#include "score/expected.hpp"
#include "score/blank.hpp"
#include <optional>
namespace score {
using Blank = score::cpp::blank;
template <class T> using Result = score::cpp::expected<T, score::result::Error>;
using ResultBlank = Result<void>;
using Unexpected_ = score::cpp::unexpected<score::result::Error>;
struct Unexpected : score::cpp::unexpected<score::result::Error> {
  using B = score::cpp::unexpected<score::result::Error>;
  Unexpected(const score::result::Error& e) : B(e) {}
  Unexpected(B&& b) : B(std::move(b)) {}
};
template <class E, std::enable_if_t<std::is_enum_v<E>, int> = 0> score::cpp::unexpected<score::result::Error> MakeUnexpected(E e, std::string_view m = {}) { return score::cpp::unexpected<score::result::Error>{MakeError(e, m)}; }
inline score::cpp::unexpected<score::result::Error> MakeUnexpected(const score::result::Error& e) { return score::cpp::unexpected<score::result::Error>{e}; }
template <class T> Result<T> MakeUnexpected(const score::result::Error& e) { return score::cpp::unexpected<score::result::Error>{e}; }
template <class T, class E, std::enable_if_t<std::is_enum_v<E>, int> = 0> Result<T> MakeUnexpected(E e, std::string_view m = {}) { return score::cpp::unexpected<score::result::Error>{MakeError(e, m)}; }
}
namespace score { template <class T, class F> std::optional<T> ResultToOptionalOrElse(const Result<T>& r, F f) { if (r.has_value()) return r.value(); f(r.error()); return std::nullopt; } }
namespace score::result { using score::MakeUnexpected; }
