#pragma once
#include <functional>
#include <utility>
namespace score::cpp {
struct nostopstate_t { explicit nostopstate_t() = default; };
inline constexpr nostopstate_t nostopstate{};
class stop_token { public: bool stop_requested() const noexcept; bool stop_possible() const noexcept; };
class stop_source { public: stop_source(); explicit stop_source(nostopstate_t) noexcept; stop_token get_token() const noexcept; bool request_stop() noexcept; bool stop_requested() const noexcept; bool stop_possible() const noexcept; };
class stop_callback { public: template <class F> stop_callback(const stop_token&, F&&) {} ~stop_callback(); stop_callback(const stop_callback&) = delete; };
}
