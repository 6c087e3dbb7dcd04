#pragma once
#include "score/stop_token.hpp"
#include <thread>
namespace score::cpp { class jthread { public: jthread() noexcept; template <class F, class... A> explicit jthread(F&&, A&&...); ~jthread(); bool joinable() const noexcept; void join(); stop_source get_stop_source() noexcept; stop_token get_stop_token() const noexcept; bool request_stop() noexcept; }; }
