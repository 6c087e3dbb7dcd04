#pragma once
#include "score/stop_token.hpp"
#include <chrono>
namespace score::concurrency { class InterprocessNotification { public: void notify() noexcept; void reset() noexcept; void wait(); bool waitWithAbort(const score::cpp::stop_token&); bool waitForWithAbort(std::chrono::milliseconds, const score::cpp::stop_token&); }; using Notification = InterprocessNotification; }
