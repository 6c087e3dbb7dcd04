#pragma once
#include "score/result/result.h"
#include "score/stop_token.hpp"
#include <chrono>
namespace score::concurrency { template <class T> class InterruptibleFuture { public: InterruptibleFuture(); InterruptibleFuture(InterruptibleFuture&&) noexcept; InterruptibleFuture& operator=(InterruptibleFuture&&) noexcept; ~InterruptibleFuture(); bool Valid() const noexcept; score::ResultBlank Wait(const score::cpp::stop_token&) const; score::Result<T> Get(const score::cpp::stop_token&); template <class D> score::ResultBlank WaitFor(const score::cpp::stop_token&, D) const; template <class D> score::ResultBlank WaitUntil(const score::cpp::stop_token&, D) const; template <class C> score::ResultBlank Then(C&&); }; }
