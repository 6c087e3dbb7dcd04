#pragma once
#include "score/stop_token.hpp"
#include "score/memory.hpp"
#include "score/result/result.h"
#include <cstddef>
#include <memory>
#include <utility>
namespace score::concurrency {
template <class T> class TaskResult { public: TaskResult(); ~TaskResult(); TaskResult(TaskResult&&) noexcept; TaskResult& operator=(TaskResult&&) noexcept; void Abort() noexcept; bool Valid() const noexcept; score::ResultBlank Wait(score::cpp::stop_token = {}) const noexcept; score::Result<T> Get(score::cpp::stop_token = {}); };
class Task { public: virtual ~Task() = default; virtual void operator()(const score::cpp::stop_token&) = 0; };
class Executor { public: virtual ~Executor() = default;
 template <class F, class... A> auto Submit(F&& f, A&&... a) -> TaskResult<decltype(f(std::declval<score::cpp::stop_token>(), std::forward<A>(a)...))> { return {}; }
 template <class F, class... A> void Post(F&&, A&&...) {}
 void Post(score::cpp::pmr::unique_ptr<Task>); virtual void Enqueue(score::cpp::pmr::unique_ptr<Task>) = 0; virtual std::size_t MaxConcurrencyLevel() const noexcept = 0; virtual bool ShutdownRequested() const noexcept = 0; virtual void Shutdown() noexcept = 0; };
}
