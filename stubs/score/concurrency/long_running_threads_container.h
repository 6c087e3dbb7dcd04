#pragma once
#include "score/concurrency/executor.h"
#include <string>
namespace score::concurrency { class LongRunningThreadsContainer : public Executor { public: LongRunningThreadsContainer(); explicit LongRunningThreadsContainer(std::string); ~LongRunningThreadsContainer() override; void Enqueue(score::cpp::pmr::unique_ptr<Task>) override; std::size_t MaxConcurrencyLevel() const noexcept override; bool ShutdownRequested() const noexcept override; void Shutdown() noexcept override; }; }
