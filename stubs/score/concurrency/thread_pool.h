#pragma once
#include "score/concurrency/executor.h"
#include <string>
namespace score::concurrency { class ThreadPool : public Executor { public: explicit ThreadPool(std::size_t, score::cpp::pmr::memory_resource* = nullptr); ThreadPool(std::size_t, std::string, score::cpp::pmr::memory_resource* = nullptr); ~ThreadPool() override; void Enqueue(score::cpp::pmr::unique_ptr<Task>) override; std::size_t MaxConcurrencyLevel() const noexcept override; bool ShutdownRequested() const noexcept override; void Shutdown() noexcept override; }; }
