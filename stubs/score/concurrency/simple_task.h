#pragma once
#include "score/concurrency/executor.h"
namespace score::concurrency { class SimpleTaskFactory { public: template <class F, class... A> static score::cpp::pmr::unique_ptr<Task> Make(score::cpp::pmr::memory_resource*, F&&, A&&...) { return nullptr; } }; }
