#pragma once
#include "score/concurrency/future/interruptible_future.h"
namespace score::concurrency { template <class T> class InterruptiblePromise { public: InterruptiblePromise(); InterruptiblePromise(InterruptiblePromise&&) noexcept; InterruptiblePromise& operator=(InterruptiblePromise&&) noexcept; ~InterruptiblePromise(); score::ResultBlank SetValue(const T&); score::ResultBlank SetValue(T&&); score::ResultBlank SetError(const score::result::Error&); template <class E> score::ResultBlank SetError(E); score::Result<InterruptibleFuture<T>> GetInterruptibleFuture(); template <class C> void OnAbort(C&&); }; }
