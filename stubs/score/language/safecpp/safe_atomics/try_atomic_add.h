#pragma once
#include "score/result/result.h"
#include "score/concurrency/atomic_indirector.h"
#include <atomic>
namespace score::safe_atomics { template <class T, template <class> class I = score::concurrency::AtomicIndirectorReal> score::Result<T> TryAtomicAdd(std::atomic<T>&, T, std::size_t = 0) noexcept; }
