#pragma once
#include <atomic>
namespace score::concurrency {
template <class T> class AtomicIndirectorReal { public:
 static T fetch_add(std::atomic<T>&, const T, const std::memory_order) noexcept; static T fetch_sub(std::atomic<T>&, const T, const std::memory_order) noexcept;
 static bool compare_exchange_weak(std::atomic<T>&, T&, const T, const std::memory_order) noexcept; static bool compare_exchange_strong(std::atomic<T>&, T&, const T, const std::memory_order) noexcept; static bool compare_exchange_strong(std::atomic<T>&, T&, const T, const std::memory_order, const std::memory_order) noexcept;static bool compare_exchange_weak(std::atomic<T>&, T&, const T, const std::memory_order, const std::memory_order) noexcept;
 static T load(const std::atomic<T>&, const std::memory_order) noexcept; static void store(std::atomic<T>&, const T, const std::memory_order) noexcept; static T exchange(std::atomic<T>&, const T, const std::memory_order) noexcept; };
template <class T> class AtomicIndirectorMock : public AtomicIndirectorReal<T> {};
}
