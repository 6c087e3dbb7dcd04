#pragma once
namespace score::concurrency { template <class T, class C = void> class SynchronizedQueue {}; }
