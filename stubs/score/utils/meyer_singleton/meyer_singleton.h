#pragma once
#include <utility>
namespace score::singleton { template <class T> class MeyerSingleton { public: template <class F> static T& GetInstanceInitializedWithCallable(F&& f) { static T t(f()); return t; } template <class... A> static T& GetInstance(A&&... a) { static T t(std::forward<A>(a)...); return t; } }; }
