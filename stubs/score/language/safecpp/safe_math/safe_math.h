#pragma once
#include "score/result/result.h"
#include <type_traits>
namespace score::safe_math {
enum class ReturnMode { kError, kAbortOnError };
template <ReturnMode M, class A, class B> A Add(const A, const B) noexcept;
template <ReturnMode M, class A, class B> A Subtract(const A, const B) noexcept;
template <ReturnMode M, class A, class B> A Multiply(const A, const B) noexcept;
template <class R> struct VfCast { R v; constexpr R value() const { return v; } constexpr bool has_value() const { return true; } score::result::Error error() const; operator score::Result<R>() const; };
template <class A, class B> score::Result<A> Add(const A, const B) noexcept;
template <class A, class B> score::Result<A> Subtract(const A, const B) noexcept;
template <class R, class A, class B> score::Result<R> Subtract(const A, const B) noexcept;
template <class A, class B> score::Result<A> Multiply(const A, const B) noexcept;
template <class A, class B> score::Result<A> Divide(const A, const B) noexcept;
template <class A> std::make_unsigned_t<A> Abs(const A) noexcept;
template <class R, class A> constexpr VfCast<R> Cast(const A a) noexcept { return {static_cast<R>(a)}; }
template <class A> score::Result<std::make_signed_t<A>> Negate(const A) noexcept;
template <class A, class B> bool CmpEqual(A, B) noexcept; template <class A, class B> bool CmpLess(A, B) noexcept; template <class A, class B> bool CmpGreater(A, B) noexcept; template <class A, class B> bool CmpLessEqual(A, B) noexcept; template <class A, class B> bool CmpGreaterEqual(A, B) noexcept;
}
