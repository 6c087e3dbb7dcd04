#pragma once
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include <csignal>
namespace score::os { class Signal { public: virtual ~Signal() = default; virtual score::cpp::expected<std::int32_t, Error> AddTerminationSignal(sigset_t&) const noexcept = 0; virtual score::cpp::expected<std::int32_t, Error> SigEmptySet(sigset_t&) const noexcept = 0; virtual score::cpp::expected<std::int32_t, Error> SigAddSet(sigset_t&, std::int32_t) const noexcept = 0; virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t, const sigset_t&) const noexcept = 0; virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t, const sigset_t&, sigset_t&) const noexcept = 0; virtual score::cpp::expected<std::int32_t, Error> Kill(pid_t, std::int32_t) const noexcept = 0; virtual score::cpp::expected<std::int32_t, Error> SigFillSet(sigset_t&) const noexcept = 0; };
class SignalImpl : public Signal { public: SignalImpl() noexcept; score::cpp::expected<std::int32_t, Error> AddTerminationSignal(sigset_t&) const noexcept override; 
score::cpp::expected<std::int32_t, Error> SigEmptySet(sigset_t&) const noexcept override; score::cpp::expected<std::int32_t, Error> SigAddSet(sigset_t&, std::int32_t) const noexcept override; score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t, const sigset_t&) const noexcept override; score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t, const sigset_t&, sigset_t&) const noexcept override; score::cpp::expected<std::int32_t, Error> Kill(pid_t, std::int32_t) const noexcept override; score::cpp::expected<std::int32_t, Error> SigFillSet(sigset_t&) const noexcept override; }; }
