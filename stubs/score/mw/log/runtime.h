#pragma once
#include "score/mw/log/log_types.h"
namespace score::mw::log { class Recorder; namespace detail { class Runtime { public: static void SetRecorder(Recorder*) noexcept; static Recorder& GetRecorder() noexcept; static Recorder& GetFallbackRecorder() noexcept; }; } inline Recorder& GetDefaultLogRecorder() noexcept; inline Recorder& GetFallbackLogRecorder() noexcept; void SetLogRecorder(Recorder*) noexcept; }
