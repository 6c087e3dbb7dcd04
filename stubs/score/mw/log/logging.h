#pragma once
#include "score/mw/log/log_stream.h"
namespace score::mw::log {
LogStream LogFatal(std::string_view = {}) noexcept; LogStream LogError(std::string_view = {}) noexcept; LogStream LogWarn(std::string_view = {}) noexcept; LogStream LogInfo(std::string_view = {}) noexcept; LogStream LogDebug(std::string_view = {}) noexcept; LogStream LogVerbose(std::string_view = {}) noexcept;
}
