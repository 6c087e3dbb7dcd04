#pragma once
#include "score/callback.hpp"
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
#include "score/optional.hpp"
#include "score/result/result.h"
#include <cstdint>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
namespace score::analysis::tracing {
enum class ErrorCode : score::result::ErrorCode { kNoError = 0, kTerminalFatal = 1, kChannelCreationFailed, kNotEnoughMemory };
score::result::Error MakeError(ErrorCode, std::string_view = {}) noexcept;
bool IsErrorRecoverable(ErrorCode) noexcept;
enum class BindingType : std::uint8_t { kUndefined, kLoLa, kFastDDS, kSomeIP };
enum class TracePointType : std::uint8_t { UNDEFINED = 0, kProxyEventSub, kProxyEventUnsub, kProxyEventSubstateChange, kProxyEventSetChghdl, kProxyEventUnsetChghdl, kProxyEventChghdl, kProxyEventSetRechdl, kProxyEventUnsetRechdl, kProxyEventRechdl, kProxyEventGetSamples, kProxyEventSampleCb, kProxyFieldSub, kProxyFieldUnsub, kProxyFieldSubstateChange, kProxyFieldSetChghdl, kProxyFieldUnsetChghdl, kProxyFieldChghdl, kProxyFieldSetRechdl, kProxyFieldUnsetRechdl, kProxyFieldRechdl, kProxyFieldGetSamples, kProxyFieldSampleCb, kProxyFieldGet, kProxyFieldGetResult, kProxyFieldSet, kProxyFieldSetResult, kSkelEventSnd, kSkelEventSndA, kSkelFieldUpd, kSkelFieldUpdA, kSkelFieldGetCall, kSkelFieldGetCallResult, kSkelFieldSetCall, kSkelFieldSetCallResult };
using TraceClientId = std::uint8_t; using TraceContextId = std::uint64_t; using ShmObjectHandle = std::int32_t; using TraceResult = score::ResultBlank; using RegisterClientResult = score::Result<TraceClientId>;
using TraceDoneCallBackType = score::safecpp::MoveOnlyScopedFunction<void(TraceContextId)>;
struct ServiceInstanceElement { struct EventIdType { std::uint32_t v; }; struct FieldIdType { std::uint32_t v; }; struct MethodIdType { std::uint32_t v; };
 struct EventId { std::uint32_t v; }; struct FieldId { std::uint32_t v; }; struct MethodId { std::uint32_t v; }; using ServiceIdType = std::uint64_t; using InstanceIdType = std::uint32_t; using StdVariantType = std::variant<EventId, FieldId, MethodId>; ServiceInstanceElement(ServiceIdType, std::uint32_t, std::uint32_t, InstanceIdType, StdVariantType); ServiceIdType service_id; std::uint32_t major_version; std::uint32_t minor_version; InstanceIdType instance_id; StdVariantType element_id; };
class AraComProperties { public: using TracePointDataId = std::uint32_t; AraComProperties(TracePointType, ServiceInstanceElement, score::cpp::optional<TracePointDataId>); TracePointType trace_point_type; ServiceInstanceElement service_instance_element; score::cpp::optional<TracePointDataId> trace_point_data_id; };
class AraComMetaInfo { public: explicit AraComMetaInfo(const AraComProperties&); void SetDataLossBit() noexcept; };
struct SharedMemoryLocation { ShmObjectHandle h; std::size_t offset; }; struct SharedMemoryChunk { SharedMemoryLocation start; std::size_t size; }; struct LocalDataChunk { const void* start; std::size_t size; };
class ShmDataChunkList { public: ShmDataChunkList(); explicit ShmDataChunkList(const SharedMemoryChunk&); }; class LocalDataChunkList { public: LocalDataChunkList(); explicit LocalDataChunkList(const LocalDataChunk&); };
class GenericTraceAPI { public: static RegisterClientResult RegisterClient(BindingType, std::string_view) noexcept; static score::Result<ShmObjectHandle> RegisterShmObject(TraceClientId, int) noexcept; static score::Result<ShmObjectHandle> RegisterShmObject(TraceClientId, const std::string&) noexcept; static score::ResultBlank UnregisterShmObject(TraceClientId, ShmObjectHandle) noexcept; static score::ResultBlank RegisterTraceDoneCB(TraceClientId, TraceDoneCallBackType) noexcept; static TraceResult Trace(TraceClientId, const AraComMetaInfo&, ShmDataChunkList&, TraceContextId) noexcept; static TraceResult Trace(TraceClientId, const AraComMetaInfo&, LocalDataChunkList&) noexcept; };
}
