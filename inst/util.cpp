#include "score/message_passing/non_allocating_future/non_allocating_future.h"
#include "score/mw/com/impl/util/copyable_atomic.h"
#include "score/mw/com/impl/util/arithmetic_utils.h"
#include "score/mw/com/impl/service_element_map_view_factory.h"
#include "score/mw/com/impl/flag_owner.h"
#include "score/mw/com/impl/field_tags.h"
#include "score/mw/com/impl/field_tags_store.h"
#include "score/mw/com/impl/methods/method_signature_element_ptr.h"
#include "score/mw/com/impl/bindings/lola/control_slot_types.h"
#include "score/mw/com/impl/bindings/lola/event_data_control.h"
#include "score/mw/com/impl/bindings/lola/event_data_control_composite.h"
#include "score/mw/com/impl/bindings/lola/messaging/node_identifier_copier.h"
#include "score/mw/com/impl/bindings/lola/event_data_storage.h"
#include "score/mw/com/impl/bindings/lola/event_subscription_control.h"
#include "score/mw/com/impl/tracing/configuration/hash_helper_utility.h"
#include <condition_variable>
#include <mutex>
namespace vfinst { struct V { int a; int b; }; struct El { int a; }; }
namespace score::message_passing::detail
{
template class NonAllocatingFuture<std::mutex, std::condition_variable, ::vfinst::V>;
template class NonAllocatingFuture<std::mutex, std::condition_variable, void>;
template class NonAllocatingFuture<std::mutex, std::condition_variable, std::monostate>;
}
namespace score::mw::com::impl
{
template class CopyableAtomic<std::uint32_t>;
template class CopyableAtomic<bool>;
template class ServiceElementMapView<::vfinst::El>;
template class ServiceElementMapViewFactory<::vfinst::El>;
template class MethodSignatureElementPtr<::vfinst::El>;
template class lola::EventDataControlComposite<>;
template class lola::EventSubscriptionControl<>;

struct VfX { int a; };
MethodSignatureElementPtr<VfX> vf_conv(VfX& x, MethodSignatureElementPtr<::vfinst::El>&& p) { return MethodSignatureElementPtr<VfX>(x, std::move(p)); }
FieldTagsStore vf_tags() { if (FieldTagsStore::Create<WithNotifier>() == FieldTagsStore::Create<WithSetter>()) return FieldTagsStore::Create<WithGetter>(); return FieldTagsStore::Create<>(); }
constexpr std::uint32_t vf_ar = add_without_overflow<std::uint32_t, 3, 4>() + multiply_without_overflow<std::uint32_t, 3, 4>();

void vf_view(ServiceElementMapView<::vfinst::El>& v, const ServiceElementMapView<::vfinst::El>& c)
{
    for (auto& e : v) { (void)e; }
    for (auto& e : c) { (void)e; }
}
}
#include "score/mw/com/impl/util/type_erased_storage.h"
namespace vfinst { struct P3 { char a[3]; }; struct P12 { std::uint32_t a; std::uint16_t b; std::uint32_t c; }; struct alignas(16) P32 { std::uint64_t a[3]; }; }
namespace score::mw::com::impl
{
template <typename... Ts>
struct VfPack
{
    static memory::DataTypeSizeInfo Info() { return CreateDataTypeSizeInfoFromTypes<Ts...>(); }
    static memory::DataTypeSizeInfo InfoFromValues(Ts... v) { return CreateDataTypeSizeInfoFromValues(v...); }
    static void Write(score::cpp::span<std::byte> b, Ts&... v) { SerializeArgs(b, v...); }
    static auto Read(score::cpp::span<std::byte> b) { return DeserializeArgs<Ts...>(b); }
};
template struct VfPack<std::uint8_t>;
template struct VfPack<std::uint8_t, std::uint64_t>;
template struct VfPack<std::uint64_t, std::uint8_t, std::uint32_t>;
template struct VfPack<::vfinst::P3, std::uint16_t, ::vfinst::P32, std::uint8_t>;
template struct VfPack<::vfinst::P32, ::vfinst::P3, ::vfinst::P12>;
template struct VfPack<std::uint16_t, ::vfinst::P3, std::uint16_t, ::vfinst::P12, std::uint64_t>;
std::uint64_t* vf_read_one(score::cpp::span<std::byte> b) { return DeserializeArg<std::uint64_t>(b); }
}
