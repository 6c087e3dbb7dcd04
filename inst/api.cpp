// instantiates the public typed API (proxy / skeleton wrapper classes, events, fields, methods)
#include "score/mw/com/types.h"
namespace vfinst
{
struct Data { std::uint32_t a; std::uint64_t b; };
template <typename Trait>
class Iface : public Trait::Base
{
  public:
    using Trait::Base::Base;
    typename Trait::template Event<Data> ev{*this, "ev"};
    typename Trait::template Field<std::uint32_t, ::score::mw::com::impl::WithGetter, ::score::mw::com::impl::WithNotifier, ::score::mw::com::impl::WithSetter> fi{*this, "fi"};
    typename Trait::template Field<std::uint32_t, ::score::mw::com::impl::WithNotifier> fn{*this, "fn"};
    typename Trait::template Method<std::int32_t(std::int32_t, std::int64_t)> m_ir{*this, "m_ir"};
    typename Trait::template Method<void(std::int32_t)> m_i{*this, "m_i"};
    typename Trait::template Method<std::int32_t()> m_r{*this, "m_r"};
    typename Trait::template Method<void()> m_{*this, "m_"};
};
}
namespace score::mw::com::impl
{
using VP = ProxyWrapperClass<::vfinst::Iface>;
using VS = SkeletonWrapperClass<::vfinst::Iface>;
void vf_use_proxy(HandleType h, VP& p, VP& q, std::int32_t x, std::int64_t y)
{
    auto a = VP::Create(h);
    auto b = ProxyWithSemiDynamicMethodFactory<VP>::Create(h, 0);
    VP c(std::move(p)); q = std::move(c);
    (void)q.ev.Subscribe(3); q.ev.Unsubscribe(); (void)q.ev.GetSubscriptionState(); (void)q.ev.GetFreeSampleCount();
    (void)q.ev.SetReceiveHandler([]() noexcept {}); (void)q.ev.UnsetReceiveHandler(); (void)q.ev.GetNumNewSamplesAvailable();
    (void)q.ev.GetNewSamples([](SamplePtr<::vfinst::Data>) noexcept {}, 2);
    (void)q.fi.Subscribe(3); q.fi.Unsubscribe(); (void)q.fi.GetNewSamples([](SamplePtr<std::uint32_t>) noexcept {}, 2);
    (void)q.fn.Subscribe(3); q.fn.Unsubscribe(); (void)q.fn.GetNewSamples([](SamplePtr<std::uint32_t>) noexcept {}, 2);
    (void)q.fi.Get(); std::uint32_t u = 3; (void)q.fi.Set(u);
    (void)q.m_ir(x, y); auto al = q.m_ir.Allocate(); (void)q.m_ir(std::move(std::get<0>(al.value())), std::move(std::get<1>(al.value())));
    (void)q.m_i(x); (void)q.m_r(); (void)q.m_();
}
void vf_use_skeleton(const InstanceSpecifier& s, const InstanceIdentifier& i, VS& p, VS& q, ::vfinst::Data d)
{
    auto a = VS::Create(s); auto b = VS::Create(i);
    VS c(std::move(p)); q = std::move(c);
    (void)q.OfferService(); q.StopOfferService();
    (void)q.ev.Send(d); auto al = q.ev.Allocate(); (void)q.ev.Send(std::move(al.value()));
    (void)q.fi.Update(3); (void)q.fn.Update(4); auto fa = q.fn.Allocate(); (void)q.fn.Update(std::move(fa.value()));
    (void)q.fi.RegisterSetHandler([](std::uint32_t&) noexcept {});
    (void)q.m_ir.RegisterHandler([](std::int32_t& r, const std::int32_t&, const std::int64_t&) noexcept { r = 3; });
    (void)q.m_i.RegisterHandler([](const std::int32_t&) noexcept {});
    (void)q.m_r.RegisterHandler([](std::int32_t& r) noexcept { r = 3; });
    (void)q.m_.RegisterHandler([]() noexcept {});
    auto lv = [](std::int32_t& r, const std::int32_t&, const std::int64_t&) noexcept { r = 3; };
    (void)q.m_ir.RegisterHandler(lv);
    (void)q.m_ir.RegisterHandlerWithQuality([](QualityType, std::int32_t& r, const std::int32_t&, const std::int64_t&) noexcept { r = 3; });
    (void)q.m_.RegisterHandlerWithQuality([](QualityType) noexcept {});
    auto lq = [](QualityType, const std::int32_t&) noexcept {};
    (void)q.m_i.RegisterHandlerWithQuality(lq);
}
template <typename T> void vf_use_moves(T& a, T& b) { T c(std::move(a)); b = std::move(c); }
template void vf_use_moves(SamplePtr<::vfinst::Data>&, SamplePtr<::vfinst::Data>&);
template void vf_use_moves(SampleAllocateePtr<::vfinst::Data>&, SampleAllocateePtr<::vfinst::Data>&);
template void vf_use_moves(lola::SamplePtr<::vfinst::Data>&, lola::SamplePtr<::vfinst::Data>&);
template void vf_use_moves(MethodSignatureElementPtr<std::int32_t>&, MethodSignatureElementPtr<std::int32_t>&);
template class ProxyEvent<::vfinst::Data>;
template class SkeletonEvent<::vfinst::Data>;
template class SamplePtr<::vfinst::Data>;
template class SampleAllocateePtr<::vfinst::Data>;
template class lola::SampleAllocateePtr<::vfinst::Data>;
template class lola::SamplePtr<::vfinst::Data>;
template class MethodSignatureElementPtr<std::int32_t>;
}
