#include "score/mw/service/provided_service.h"
#include "score/mw/service/proxy_needs.h"
#include "score/mw/service/provided_service_container.h"
#include "score/mw/service/backend/mw_com/provided_service_decorator.h"
#include "score/mw/service/backend/mw_com/single_instantiation_strategy.h"
#include "score/mw/service/backend/mw_com/provided_service_builder.h"
namespace vfinst { struct S { S() = default; explicit S(int v) : x(v) {} S(S&&) = default; int x{0}; }; struct S2 { int y{0}; }; }
namespace score::mw::service
{
using PS = ProvidedServices<backend::mw_com::ProvidedServiceDecorator>;
void vf_use(ProvidedServiceContainer& c, backend::mw_com::ProvidedServiceBuilder& b, PS& p, PS& q)
{
    b.With<::vfinst::S>(::vfinst::S{3}).With<::vfinst::S2>(::vfinst::S2{});
    auto k = b.GetServices();
    p.Add<::vfinst::S>(3).Add<::vfinst::S2>();
    PS{}.Add<::vfinst::S>(3);
    p.Swap(q); (void)p.Count();
    ProvidedServiceContainer d{std::move(p)};
    (void)d.NumServices(); d.StartServices(); d.StopServices();
}
template class backend::mw_com::ProvidedServiceDecorator<::vfinst::S>;
template class Optional<::vfinst::S>;
}
