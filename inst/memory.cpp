#include "score/memory/shared/offset_ptr.h"
#include "score/memory/shared/polymorphic_offset_ptr_allocator.h"
#include "score/memory/shared/vector.h"
#include "score/memory/shared/string.h"
#include "score/memory/shared/map.h"
#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/flock/flock_mutex_and_lock.h"
#include "score/memory/shared/flock/exclusive_flock_mutex.h"
#include "score/memory/shared/flock/shared_flock_mutex.h"
#include "score/memory/shared/shared_memory_resource.h"
namespace vfinst { struct Obj { std::uint64_t a; std::uint32_t b[5]; }; struct alignas(64) Wide { std::uint64_t a[12]; }; struct Odd { std::uint8_t a[3]; }; }
namespace score::memory::shared
{
template class OffsetPtr<::vfinst::Obj>;
template class OffsetPtr<const ::vfinst::Obj>;
template class OffsetPtr<std::uint32_t>;
template class PolymorphicOffsetPtrAllocator<::vfinst::Obj>;
template class PolymorphicOffsetPtrAllocator<::vfinst::Wide>;
template class PolymorphicOffsetPtrAllocator<::vfinst::Odd>;
template class FlockMutexAndLock<ExclusiveFlockMutex>;
template class FlockMutexAndLock<SharedFlockMutex>;
bool vf_use(Vector<std::uint32_t>& a, std::vector<std::uint32_t> b, String& s, std::string& t, PolymorphicOffsetPtrAllocator<std::uint8_t>& x, PolymorphicOffsetPtrAllocator<std::uint8_t>& y,
            OffsetPtr<::vfinst::Obj> p, OffsetPtr<::vfinst::Obj> q, ::vfinst::Obj* r)
{
    PolymorphicOffsetPtrAllocator<std::uint32_t> z{x};
    bool k = (a == b) && (b == a) && (s == t) && (t == s) && (s != t) && (t != s) && (x == y) && (x != y);
    k = k && (p == q) && (p != q) && (p == r) && (r == p) && (p == nullptr) && (nullptr == p) && (p != nullptr) && (nullptr != p) && (p < q) && (p > q) && (p <= q) && (p >= q);
    k = k && (p - q > 0) && ((p + 1) == (q - 1)) && ((1 + p) == q) && (p - r > 0) && (r - p > 0); swap(p, q);
    p += 2; p -= 1; ++p; p++; --p; p--;
    OffsetPtr<void> v(p); v = p; k = k && (v == v);
    OffsetPtr<const ::vfinst::Obj> cp(p); cp = p; cp = r; p = r; p = q; p = std::move(q);
    k = k && (p->a == (*p).a) && (p[3].a == 0) && p && p.get() && p.get<::vfinst::Obj>() && v.get<::vfinst::Obj>();
    return k;
}
::vfinst::Wide* vf_use3(ManagedMemoryResource& r) { return r.construct<::vfinst::Wide>(); }
::vfinst::Odd* vf_use4(ManagedMemoryResource& r) { return r.construct<::vfinst::Odd>(); }
template <typename R> ::vfinst::Obj* vf_construct(R& r) { return r.template construct<::vfinst::Obj>(); }
::vfinst::Obj* vf_use2(ManagedMemoryResource& r) { r.destruct(*r.construct<::vfinst::Obj>()); return vf_construct(r); }
}
