#pragma once
#include <cstddef>
#include <new>
namespace score::cpp::pmr {
class memory_resource {
 public:
  virtual ~memory_resource() = default;
  void* allocate(std::size_t bytes, std::size_t alignment = alignof(std::max_align_t)) { return do_allocate(bytes, alignment); }
  void deallocate(void* p, std::size_t bytes, std::size_t alignment = alignof(std::max_align_t)) { do_deallocate(p, bytes, alignment); }
  bool is_equal(const memory_resource& o) const noexcept { return do_is_equal(o); }
 private:
  virtual void* do_allocate(std::size_t bytes, std::size_t alignment) = 0;
  virtual void do_deallocate(void* p, std::size_t bytes, std::size_t alignment) = 0;
  virtual bool do_is_equal(const memory_resource& o) const noexcept = 0;
};
memory_resource* get_default_resource() noexcept;
memory_resource* set_default_resource(memory_resource*) noexcept;
memory_resource* new_delete_resource() noexcept;
memory_resource* null_memory_resource() noexcept;
template <class T = std::byte> class polymorphic_allocator {
 public:
  using value_type = T;
  polymorphic_allocator() noexcept;
  polymorphic_allocator(memory_resource* r) noexcept;
  template <class U> polymorphic_allocator(const polymorphic_allocator<U>&) noexcept;
  T* allocate(std::size_t n);
  void deallocate(T*, std::size_t) noexcept;
  memory_resource* resource() const noexcept;
  template <class U, class... A> void construct(U*, A&&...);
};
template <class A, class B> bool operator==(const polymorphic_allocator<A>&, const polymorphic_allocator<B>&) noexcept;
template <class A, class B> bool operator!=(const polymorphic_allocator<A>&, const polymorphic_allocator<B>&) noexcept;
}
