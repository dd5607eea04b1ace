// Counting and failing global allocation (include in exactly one translation unit of a harness; not with sanitizers).
#pragma once
#include <cstdlib>
#include <cstdint>
#include <new>

namespace al
{
inline thread_local long live = 0;       // blocks allocated and not yet freed
inline thread_local long count = 0;      // allocations so far
inline thread_local long fail_at = -1;   // the allocation with this number fails (-1: none)
inline thread_local bool failed = false; // whether it did

inline void* get(std::size_t n, std::size_t align = 0)
{
    if (count++ == fail_at) {
        failed = true;
        return nullptr;
    }
    void* p = align > 16 ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (p) ++live;
    return p;
}
inline void put(void* p)
{
    if (!p) return;
    --live;
    std::free(p);
}
} // namespace al

void* operator new(std::size_t n)
{
    if (void* p = al::get(n)) return p;
    throw std::bad_alloc();
}
void* operator new[](std::size_t n) { return ::operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return al::get(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return al::get(n); }
void* operator new(std::size_t n, std::align_val_t a)
{
    if (void* p = al::get(n, std::size_t(a))) return p;
    throw std::bad_alloc();
}
void* operator new[](std::size_t n, std::align_val_t a) { return ::operator new(n, a); }
void operator delete(void* p) noexcept { al::put(p); }
void operator delete[](void* p) noexcept { al::put(p); }
void operator delete(void* p, std::size_t) noexcept { al::put(p); }
void operator delete[](void* p, std::size_t) noexcept { al::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { al::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { al::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { al::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { al::put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { al::put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { al::put(p); }
