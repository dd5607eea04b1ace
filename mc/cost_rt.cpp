// The runtime behind cost.hpp.  Compiled without instrumentation.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>

struct Cost
{
    uint64_t steps, moved, bytes;
};
extern "C" {
Cost cost_now;
void __sanitizer_cov_trace_pc() { ++cost_now.steps; }

void* memcpy(void* d, const void* s, size_t n)
{
    cost_now.moved += n;
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n)
{
    cost_now.moved += n;
    if (uintptr_t(d) - uintptr_t(s) >= n) {
        void* r = d;
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
        return r;
    }
    char* e = static_cast<char*>(d) + n - 1;
    const char* f = static_cast<const char*>(s) + n - 1;
    asm volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(n) : : "memory", "cc");
    return d;
}
void* memset(void* d, int c, size_t n)
{
    cost_now.moved += n;
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
int memcmp(const void* a, const void* b, size_t n)
{
    const unsigned char *x = static_cast<const unsigned char*>(a), *y = static_cast<const unsigned char*>(b);
    size_t i = 0;
    while (i < n && x[i] == y[i]) ++i;
    cost_now.moved += i;
    return i < n ? int(x[i]) - int(y[i]) : 0;
}
void* memchr(const void* a, int c, size_t n)
{
    const unsigned char* x = static_cast<const unsigned char*>(a);
    for (size_t i = 0; i < n; ++i)
        if (x[i] == static_cast<unsigned char>(c)) {
            cost_now.moved += i;
            return const_cast<unsigned char*>(x + i);
        }
    cost_now.moved += n;
    return nullptr;
}
size_t strlen(const char* s)
{
    const char* e = s;
    while (*e) ++e;
    cost_now.moved += size_t(e - s);
    return size_t(e - s);
}
}
static void* get(size_t n, size_t align = 0)
{
    cost_now.bytes += n;
    ++cost_now.steps;
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    cost_now.bytes += n;
    return malloc(n ? n : 1);
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
