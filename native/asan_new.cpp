// The address sanitizer's operator new ends the process when a block cannot be had. Here it throws, as the real one
// does, so that the extension's own handling of it runs under the sanitizer.
#include <cstdlib>
#include <new>

static void *get(std::size_t n) {
    void *p = std::malloc(n ? n : 1);
    if (p == nullptr) throw std::bad_alloc();
    return p;
}

static void *get(std::size_t n, std::align_val_t a) {
    void *p = nullptr;
    if (posix_memalign(&p, static_cast<std::size_t>(a), n ? n : 1)) throw std::bad_alloc();
    return p;
}

#define OUT __attribute__((visibility("default")))
OUT void *operator new(std::size_t n) { return get(n); }
OUT void *operator new[](std::size_t n) { return get(n); }
OUT void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return std::malloc(n ? n : 1); }
OUT void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return std::malloc(n ? n : 1); }
OUT void *operator new(std::size_t n, std::align_val_t a) { return get(n, a); }
OUT void *operator new[](std::size_t n, std::align_val_t a) { return get(n, a); }
OUT void operator delete(void *p) noexcept { std::free(p); }
OUT void operator delete[](void *p) noexcept { std::free(p); }
OUT void operator delete(void *p, std::size_t) noexcept { std::free(p); }
OUT void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
OUT void operator delete(void *p, std::align_val_t) noexcept { std::free(p); }
OUT void operator delete[](void *p, std::align_val_t) noexcept { std::free(p); }
OUT void operator delete(void *p, std::size_t, std::align_val_t) noexcept { std::free(p); }
OUT void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { std::free(p); }
OUT void operator delete(void *p, const std::nothrow_t &) noexcept { std::free(p); }
OUT void operator delete[](void *p, const std::nothrow_t &) noexcept { std::free(p); }
