// every allocation of the process: how many blocks are live, and which allocation of a guarded call fails
#ifndef ALLOCS_HPP
#define ALLOCS_HPP
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdint>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VT_HAVE_ALLOCS 0
#else
#define VT_HAVE_ALLOCS 1
#endif

namespace allocs {
inline std::atomic<long> live{0};
struct Plan { bool armed; unsigned long seen, fail_from, fail_to, failed; };
inline __thread Plan plan{false, 0, 0, 0, 0};
inline bool refuse() {
    if(!plan.armed) return false;
    auto k = plan.seen++;
    if(k < plan.fail_from || k >= plan.fail_to) return false;
    plan.failed++;
    errno = ENOMEM;
    return true;
}
// allocations number [from, to) inside the scope fail
struct Scope {
    Scope(unsigned long from, unsigned long to) { plan = Plan{true, 0, from, to, 0}; }
    ~Scope() { plan.armed = false; }
    void stop() { plan.armed = false; }
    unsigned long seen() const { return plan.seen; }
    unsigned long failed() const { return plan.failed; }
};
struct Pause { bool was = plan.armed; Pause() { plan.armed = false; } ~Pause() { plan.armed = was; } };
}
#if VT_HAVE_ALLOCS
extern "C" {
void* __libc_malloc(std::size_t); void __libc_free(void*); void* __libc_calloc(std::size_t, std::size_t); void* __libc_realloc(void*, std::size_t);
void* malloc(std::size_t n) { if(allocs::refuse()) return nullptr; void* p = __libc_malloc(n); if(p) allocs::live++; return p; }
void* calloc(std::size_t a, std::size_t b) { if(allocs::refuse()) return nullptr; void* p = __libc_calloc(a, b); if(p) allocs::live++; return p; }
void* realloc(void* o, std::size_t n) { if(allocs::refuse()) return nullptr; void* p = __libc_realloc(o, n); if(p && !o) allocs::live++; if(!p && o && n == 0) allocs::live--; return p; }
void free(void* p) { if(p) allocs::live--; __libc_free(p); }
}
#endif
#endif
