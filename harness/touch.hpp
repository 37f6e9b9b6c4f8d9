// What the library reads and writes: the library is compiled with -fsanitize=thread (see check.py), whose callbacks
// are defined here, and its calls of the C library's memory and string functions come to the im_ functions below.
#pragma once
#define IM_TOUCH
#include "engine.hpp"
#ifndef IM_BEGIN
#define IM_BEGIN()
#define IM_END()
#endif
namespace im {
struct Region {
    uintptr_t lo, hi;
    bool writable;
    std::vector<uint8_t> known;  // per byte: holds something
};
static std::vector<Region>& regions() {
    static std::vector<Region> r;
    return r;
}
static bool g_in = false;      // inside a call
static bool g_judge = false;   // and it is judged
static uintptr_t g_frame = 0;  // the stack below belongs to the call
static uint64_t g_accesses = 0;
static struct { const char* what; uintptr_t at; size_t n; long in; } g_bad = {nullptr, 0, 0, 0};

static void give(const void* p, size_t n);
static void take(void* p, size_t n);
static void known(const void* p, size_t n);
static void unknown(const void* p, size_t n);
static uint64_t g_effort = 0;
static void effort(uint64_t n) { g_effort = n; }

static void add(const void* p, size_t n, bool writable, bool known) {
    uintptr_t lo = (uintptr_t)p;
    for (auto& r : regions()) {
        if (r.lo == lo && r.hi == lo + n) {
            r.writable = writable;
            r.known.assign(n, known);
            return;
        }
    }
    if (n) { regions().push_back({lo, lo + n, writable, std::vector<uint8_t>(n, known)}); }
}
static void give(const void* p, size_t n) { add(p, n, false, true); }
static void take(void* p, size_t n) { add(p, n, true, false); }
static void mark(const void* p, size_t n, bool k) {
    uintptr_t a = (uintptr_t)p;
    for (auto& r : regions()) {
        if (a < r.hi && a + n > r.lo) {
            uintptr_t x = std::max(a, r.lo), y = std::min(a + n, r.hi);
            memset(&r.known[x - r.lo], k, y - x);
        }
    }
}
static void known(const void* p, size_t n) { mark(p, n, true); }
static void unknown(const void* p, size_t n) { mark(p, n, false); }

static void bad(const char* what, uintptr_t at, size_t n, long in) {
    if (!g_judge || g_bad.what) { return; }
    g_bad.what = what;
    g_bad.at = at;
    g_bad.n = n;
    g_bad.in = in;
}
static void readAt(uintptr_t a, size_t n, uintptr_t here);
static void writeAt(uintptr_t a, size_t n, uintptr_t here);
template <class F> __attribute__((noinline)) static void inside(F f, bool judge) {
    g_frame = (uintptr_t)__builtin_frame_address(0);
    g_bad.what = nullptr;
    IM_BEGIN();
    g_judge = judge;
    g_in = true;
    f();
    IM_END();
    g_in = false;
}
template <class F> static void quiet(F f) { inside(f, false); }
static void start() { regions().clear(); }
}  // namespace im
#define IM_HERE ((uintptr_t)__builtin_frame_address(0))
#define IM_READ(p, n) do { if (im::g_in) { im::readAt((uintptr_t)(p), (n), IM_HERE); } } while (0)
#define IM_WRITE(p, n) do { if (im::g_in) { im::writeAt((uintptr_t)(p), (n), IM_HERE); } } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define IM_SIZE(n) \
    void __tsan_read##n(void* p) { IM_READ(p, n); } \
    void __tsan_write##n(void* p) { IM_WRITE(p, n); } \
    void __tsan_unaligned_read##n(void* p) { IM_READ(p, n); } \
    void __tsan_unaligned_write##n(void* p) { IM_WRITE(p, n); } \
    void __tsan_read_write##n(void* p) { IM_READ(p, n); IM_WRITE(p, n); } \
    void __tsan_unaligned_read_write##n(void* p) { IM_READ(p, n); IM_WRITE(p, n); } \
    void __tsan_volatile_read##n(void* p) { IM_READ(p, n); } \
    void __tsan_volatile_write##n(void* p) { IM_WRITE(p, n); } \
    void __tsan_unaligned_volatile_read##n(void* p) { IM_READ(p, n); } \
    void __tsan_unaligned_volatile_write##n(void* p) { IM_WRITE(p, n); }
IM_SIZE(1)
IM_SIZE(2)
IM_SIZE(4)
IM_SIZE(8)
IM_SIZE(16)
void __tsan_read_range(void* p, size_t n) { IM_READ(p, n); }
void __tsan_write_range(void* p, size_t n) { IM_WRITE(p, n); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { IM_READ(s, n); IM_WRITE(d, n); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { IM_READ(s, n); IM_WRITE(d, n); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { IM_WRITE(d, n); return memset(d, v, n); }
}
#include "cfuncs.hpp"
