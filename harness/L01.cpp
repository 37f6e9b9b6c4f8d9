#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include "crcvars.hpp"
#include "engine.hpp"
#ifdef IM_ASAN
#include <sanitizer/allocator_interface.h>
#endif
using namespace im;
namespace im {
const Prop PROP = {"L01",
    "calls of every function of the library (one of 26 kinds, and histories of up to 50 operations on a container or task table) with arguments of up to 300 and often of thousands of bytes, elements or operations (enumerated: up to 300000), valid or not; during the call any "
    "allocation is noticed (interposed allocator), any system call is trapped (system call user dispatch), and the stack below the caller is painted and inspected afterwards, limit 2048 bytes. "
    "Stack and system calls are watched in the plain builds, allocation in all. Non-trivial: at least 300 bytes, elements or operations",
    150000, 3000000, 15000, 500000, 1024};

static volatile bool g_in = false;
static volatile unsigned g_allocs = 0;
static const size_t LIMIT = 2048;
// ---- allocation --------------------------------------------------------------
#ifdef IM_ASAN
static void mallocHook(const volatile void*, size_t) { if (g_in) { g_allocs = g_allocs + 1; } }
static void freeHook(const volatile void*) { if (g_in) { g_allocs = g_allocs + 1; } }
#endif
// ---- system calls ------------------------------------------------------------
static volatile char g_selector = 0;  // 1: a system call raises SIGSYS
static volatile int g_syscall = -1;
static bool g_watch = false;
#ifndef IM_ASAN
static void onSys(int, siginfo_t* i, void*) {
    g_selector = 0;
    g_syscall = i->si_syscall;
}
#endif
static void start() {
    static bool done = false;
    if (done) { return; }
    done = true;
#ifdef IM_ASAN
    __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
#else
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSys;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSYS, &sa, nullptr);
    g_watch = prctl(59 /* PR_SET_SYSCALL_USER_DISPATCH */, 1, 0, 0, &g_selector) == 0;
    tickHook = [] { g_selector = 0; };
#endif
}
// ---- stack -------------------------------------------------------------------
#ifndef IM_ASAN
static const size_t AREA = 48 * 1024;
static __attribute__((noinline)) void paint() {
    volatile uint64_t a[AREA / 8];
    for (size_t i = 0; i < AREA / 8; ++i) { a[i] = 0x5AC3A53C69969669ull; }
}
static __attribute__((noinline)) size_t used() {
    volatile uint64_t a[AREA / 8];
    size_t i = 0;
    while (i < AREA / 8 && a[i] == 0x5AC3A53C69969669ull) { ++i; }
    return AREA - 8 * i;
}
#endif
template <class F> __attribute__((noinline)) void call(Ctx& c, const char* name, F f) {
    g_allocs = 0;
    g_syscall = -1;
#ifndef IM_ASAN
    paint();
#endif
    g_selector = g_watch ? 1 : 0;
    g_in = true;
    f();
    g_in = false;
    g_selector = 0;
#ifndef IM_ASAN
    size_t n = used();
    static size_t most = 0;
    if (n > most) { most = n; if (getenv("IM_STACK")) { fprintf(stderr, "%s %zu\n", name, n); } }
    if (n > LIMIT) { c.fail("%s used %zu%s bytes of stack", name, n, n > AREA - 16 ? " or more" : ""); }
    if (g_syscall >= 0) { c.fail("%s made system call %d", name, g_syscall); }
#endif
    if (g_allocs) { c.fail("%s allocated or freed memory %u times", name, g_allocs); }
}
}  // namespace im
#include "calls.hpp"
namespace im {
void runCase(Ctx& c) {
    unsigned kind = (unsigned)c.below(KINDS);
    size_t n = c.chance(1, 8) ? 300 + c.size(9700) : c.size(300);
    one(c, kind, n);
}
uint64_t enumCount(bool thorough) { return KINDS * (thorough ? 12 : 3); }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.label("enum:sizes round and beyond 65536");
    for (unsigned r = 0; r < 4; ++r) {
        arenaReset();
        one(c, (unsigned)(i % KINDS), r == 3 ? 3000 + c.below(3000) : bigSize(c, i / KINDS + r * 3));
        c.distinctKey(i << 8 | r);
    }
    c.evals(4);
}
}  // namespace im
#ifndef IM_ASAN
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static void seen() { if (im::g_in) { im::g_allocs = im::g_allocs + 1; } }
void* malloc(size_t n) { seen(); return __libc_malloc(n); }
void* calloc(size_t n, size_t m) { seen(); return __libc_calloc(n, m); }
void* realloc(void* p, size_t n) { seen(); return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { seen(); return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { seen(); return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { seen(); *p = __libc_memalign(a, n); return *p ? 0 : 12; }
void free(void* p) { if (p) { seen(); } __libc_free(p); }
}
#endif
