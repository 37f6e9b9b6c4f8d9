#include "crcvars.hpp"
namespace im {
static void localsBegin();
static void localsEnd();
static void localRead(uintptr_t a, size_t n);
static void localWritten(uintptr_t a, size_t n);
static void localCopied(uintptr_t d, uintptr_t s, size_t n);
}  // namespace im
#define IM_BEGIN() localsBegin()
#define IM_END() localsEnd()
#define IM_COPY(d, s, n) do { im::copyAt((uintptr_t)(d), (uintptr_t)(s), (n)); } while (0)
namespace im {
static void copyAt(uintptr_t d, uintptr_t s, size_t n);
}
#include "touch.hpp"
using namespace im;
namespace im {
const Prop PROP = {"V01",
    "calls of every function of the library (one of 26 kinds, and histories of up to 50 operations on a container or task table) with arguments of up to 300 and often of thousands of bytes, elements or operations "
    "(enumerated: every size 0..64, and some of up to 300000), valid or not; per byte of memory handed over it is known whether it is input or has been written since, and no load of the library nor C library "
    "call it makes may read another. Non-trivial: at least 300 bytes, elements or operations",
    150000, 3000000, 15000, 500000, 1024};

static bool g_copying = false;  // what a copy reads need not be meant: the gaps of a structure
static void readAt(uintptr_t a, size_t n, uintptr_t) {
    ++g_accesses;
    if (!g_copying) { localRead(a, n); }
    for (auto& r : regions()) {
        if (a < r.hi && a + n > r.lo) {
            uintptr_t x = std::max(a, r.lo), y = std::min(a + n, r.hi);
            if (memchr(&r.known[x - r.lo], 0, y - x)) { bad("read", x - r.lo, y - x, (long)(r.hi - r.lo)); }
            return;
        }
    }
}
static void writeAt(uintptr_t a, size_t n, uintptr_t) {
    ++g_accesses;
    localWritten(a, n);
    mark((void*)a, n, true);
}
static void copyAt(uintptr_t d, uintptr_t s, size_t n) {
    if (!g_in) { return; }
    g_copying = true;
    readAt(s, n, 0);
    g_copying = false;
    mark((void*)d, n, true);
    localCopied(d, s, n);
}
template <class F> void call(Ctx& c, const char* name, F f) {
    inside(f, true);
    if (g_bad.what && !g_bad.in) { c.fail("%s %s a local variable that it has not written", name, g_bad.what); }
    if (g_bad.what) { c.fail("%s read %zu bytes that nobody wrote, at offset %zu of %ld bytes of output or storage", name, g_bad.n, (size_t)g_bad.at, g_bad.in); }
}
}  // namespace im
#include "locals.hpp"
#include "calls.hpp"
namespace im {
void runCase(Ctx& c) {
    unsigned kind = (unsigned)c.below(KINDS);
    size_t n = c.chance(1, 8) ? 300 + c.size(3700) : c.size(300);
    one(c, kind, n);
}
uint64_t enumCount(bool thorough) { return KINDS * (thorough ? 60 : 10); }
// every size from 0 up in turn, and some beyond 65536
void enumCase(Ctx& c, uint64_t i, bool) {
    patience(100);
    c.label("enum:sizes 0..64 and beyond 65536");
    unsigned r = 0;
    for (; r < 65; ++r) {
        arenaReset();
        one(c, (unsigned)(i % KINDS), r);
        c.distinctKey(i << 8 | r);
    }
    arenaReset();
    c.nontrivial();
    one(c, (unsigned)(i % KINDS), bigSize(c, i / KINDS));
    c.distinctKey(i << 8 | r);
    c.evals(r + 1);
}
}  // namespace im
