#include "crcvars.hpp"
#include "touch.hpp"
using namespace im;
namespace im {
const Prop PROP = {"X01",
    "calls of every function of the library (one of 26 kinds, and histories of up to 50 operations on a container or task table) with arguments of up to 300 and often of thousands of bytes, elements or operations "
    "(enumerated: every size 0..64, and some of up to 300000), valid or not; every load and store of the library, and every byte its C library calls touch, must lie in what the call was given to read or "
    "to write, in its own stack or (reading) in constants. Non-trivial: at least 300 bytes, elements or operations",
    150000, 3000000, 15000, 500000, 1024};

static bool within(uintptr_t a, size_t n, bool write) {
    for (auto& r : regions()) { if (a >= r.lo && a + n <= r.hi && a + n >= a && (r.writable || !write)) { return true; } }
    return false;
}
static void readAt(uintptr_t a, size_t n, uintptr_t here) {
    ++g_accesses;
    if (n == 0 || (a >= here && a + n <= g_frame) || within(a, n, false)) { return; }
    if (inArena((void*)a) || (a >= here && a < g_frame + (1u << 20))) { bad("read", a, n, 0); }
}
static void writeAt(uintptr_t a, size_t n, uintptr_t here) {
    ++g_accesses;
    if (n == 0 || (a >= here && a + n <= g_frame) || within(a, n, true)) { return; }
    bad("wrote", a, n, within(a, n, false) ? 1 : inArena((void*)a) || (a >= here && a < g_frame + (1u << 20)) ? 2 : 3);
}
template <class F> void call(Ctx& c, const char* name, F f) {
    inside(f, true);
    static const char* const W[] = {"memory it was not given", "an input", "memory it was not given", "memory shared by all calls (static or global)"};
    if (g_bad.what) { c.fail("%s %s %zu bytes of %s", name, g_bad.what, g_bad.n, W[g_bad.in]); }
}
}  // namespace im
#include "calls.hpp"
namespace im {
void runCase(Ctx& c) {
    unsigned kind = (unsigned)c.below(KINDS);
    size_t n = c.chance(1, 8) ? 300 + c.size(3700) : c.size(300);
    one(c, kind, n);
}
uint64_t enumCount(bool thorough) { return KINDS * (thorough ? 60 : 10); }
// every size from 0 up in turn, and some beyond 65536
void enumCase(Ctx& c, uint64_t i, bool) {
    patience(100);
    c.label("enum:sizes 0..64 and beyond 65536");
    unsigned r = 0;
    for (; r < 65; ++r) {
        arenaReset();
        one(c, (unsigned)(i % KINDS), r);
        c.distinctKey(i << 8 | r);
    }
    arenaReset();
    c.nontrivial();
    one(c, (unsigned)(i % KINDS), bigSize(c, i / KINDS));
    c.distinctKey(i << 8 | r);
    c.evals(r + 1);
}
}  // namespace im
