// The library is compiled with a callback at every basic block (the fuzzing build: load and store), and its calls of
// the C library's memory and string functions come to the im_ functions of cfuncs.hpp: both count as steps.
#define IM_TOUCH
#include "crcvars.hpp"
#include "engine.hpp"
using namespace im;
namespace im {
const Prop PROP = {"W01",
    "calls of every function of the library (one of 26 kinds, and histories of up to 50 operations on a container or task table) with arguments of up to 300 and often of thousands of bytes, elements or operations "
    "(enumerated: every power of two to 2^17 and its neighbours), valid or not, texts rich in near-matches; the basic blocks executed and the bytes gone through by C library calls are counted and compared with a "
    "limit linear in the argument size (sorts: n^2, heap sort n log n, times the element size). Non-trivial: at least 300 bytes, elements or operations",
    150000, 3000000, 15000, 500000, 1024};

static bool g_in = false;
static uint64_t g_steps = 0, g_work = 0;
static void give(const void*, size_t) {}
static void take(void*, size_t) {}
static void known(const void*, size_t) {}
static void unknown(const void*, size_t) {}
static void effort(uint64_t n) { g_work = n; }
static void start() {}
static const uint64_t BASE = 20000;
static uint64_t FACTOR = 100;  // per basic block; per load and store: 400
static FILE* report() {  // for choosing the limits
    static FILE* f = getenv("IM_STEPS") ? fopen(getenv("IM_STEPS"), "a") : nullptr;
    return f;
}
template <class F> void call(Ctx& c, const char* name, F f) {
    g_steps = 0;
    g_in = true;
    f();
    g_in = false;
    if (FILE* out = report()) {
        fprintf(out, "%.4f %s %llu %llu %u\n", (double)g_steps / (double)(BASE + FACTOR * g_work), name, (unsigned long long)g_steps, (unsigned long long)g_work, (unsigned)FACTOR);
    }
    if (g_steps > BASE + FACTOR * g_work) { c.fail("%s took %llu steps with arguments of %llu bytes (or as many comparisons of one byte)", name, (unsigned long long)g_steps, (unsigned long long)g_work); }
}
static Ctx* g_ctx = nullptr;
template <class F> static void quiet(F f) { call(*g_ctx, "filling a container", f); }
}  // namespace im
#define IM_STEPS(n) do { if (im::g_in) { im::g_steps += (n); } } while (0)
#define IM_READ(p, n) do { (void)(p); IM_STEPS(n); } while (0)
#define IM_WRITE(p, n) do { (void)(p); IM_STEPS(n); } while (0)
extern "C" {
__attribute__((weak)) void __sanitizer_cov_trace_pc() { IM_STEPS(1); }
void __sanitizer_cov_load1(uint8_t*) { IM_STEPS(1); im::FACTOR = 400; }
void __sanitizer_cov_load2(uint16_t*) { IM_STEPS(1); im::FACTOR = 400; }
void __sanitizer_cov_load4(uint32_t*) { IM_STEPS(1); im::FACTOR = 400; }
void __sanitizer_cov_load8(uint64_t*) { IM_STEPS(1); im::FACTOR = 400; }
void __sanitizer_cov_load16(void*) { IM_STEPS(1); im::FACTOR = 400; }
void __sanitizer_cov_store1(uint8_t*) { IM_STEPS(1); im::FACTOR = 400; }
void __sanitizer_cov_store2(uint16_t*) { IM_STEPS(1); im::FACTOR = 400; }
void __sanitizer_cov_store4(uint32_t*) { IM_STEPS(1); im::FACTOR = 400; }
void __sanitizer_cov_store8(uint64_t*) { IM_STEPS(1); im::FACTOR = 400; }
void __sanitizer_cov_store16(void*) { IM_STEPS(1); im::FACTOR = 400; }
}
#define IM_MANY 1  // containers are filled with thousands of elements
#include "cfuncs.hpp"
#include "calls.hpp"
namespace im {
void runCase(Ctx& c) {
    g_ctx = &c;
    unsigned kind = (unsigned)c.below(KINDS);
    size_t n = c.chance(1, 4) ? 300 + c.size(9700) : c.size(300);
    one(c, kind, n);
}
uint64_t enumCount(bool thorough) { return KINDS * (thorough ? 12 : 4); }
void enumCase(Ctx& c, uint64_t i, bool) {
    patience(100);
    g_ctx = &c;
    c.label("enum:powers of two and neighbours");
    unsigned r = 0;
    for (size_t p = 1; p <= 131072; p *= 2) {
        for (size_t n : {p - 1, p, p + 1}) {
            arenaReset();
            one(c, (unsigned)(i % KINDS), n);
            c.distinctKey(i << 8 | r);
            ++r;
        }
    }
    c.evals(r);
}
}  // namespace im
