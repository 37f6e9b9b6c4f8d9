// The library is compiled with a callback at every basic block and, by clang, at every load and store (see check.py);
// its calls of the C library's memory and string functions come to the im_ functions of cfuncs.hpp.
#include "engine.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"E03",
    "ChaCha20 calls for messages of up to 400 and at times 5000 bytes, at any address, nonce and counter drawn from boundary values and at random: two keys and two messages of one length (random, one bit apart, "
    "all zero or all ones), processed in the same buffers; the sequences of basic blocks and of addresses read and written must be equal. Enumerated: every length to 520 with every single bit of the key turned. "
    "Non-trivial: at least 1 byte of message",
    30000, 1000000, 3000, 100000, 512};
static bool g_in = false;
static uint64_t g_hash = 0, g_count = 0;
static void step(uint64_t kind, uintptr_t at) {
    if (!g_in) { return; }
    uint64_t v = kind * 0x9E3779B97F4A7C15ull ^ at;
    ++g_count;
    g_hash = (g_hash ^ v) * 0x100000001B3ull;
    g_hash ^= g_hash >> 31;
}
}  // namespace im
#define IM_HERE ((uintptr_t)__builtin_return_address(0))
#define IM_READ(p, n) im::step(2 + 16 * (uint64_t)(n), (uintptr_t)(p))
#define IM_WRITE(p, n) im::step(3 + 16 * (uint64_t)(n), (uintptr_t)(p))
extern "C" {
__attribute__((weak)) void __sanitizer_cov_trace_pc() { im::step(1, IM_HERE); }
#define IM_SIZE(n, T) \
    void __sanitizer_cov_load##n(T* p) { IM_READ(p, n); im::step(4, IM_HERE); } \
    void __sanitizer_cov_store##n(T* p) { IM_WRITE(p, n); im::step(5, IM_HERE); }
IM_SIZE(1, uint8_t)
IM_SIZE(2, uint16_t)
IM_SIZE(4, uint32_t)
IM_SIZE(8, uint64_t)
IM_SIZE(16, void)
}
#include "cfuncs.hpp"
namespace im {
struct Trace { uint64_t hash, count; };
static __attribute__((noinline)) Trace watched(const uint8_t* m, uint32_t n, const uint8_t* k, const uint8_t* nonce, uint32_t inc, uint8_t* out) {
    g_hash = g_count = 0;
    g_in = true;
    Chacha20_crypt(m, n, k, nonce, inc, out);
    g_in = false;
    return {g_hash, g_count};
}
static void pairOf(Ctx& c, uint8_t* a, uint8_t* b, size_t n, int bit) {
    if (n == 0) { return; }
    c.fill(a, n);
    switch (bit >= 0 ? 1 : (int)c.below(4)) {
        case 0: c.fill(b, n); break;
        case 1: memcpy(b, a, n); { size_t at = bit >= 0 ? (size_t)bit % (8 * n) : c.below(8 * n); b[at / 8] ^= (uint8_t)(1u << (at % 8)); } break;
        case 2: memset(b, 0, n); break;
        default: memset(b, 255, n); break;
    }
}
static void both(Ctx& c, size_t n, int bit) {
    Buf m(c, n), k(c, 32), nonce(c, 12), out(c, n);
    std::vector<uint8_t> m1(n + 1), m2(n + 1);
    uint8_t k1[32], k2[32];
    pairOf(c, k1, k2, 32, bit);
    pairOf(c, m1.data(), m2.data(), n, -1);
    c.fill(nonce.p, 12);
    uint32_t inc = c.u32();
    if (c.chance(1, 4)) { m2 = m1; c.label("same message"); } else if (c.chance(1, 4)) { memcpy(k2, k1, 32); c.label("same key"); }
    NOTE(c, "length %zu, counter %u, keys %s and %s, messages %s and %s", n, inc, hex(k1, 32).c_str(), hex(k2, 32).c_str(), hex(m1.data(), n).c_str(), hex(m2.data(), n).c_str());
    Trace t[2];
    for (int i = 0; i < 2; ++i) {
        memcpy(k.p, i ? k2 : k1, 32);
        if (n) { memcpy(m.p, i ? m2.data() : m1.data(), n); }
        out.set(0xC3);
        t[i] = watched(m.p, (uint32_t)n, k.p, nonce.p, inc, out.p);
    }
    checkGuards(c, "Chacha20_crypt");
    if (n > 0 && t[0].count == 0) { c.fail("nothing was executed"); }
    if (t[0].hash != t[1].hash || t[0].count != t[1].count) {
        c.fail("Chacha20_crypt of %zu bytes executed %llu and %llu steps for two keys or messages, or accessed other addresses: its time tells about them", n, (unsigned long long)t[0].count, (unsigned long long)t[1].count);
    }
}
void runCase(Ctx& c) {
    size_t n = c.chance(1, 24) ? c.size(5000) : c.size(400);
    if (n) { c.nontrivial(); }
    both(c, n, -1);
    c.evals(1);
}
uint64_t enumCount(bool thorough) { return thorough ? 521 * 4 : 521; }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.label("enum:every length, a key bit turned");
    unsigned r = 0;
    for (int bit = (int)(i % 2); bit < 256; bit += i < 521 ? 16 : 4) {
        arenaReset();
        both(c, i % 521, bit + (int)(i / 2 % 8) * 2 % 16);
        c.distinctKey(i << 8 | r);
        ++r;
    }
    c.evals(r);
}
}  // namespace im
