#include "engine.hpp"
#include "giant.hpp"
#include "lib.hpp"
#include "refs.hpp"
using namespace im;
namespace im {
const Prop PROP = {"C03",
    "width 8/16/32, arbitrary polynomial (biased to bit patterns and catalogued ones), initial value, final XOR, all 8 flag combinations, "
    "messages of 0..2000 (rarely 70000) bytes; table from the library's generator into a guarded buffer; enumerated: the generator for all 256 8-bit "
    "polynomials and (thorough: all, quick: every 16th) 16-bit ones. Messages of more than 2^31 bytes enumerated. Non-trivial: polynomial not 0 and message not empty",
    150000, 2500000, 30000, 1200000, 2048};

struct Tab {
    alignas(8) uint8_t raw[1024];
};
// generate the table for a polynomial into a guarded buffer and check it
static Buf table(Ctx& c, unsigned w, uint32_t poly) {
    Buf t(c, 256 * w / 8, 0);
    t.set(0xA5);
    if (w == 8) { Crc8Base_tableCalculator((uint8_t)poly, t.p); }
    else if (w == 16) { Crc16Base_tableCalculator((uint16_t)poly, (uint16_t*)t.p); }
    else { Crc32Base_tableCalculator(poly, (uint32_t*)t.p); }
    return t;
}
static uint32_t entry(const Buf& t, unsigned w, unsigned i) {
    if (w == 8) { return t.p[i]; }
    if (w == 16) { return ((const uint16_t*)t.p)[i]; }
    return ((const uint32_t*)t.p)[i];
}
static void checkTable(Ctx& c, const Buf& t, unsigned w, uint32_t poly) {
    for (unsigned i = 0; i < 256; ++i) {
        uint8_t b = (uint8_t)i;
        uint32_t want = ref::crcRegister(w, poly, false, 0, &b, 1);
        if (entry(t, w, i) != want) { c.fail("table entry %u for %u-bit polynomial %x is %x, expected %x", i, w, poly, entry(t, w, i), want); }
    }
}
static uint32_t engine(unsigned w, const Buf& t, const uint8_t* p, size_t n, uint32_t init, uint32_t x, bool ro, bool ri, bool fx) {
    if (w == 8) { return Crc8Base(t.p, p, (uint32_t)n, (uint8_t)init, (uint8_t)x, ro, ri, fx); }
    if (w == 16) { return Crc16Base((const uint16_t*)t.p, p, (uint32_t)n, (uint16_t)init, (uint16_t)x, ro, ri, fx); }
    return Crc32Base((const uint32_t*)t.p, p, (uint32_t)n, init, x, ro, ri, fx);
}

static void one(Ctx& c, size_t n) {
    unsigned w = c.pick({8u, 16u, 32u});
    uint32_t M = ref::mask(w);
    uint32_t poly = c.u32() & M;
    if (c.chance(1, 3)) { poly = c.pick({0x04C11DB7u, 0x1EDC6F41u, 0xA833982Bu, 0x814141ABu, 0x1021u, 0x8005u, 0x3D65u, 0x07u, 0x31u, 0x9Bu, 0x80000000u, 0x8000u, 0x80u, 0x1u, 0xFFFFFFFFu}) & M; }
    uint32_t init = c.u32() & M, x = c.u32() & M;
    bool ro = c.flag(), ri = c.flag(), fx = c.flag();
    Buf m(c, n);
    c.fill(m.p, n);
    auto mb = m.copy();
    Buf t = table(c, w, poly);
    checkGuards(c, "table generator");
    checkTable(c, t, w, poly);
    auto tb = t.copy();
    uint32_t reg = ref::crcRegister(w, poly, ri, init, m.p, n);
    uint32_t want = ((ro ? ref::reflect(reg, w) : reg) ^ (fx ? x : 0)) & M;
    NOTE(c, "width %u poly %x init %x xor %x refout %d refin %d applyxor %d on %zu bytes %s", w, poly, init, x, ro, ri, fx, n, hex(m.p, n, 16).c_str());
    uint32_t got = engine(w, t, m.p, n, init, x, ro, ri, fx);
    if (got != want) {
        c.fail("%u-bit engine: poly %x init %x xor %x refout %d refin %d applyxor %d on %zu bytes %s gives %x, expected %x", w, poly, init, x, ro, ri, fx, n,
               hex(m.p, n, 16).c_str(), got, want);
    }
    // continue from an intermediate value
    size_t k = c.size(n);
    uint32_t mid = engine(w, t, m.p, k, init, x, false, ri, false);
    uint32_t two = engine(w, t, m.p + k, n - k, mid, x, ro, ri, fx);
    if (two != want) { c.fail("%u-bit engine: poly %x, %zu bytes continued after %zu bytes give %x, expected %x", w, poly, n - k, k, two, want); }
    expectSame(c, "message", m, mb);
    expectSame(c, "table", t, tb);
    c.label(w == 8 ? "width 8" : w == 16 ? "width 16" : "width 32");
    c.label(ro ? (ri ? "refout,refin" : "refout") : (ri ? "refin" : "no reflection"));
    if (poly && n) { c.nontrivial(); }
}

void runCase(Ctx& c) { one(c, c.chance(1, 1500) ? c.size(70000) : c.chance(1, 10) ? c.size(2000) : c.size(60)); }

// a message of more than 2^31 bytes, zero but for some bytes
static void giant(Ctx& c, uint64_t k) {
    c.label("enum:more than 2^31 bytes");
    c.nontrivial();
    c.distinctKey(k << 50);
    patience(900);
    unsigned w = k % 3 == 0 ? 8 : k % 3 == 1 ? 16 : 32;
    uint32_t M = ref::mask(w), poly = (c.u32uniform() | 1) & M, init = c.u32uniform() & M, x = c.u32uniform() & M;
    bool ro = c.flag(), ri = k >= 6, fx = c.flag();
    size_t n = k < 3 || ri ? (1ull << 31) + c.below(100000) : (1ull << 32) - 1 - c.below(100);
    SparseMessage m(c, n);
    if (!m.g.p) { return; }
    auto marks = m.marks();
    Buf t = table(c, w, poly);
    uint32_t reg = m.crc(w, poly, ri, init, 0, n);
    uint32_t want = ((ro ? ref::reflect(reg, w) : reg) ^ (fx ? x : 0)) & M;
    uint32_t got = engine(w, t, m.g.p, n, init, x, ro, ri, fx);
    if (got != want) { c.fail("%u-bit engine: poly %x init %x xor %x refout %d refin %d applyxor %d on %zu bytes gives %x, expected %x", w, poly, init, x, ro, ri, fx, n, got, want); }
    m.expectUnchanged(c, marks);
}
static uint64_t plain(bool thorough) { return 1 + (thorough ? 256 + 600 : 16 + 60); }
uint64_t enumCount(bool thorough) { return plain(thorough) + (thorough ? 9 : 3); }
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    if (i >= plain(thorough)) { giant(c, i - plain(thorough)); return; }
    if (i > (thorough ? 256u : 16u)) {
        c.label("enum:around and beyond 65536 bytes");
        c.distinctKey(i << 40);
        one(c, bigSize(c, i % 12));
        return;
    }
    c.label("enum:tables of many polynomials");
    uint64_t n = 0;
    if (i == 0) {
        for (unsigned p = 0; p < 256; ++p, ++n) {
            checkTable(c, table(c, 8, p), 8, p);
            c.distinctKey(p);
        }
    } else {
        for (unsigned p = 0; p < 256; ++p, ++n) {
            uint32_t poly = thorough ? (uint32_t)(i - 1) << 8 | p : ((uint32_t)(i - 1) << 8 | p) << 4 | (p * 7 & 15);
            checkTable(c, table(c, 16, poly), 16, poly);
            c.distinctKey(1u << 20 | poly);
            poly = c.u32uniform();
            checkTable(c, table(c, 32, poly), 32, poly);
            arenaReset();
        }
    }
    c.evals(n);
    c.nontrivial();
}
}  // namespace im
