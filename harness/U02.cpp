#include "engine.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"U02",
    "values biased to bit patterns and uniform, arbitrary bytes for deserialisation, any alignment, each width and order; enumerated: all 8- and 16-bit values, and (thorough: all, quick: every 64th "
    "block of 256) 24-bit values. Non-trivial: value not 0",
    600000, 10000000, 100000, 4000000, 64};

template <int W, bool BE> struct Io;
#define IO(W, BE, T, S, D) template <> struct Io<W, BE> { static void put(uint8_t* p, uint32_t v) { S(p, (T)v); } static uint32_t get(const uint8_t* p) { return D(p); } };
IO(1, true, uint8_t, Utils_serialize8, Utils_deserialize8)
IO(1, false, uint8_t, Utils_serialize8, Utils_deserialize8)
IO(2, true, uint16_t, Utils_serialize16BE, Utils_deserialize16BE)
IO(2, false, uint16_t, Utils_serialize16LE, Utils_deserialize16LE)
IO(3, true, uint32_t, Utils_serialize24BE, Utils_deserialize24BE)
IO(3, false, uint32_t, Utils_serialize24LE, Utils_deserialize24LE)
IO(4, true, uint32_t, Utils_serialize32BE, Utils_deserialize32BE)
IO(4, false, uint32_t, Utils_serialize32LE, Utils_deserialize32LE)

template <int W, bool BE> static void one(Ctx& c, uint8_t* p, uint32_t v) {
    uint8_t want[4];
    uint32_t low = W == 4 ? v : v & ((1u << (8 * W)) - 1);
    for (int i = 0; i < W; ++i) { want[BE ? W - 1 - i : i] = (uint8_t)(v >> (8 * i)); }
    Io<W, BE>::put(p, W == 3 ? v : low);
    if (memcmp(p, want, W) != 0) { c.fail("serialising %x in %d bits %s-endian writes %s, expected %s", v, 8 * W, BE ? "big" : "little", hex(p, W).c_str(), hex(want, W).c_str()); }
    uint32_t got = Io<W, BE>::get(p);
    if (got != low) { c.fail("deserialising %s as %d bits %s-endian gives %x, expected %x", hex(want, W).c_str(), 8 * W, BE ? "big" : "little", got, low); }
    if (memcmp(p, want, W) != 0) { c.fail("deserialising changed the buffer"); }
}
void runCase(Ctx& c) {
    uint32_t v = c.u32();
    unsigned k = (unsigned)c.below(8);
    unsigned off = (unsigned)c.below(8);
    NOTE(c, "%u bits %s-endian value %x at offset %u", 8 * (k / 2 + 1), k & 1 ? "big" : "little", v, off);
    if (v) { c.nontrivial(); }
    Buf b(c, k / 2 + 1, off);
    b.set(c.byte());
    switch (k) {
        case 0: one<1, false>(c, b.p, v); c.label("8"); break;
        case 1: one<1, true>(c, b.p, v); c.label("8"); break;
        case 2: one<2, false>(c, b.p, v); c.label("16LE"); break;
        case 3: one<2, true>(c, b.p, v); c.label("16BE"); break;
        case 4: one<3, false>(c, b.p, v); c.label("24LE"); break;
        case 5: one<3, true>(c, b.p, v); c.label("24BE"); break;
        case 6: one<4, false>(c, b.p, v); c.label("32LE"); break;
        default: one<4, true>(c, b.p, v); c.label("32BE"); break;
    }
}
uint64_t enumCount(bool thorough) { return 257 + (thorough ? 65536 : 1024); }
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    c.nontrivial();
    if (i <= 256) {
        c.label("enum:all 8- and 16-bit values");
        Buf b1(c, 1, 0), b2(c, 2, 0);
        for (unsigned k = 0; k < 256; ++k) {
            if (i == 256) {
                one<1, true>(c, b1.p, k);
                c.distinctKey(k);
            } else {
                one<2, true>(c, b2.p, (uint32_t)i << 8 | k);
                one<2, false>(c, b2.p, (uint32_t)i << 8 | k);
                c.distinctKey(1u << 20 | i << 8 | k);
            }
        }
        c.evals(i == 256 ? 256 : 512);
        return;
    }
    c.label("enum:24-bit values, matching 32-bit samples");
    Buf b3(c, 3, 0), b4(c, 4, 0);
    uint32_t top = (uint32_t)(thorough ? i - 257 : (i - 257) * 64 + c.below(64));
    uint32_t hi = c.u32uniform() & 0xFF000000u;
    for (unsigned k = 0; k < 256; ++k) {
        uint32_t v = hi | top << 8 | k;
        one<3, true>(c, b3.p, v);
        one<3, false>(c, b3.p, v);
        one<4, true>(c, b4.p, v);
        one<4, false>(c, b4.p, v);
        c.distinctKey(1ull << 40 | v);
    }
    c.evals(1024);
}
}  // namespace im
