#include "engine.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"D01",
    "32-bit words (uniform, single bits, boundary patterns) x all 256 indices; random cases take one word and one index (half of them 0..31), "
    "enumerated batches take a word with every index 0..255. Non-trivial: every case",
    600000, 10000000, 100000, 4000000, 64};

static void one(Ctx& c, uint32_t x, uint8_t n, uint32_t dirt) {
    Buf o(c, 4, 0), ob(c, sizeof(bool), 0);
    uint32_t got;
    bool in = n <= 31;
    uint32_t bit = in ? (uint32_t)1 << n : 0;
    struct { const char* name; bool (*f)(uint32_t, uint8_t, uint32_t*); uint32_t want; } ops[] = {
        {"set", BitManipulation_setBit, x | bit}, {"clear", BitManipulation_clearBit, x & ~bit}, {"toggle", BitManipulation_toggleBit, x ^ bit}};
    for (auto& op : ops) {
        memcpy(o.p, &dirt, 4);
        bool ok = op.f(x, n, (uint32_t*)o.p);
        memcpy(&got, o.p, 4);
        if (ok != in) { c.fail("%s bit %u of %08x returned %d", op.name, n, x, ok); }
        uint32_t want = in ? op.want : dirt;
        if (got != want) { c.fail("%s bit %u of %08x gives %08x, expected %08x (output held %08x)", op.name, n, x, got, want, dirt); }
    }
    for (int d = 0; d < 2; ++d) {
        ob[0] = (uint8_t)d;
        bool ok = BitManipulation_bitSet(x, n, (bool*)ob.p);
        if (ok != in) { c.fail("test bit %u of %08x returned %d", n, x, ok); }
        unsigned want = in ? (x >> n) & 1 : (unsigned)d;
        if (ob[0] != want) { c.fail("test bit %u of %08x reports %u, expected %u", n, x, ob[0], want); }
    }
}
void runCase(Ctx& c) {
    uint32_t x = c.u32();
    uint8_t n = c.flag() ? (uint8_t)c.below(32) : c.byte();
    uint32_t dirt = c.u32();
    NOTE(c, "word %08x, bit %u, output held %08x", x, n, dirt);
    c.label(n <= 31 ? "index 0..31" : "index >31");
    c.nontrivial();
    one(c, x, n, dirt);
    checkGuards(c, "bit operation");
}
uint64_t enumCount(bool thorough) { return thorough ? 4096 : 512; }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.label("enum:one word, all indices");
    uint32_t x = i < 32 ? 1u << i : i < 64 ? ~(1u << (i - 32)) : i == 64 ? 0 : i == 65 ? ~0u : c.u32uniform();
    for (unsigned n = 0; n < 256; ++n) {
        one(c, x, (uint8_t)n, 0xDEADBEEF ^ n);
        c.distinctKey((uint64_t)x << 8 | n);
        arenaReset();
    }
    c.evals(256);
    c.nontrivial();
}
}  // namespace im
