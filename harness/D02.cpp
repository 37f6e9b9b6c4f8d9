#include "engine.hpp"
#include "lib.hpp"
#include "refs.hpp"
using namespace im;
namespace im {
const Prop PROP = {"D02",
    "32-bit words (uniform, single bits, boundary patterns) x widths and counts 0..32; enumerated batches take a word with every width and count; "
    "the library is compiled at -O0 and -O2. Non-trivial: word not 0",
    1000000, 20000000, 100000, 4000000, 64};

static void one(Ctx& c, uint32_t x, unsigned n) {
    uint32_t want = 0;
    for (unsigned i = 0; i < n; ++i) { want |= ((x >> i) & 1u) << (n - 1 - i); }
    uint32_t got = BitManipulation_reflect(x, (uint8_t)n);
    if (got != want) { c.fail("reflecting %08x in %u bits gives %08x, expected %08x", x, n, got, want); }
    uint32_t low = n == 32 ? x : x & ((1u << n) - 1);
    uint32_t back = BitManipulation_reflect(got, (uint8_t)n);
    if (back != low) { c.fail("reflecting %08x in %u bits twice gives %08x, expected %08x", x, n, back, low); }
    want = 0;
    for (unsigned i = 0; i < 32; ++i) { want |= ((x >> i) & 1u) << ((i + n) % 32); }
    got = BitManipulation_rotl32(x, n);
    if (got != want) { c.fail("rotating %08x left by %u gives %08x, expected %08x", x, n, got, want); }
}
void runCase(Ctx& c) {
    uint32_t x = c.u32();
    unsigned n = (unsigned)c.below(33);
    NOTE(c, "word %08x, width/count %u", x, n);
    c.label(n == 0 ? "n:0" : n == 32 ? "n:32" : n == 31 ? "n:31" : "n:1..30");
    if (x) { c.nontrivial(); }
    one(c, x, n);
}
uint64_t enumCount(bool thorough) { return thorough ? 16384 : 2048; }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.label("enum:one word, all widths and counts");
    uint32_t x = i < 32 ? 1u << i : i < 64 ? ~(1u << (i - 32)) : i == 64 ? 0 : i == 65 ? ~0u : c.u32uniform();
    for (unsigned n = 0; n <= 32; ++n) {
        one(c, x, n);
        if (x) { c.distinctKey((uint64_t)x << 8 | n); }
    }
    c.evals(33);
    c.nontrivial();
}
}  // namespace im
