#include "engine.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"U04",
    "the whole domain: all 256 characters for the three predicates and all 256 exponents, enumerated; plus random characters, exponents and previous results in random order. "
    "Non-trivial: every case",
    300000, 4000000, 50000, 1000000, 64};

static void chr(Ctx& c, unsigned ch) {
    bool up = ch >= 'A' && ch <= 'Z', lo = ch >= 'a' && ch <= 'z';
    bool gu = Utils_isUpperChar((char)ch), gl = Utils_isLowerChar((char)ch), ga = Utils_isAlpha((char)ch);
    if (gu != up || gl != lo || ga != (up || lo)) { c.fail("character %u: upper %d, lower %d, letter %d", ch, gu, gl, ga); }
}
static void pw(Ctx& c, unsigned e, uint32_t dirt) {
    Buf o(c, 4, 0);
    memcpy(o.p, &dirt, 4);
    bool ok = Utils_quickUint32Pow10((uint8_t)e, (uint32_t*)o.p);
    uint32_t r, want = 1;
    memcpy(&r, o.p, 4);
    for (unsigned i = 0; i < e && i < 9; ++i) { want *= 10; }
    if (ok != (e <= 9)) { c.fail("power of ten, exponent %u, returned %d", e, ok); }
    if (r != (ok ? want : dirt)) { c.fail("power of ten, exponent %u, gives %u", e, r); }
}
void runCase(Ctx& c) {
    c.nontrivial();
    if (c.flag()) {
        unsigned ch = c.byte();
        NOTE(c, "character %u", ch);
        c.label("character");
        chr(c, ch);
    } else {
        unsigned e = c.flag() ? (unsigned)c.below(12) : c.byte();
        uint32_t d = c.u32();
        NOTE(c, "exponent %u, previous result %u", e, d);
        c.label("exponent");
        pw(c, e, d);
    }
}
uint64_t enumCount(bool) { return 1; }
void enumCase(Ctx& c, uint64_t, bool) {
    c.label("enum:whole domain");
    c.nontrivial();
    for (unsigned k = 0; k < 256; ++k) {
        chr(c, k);
        for (uint32_t d : {0u, 1u, 0xFFFFFFFFu, 0x12345678u}) { pw(c, k, d); }
        c.distinctKey(k);
        c.distinctKey(256 + k);
        arenaReset();
    }
    c.evals(512);
}
}  // namespace im
