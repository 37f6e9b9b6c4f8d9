#include <algorithm>
#include "crcvars.hpp"
#include "engine.hpp"
using namespace im;
namespace im {
const Prop PROP = {"C05",
    "named CRC variants x messages of 0..3000 (rarely 70000) bytes; the checksum is appended (high byte first, or low byte first for reflected variants), the whole is fed in one or two pieces, "
    "and the running value is compared with the one the empty message gives; damaged by one bit, it must differ. Non-trivial: message of at least one byte",
    300000, 5000000, 60000, 3000000, 4096};

static std::vector<uint8_t> withSum(size_t v, const uint8_t* m, size_t n, uint32_t sum) {
    std::vector<uint8_t> w(m, m + n);
    unsigned k = CRCS[v].spec.width / 8;
    for (unsigned i = 0; i < k; ++i) { w.push_back((uint8_t)(sum >> (8 * (CRCS[v].spec.refout ? i : k - 1 - i)))); }
    return w;
}
static uint32_t residue(Ctx& c, size_t v, const std::vector<uint8_t>& w, size_t split) {
    Buf a(c, w.data(), split), b(c, w.data() + split, w.size() - split);
    if (split == 0) { return CRCS[v].call(b.p, (uint32_t)b.n, false, nullptr); }
    uint32_t run = CRCS[v].call(a.p, (uint32_t)a.n, false, nullptr);
    if (b.n == 0) { return run; }
    uint32_t last = run;
    return CRCS[v].call(b.p, (uint32_t)b.n, false, &last);
}
static uint32_t sumOf(Ctx& c, size_t v, const uint8_t* m, size_t n) {
    Buf b(c, m, n);
    return CRCS[v].call(b.p, (uint32_t)n, true, nullptr);
}
static void check(Ctx& c, size_t v, const std::vector<uint8_t>& m, size_t split, size_t flip) {
    std::vector<uint8_t> none;
    uint32_t want = residue(c, v, withSum(v, none.data(), 0, sumOf(c, v, none.data(), 0)), 0);
    uint32_t sum = sumOf(c, v, m.data(), m.size());
    std::vector<uint8_t> w = withSum(v, m.data(), m.size(), sum);
    uint32_t got = residue(c, v, w, split % (w.size() + 1));
    checkGuards(c, CRCS[v].name);
    if (got != want) { c.fail("%s: a message of %zu bytes followed by its checksum %x leaves %x, the empty message leaves %x", CRCS[v].name, m.size(), sum, got, want); }
    size_t bit = flip % (w.size() * 8);
    w[bit / 8] = (uint8_t)(w[bit / 8] ^ (1u << (bit % 8)));
    got = residue(c, v, w, 0);
    if (got == want) { c.fail("%s: a message of %zu bytes followed by its checksum, bit %zu inverted, still verifies", CRCS[v].name, m.size(), bit); }
}
void runCase(Ctx& c) {
    size_t v = c.below(NCRC);
    size_t n = c.chance(1, 1500) ? c.size(70000) : c.chance(1, 20) ? c.size(3000) : c.size(64);
    std::vector<uint8_t> m(n);
    c.fill(m.data(), n);
    size_t split = c.size(n + 4), flip = c.u32uniform();
    NOTE(c, "%s of %s, in two pieces at %zu", CRCS[v].name, hex(m.data(), n).c_str(), split);
    c.label(CRCS[v].name);
    if (n) { c.nontrivial(); }
    check(c, v, m, split, flip);
}
uint64_t enumCount(bool thorough) { return NCRC * (thorough ? 8 : 1); }
void enumCase(Ctx& c, uint64_t i, bool) {
    size_t v = i % NCRC;
    c.label("enum:all messages of 1 byte, lengths up to 130 and round 65536");
    c.nontrivial();
    for (unsigned b = 0; b < 256; ++b) {
        arenaReset();
        check(c, v, {(uint8_t)b}, b, b * 7);
        c.distinctKey(i << 16 | b);
    }
    for (size_t n = 0; n < 130; ++n) {
        arenaReset();
        std::vector<uint8_t> m(n);
        c.fillRandom(m.data(), n);
        check(c, v, m, n / 2, n * 5);
        c.distinctKey(i << 16 | 1u << 12 | n);
    }
    std::vector<uint8_t> m(bigSize(c, i / NCRC % 8 + (i % 3)));
    c.fillRandom(m.data(), m.size());
    arenaReset();
    check(c, v, m, m.size() / 3, m.size());
    c.evals(387);
}
}  // namespace im
