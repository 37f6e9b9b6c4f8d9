#include "crc_common.hpp"
#include "giant.hpp"
using namespace im;
namespace im {
const Prop PROP = {"C01",
    "random: one of the 45 variants (or all of them) x messages of 0..3000 (rarely 200000) bytes in several content styles and alignments, "
    "against bit-by-bit division; enumerated: every variant x all 1-byte and (thorough: all; quick: every 5th) 2-byte messages. "
    "Messages of more than 2^31 bytes enumerated. Non-trivial: message not empty",
    300000, 5000000, 30000, 1500000, 2048};

static void one(Ctx& c, size_t v, const Buf& m) {
    uint32_t want = crcRef().full(v, m.p, m.n);
    uint32_t got = CRCS[v].call(m.p, (uint32_t)m.n, true, nullptr);
    if (got != want) {
        c.fail("%s of %zu bytes %s is %x, catalogued definition gives %x", CRCS[v].name, m.n, hex(m.p, m.n).c_str(), got, want);
    }
}

void runCase(Ctx& c) {
    size_t n = c.chance(1, 1000) ? c.size(200000) : c.chance(1, 12) ? c.size(3000) : c.size(100);
    Buf m(c, n);
    c.fill(m.p, n);
    auto before = m.copy();
    bool all = n < 2000 && c.chance(1, 20);
    if (n) { c.nontrivial(); }
    if (n > 255) { c.label("len:>255"); }
    if (n > 65535) { c.label("len:>65535"); }
    if (all) {
        NOTE(c, "all variants on %zu bytes %s", n, hex(m.p, n).c_str());
        for (size_t v = 0; v < NCRC; ++v) { one(c, v, m); }
        c.evals(NCRC);
        c.label("all variants");
    } else {
        size_t v = c.below(NCRC);
        NOTE(c, "%s on %zu bytes %s", CRCS[v].name, n, hex(m.p, n).c_str());
        c.label(CRCS[v].name);
        one(c, v, m);
    }
    expectSame(c, "message", m, before);
}

// messages of more than 2^31 bytes: quick takes one variant per width
static const char* GIANT_QUICK[] = {"Crc8", "Crc16_ccitFalse", "Crc32_mpeg2"};
static size_t variant(const char* name) {
    for (size_t v = 0; v < NCRC; ++v) {
        if (strcmp(CRCS[v].name, name) == 0) { return v; }
    }
    fprintf(stderr, "no variant %s\n", name);
    exit(3);
}
static void giant(Ctx& c, uint64_t k, bool thorough) {
    c.label("enum:more than 2^31 bytes");
    c.nontrivial();
    c.distinctKey(k << 48);
    patience(900);
    size_t v = thorough ? k : variant(GIANT_QUICK[k]);
    size_t n = thorough && !CRCS[v].spec.refin && k % 2 ? (1ull << 32) - 1 - c.below(100) : (1ull << 31) + c.below(100000);
    SparseMessage m(c, n);
    if (!m.g.p) { return; }
    auto marks = m.marks();
    const ref::CrcSpec& s = CRCS[v].spec;
    // the reference's zero runs against its bit-serial form
    uint8_t z[50] = {0};
    if (ref::crcZeros(s.width, s.poly, s.init, 50) != ref::crcRegister(s.width, s.poly, s.refin, s.init, z, 50)) { fprintf(stderr, "reference mismatch\n"); exit(3); }
    uint32_t want = ref::crcFinal(s, m.crc(s.width, s.poly, s.refin, s.init, 0, n));
    uint32_t got = CRCS[v].call(m.g.p, (uint32_t)n, true, nullptr);
    if (got != want) { c.fail("%s of a message of %zu bytes is %x, catalogued definition gives %x", CRCS[v].name, n, got, want); }
    m.expectUnchanged(c, marks);
}

static uint64_t giants(bool thorough) { return (thorough ? NCRC : 3); }
uint64_t enumCount(bool thorough) { return NCRC + giants(thorough); }
void enumCase(Ctx& c, uint64_t v, bool thorough) {
    if (v >= NCRC) { giant(c, v - NCRC, thorough); return; }
    c.label("enum:all 1-byte, many 2-byte messages");
    Buf m1(c, (size_t)1, 0u), m2(c, (size_t)2, 0u), m0(c, (size_t)0, 0u);
    one(c, v, m0);
    const ref::CrcSpec& s = CRCS[v].spec;
    uint64_t n = 1;
    for (unsigned a = 0; a < 256; ++a) {
        m1[0] = (uint8_t)a;
        one(c, v, m1);
        c.distinctKey(v << 32 | a);
        ++n;
        for (unsigned b = thorough ? 0 : a % 5; b < 256; b += thorough ? 1 : 5) {
            m2[0] = (uint8_t)a;
            m2[1] = (uint8_t)b;
            one(c, v, m2);
            c.distinctKey(v << 32 | 1u << 24 | a << 8 | b);
            ++n;
        }
    }
    Buf big(c, bigSize(c, 1 + v % 12));
    c.fillRandom(big.p, big.n);
    one(c, v, big);
    ++n;
    // the reference's fast form against its bit-serial form
    uint8_t t[300];
    c.fillRandom(t, sizeof t);
    uint32_t x = ref::crcRegister(s.width, s.poly, s.refin, s.init, t, sizeof t);
    if (x != crcRef().tabs[v].run(s.refin, s.init, t, sizeof t)) { fprintf(stderr, "reference mismatch\n"); exit(3); }
    c.evals(n);
    c.nontrivial();
}
}  // namespace im
