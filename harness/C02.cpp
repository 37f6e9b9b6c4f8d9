#include "crc_common.hpp"
#include "giant.hpp"
using namespace im;
namespace im {
const Prop PROP = {"C02",
    "one of the 45 variants x message x a random split into up to 12 pieces (empty pieces included); boundaries are driven to running value 0, "
    "all ones or the initial value in part of the cases; the first piece often drives it to an arbitrary value. "
    "Pieces of more than 2^31 bytes enumerated. Non-trivial: at least two pieces and a non-empty message",
    400000, 6000000, 60000, 2500000, 2048};

static uint32_t call(Ctx& c, size_t v, const uint8_t* p, size_t n, bool fin, const uint32_t* last) {
    uint32_t l = last ? *last : 0;
    uint32_t got = CRCS[v].call(p, (uint32_t)n, fin, last ? &l : nullptr);
    if (last && l != *last) { c.fail("%s changed the caller's running value from %x to %x", CRCS[v].name, *last, l); }
    return got;
}

// the width/8 bytes that take the register from `reg` to `target`
static std::vector<uint8_t> drive(const ref::CrcSpec& s, uint32_t reg, uint32_t target) {
    uint32_t back = target;
    for (unsigned k = 0; k < s.width; ++k) {  // undo one zero-input step
        uint32_t out = back & 1;              // polynomial is odd: bit 0 tells whether it was applied
        if (out) { back ^= s.poly; }
        back >>= 1;
        if (out) { back |= 1u << (s.width - 1); }
    }
    uint32_t x = reg ^ back;
    std::vector<uint8_t> d;
    for (int k = (int)s.width / 8 - 1; k >= 0; --k) {
        uint8_t b = (uint8_t)(x >> (8 * k));
        d.push_back(s.refin ? (uint8_t)ref::reflect(b, 8) : b);
    }
    if (ref::crcRegister(s.width, s.poly, s.refin, reg, d.data(), d.size()) != target) { fprintf(stderr, "harness: boundary construction\n"); exit(3); }
    return d;
}

void runCase(Ctx& c) {
    size_t v = c.below(NCRC);
    const ref::CrcSpec& s = CRCS[v].spec;
    const uint32_t M = ref::mask(s.width);
    c.label(CRCS[v].name);
    uint32_t reg = s.init;
    unsigned pieces = 1 + (unsigned)c.below(c.chance(1, 4) ? 12 : 4);
    uint32_t run = 0;  // as returned by the library
    std::vector<uint8_t> whole;
    uint32_t got = 0, want = 0;
    NOTE(c, "%s", CRCS[v].name);
    for (unsigned i = 0; i < pieces; ++i) {
        bool last = i + 1 == pieces;
        size_t n = c.chance(1, 400) ? c.size(70000) : c.chance(1, 10) ? c.size(1500) : c.size(40);
        std::vector<uint8_t> d(n);
        c.fill(d.data(), n);
        if (!last && c.chance(3, 8)) {  // drive the register at this boundary to a chosen value
            uint32_t target = 0;
            switch (c.below(4)) {
                case 0: target = 0; c.label("boundary value 0"); break;
                case 1: target = M; c.label("boundary value all ones"); break;
                case 2: target = s.init; c.label("boundary value init"); break;
                default: target = c.u32() & M; c.label("boundary value chosen");
            }
            std::vector<uint8_t> e = drive(s, crcRef().reg(v, reg, d.data(), d.size()), target);
            d.insert(d.end(), e.begin(), e.end());
            n = d.size();
        }
        Buf m(c, d.data(), n);
        whole.insert(whole.end(), d.begin(), d.end());
        reg = crcRef().reg(v, reg, m.p, n);
        want = ref::crcFinal(s, reg);
        got = call(c, v, m.p, n, last, i ? &run : nullptr);
        NOTE(c, "piece %u: %zu bytes %s -> %x", i, n, hex(m.p, n, 12).c_str(), got);
        run = got;
        expectSame(c, "piece", m, d);
    }
    size_t total = whole.size();
    if (got != want) { c.fail("%s over %u pieces (%zu bytes) ended with %x, the whole message has %x", CRCS[v].name, pieces, total, got, want); }
    // at once
    Buf w(c, whole.data(), whole.size());
    uint32_t once = call(c, v, w.p, w.n, true, nullptr);
    if (once != run) { c.fail("%s: %zu bytes at once give %x, in %u pieces %x", CRCS[v].name, total, once, pieces, run); }
    uint32_t init = s.init;
    uint32_t g2 = call(c, v, w.p, w.n, true, &init);
    if (g2 != once) { c.fail("%s: starting from the initial value gives %x, without a previous value %x", CRCS[v].name, g2, once); }
    if (pieces >= 2 && total) { c.nontrivial(); }
    c.label(pieces == 1 ? "pieces:1" : pieces == 2 ? "pieces:2" : "pieces:3+");
}

// enumerated: every variant x register values (8 bit: all) x continuation bytes
// pieces of more than 2^31 bytes
static void giant(Ctx& c, uint64_t k) {
    c.label("enum:piece of more than 2^31 bytes");
    c.nontrivial();
    c.distinctKey((k + 1) << 56);
    patience(900);
    size_t v = c.below(NCRC);
    while (k < 2 && CRCS[v].spec.refin) { v = (v + 1) % NCRC; }  // those take longer
    size_t n = (1ull << 31) + 100000 + c.below(1000000), cut = k % 2 ? n - c.below(90000) : c.below(90000);
    SparseMessage m(c, n);
    if (!m.g.p) { return; }
    const ref::CrcSpec& s = CRCS[v].spec;
    uint32_t run = call(c, v, m.g.p, cut, false, nullptr);
    uint32_t got = call(c, v, m.g.p + cut, n - cut, true, &run);
    uint32_t want = ref::crcFinal(s, m.crc(s.width, s.poly, s.refin, s.init, 0, n));
    if (got != want) { c.fail("%s of %zu bytes cut after %zu gives %x, expected %x", CRCS[v].name, n, cut, got, want); }
}
uint64_t enumCount(bool thorough) { return NCRC + (thorough ? 8 : 1); }
void enumCase(Ctx& c, uint64_t v, bool thorough) {
    if (v >= NCRC) { giant(c, v - NCRC); return; }
    c.label("enum:continuations after chosen running values");
    const ref::CrcSpec& s = CRCS[v].spec;
    const uint32_t M = ref::mask(s.width);
    uint64_t n = 0;
    unsigned regs = s.width == 8 ? 256 : thorough ? 4096 : 256;
    for (unsigned q = 0; q < regs; ++q) {
        uint32_t reg = s.width == 8 ? q : q == 0 ? 0 : q == 1 ? M : q == 2 ? s.init : (c.u32uniform() & M);
        std::vector<uint8_t> pre = drive(s, s.init, reg);
        Buf p(c, pre.data(), pre.size()), m(c, 1, 0);
        uint32_t l = call(c, v, p.p, p.n, false, nullptr);
        uint32_t l2 = call(c, v, m.p, 0, false, &l);
        for (uint32_t e : {call(c, v, m.p, 0, true, &l), call(c, v, m.p, 0, true, &l2)}) {
            if (e != ref::crcFinal(s, reg)) {
                c.fail("%s: message %s then an empty last piece gives %x, expected %x", CRCS[v].name, hex(p.p, p.n).c_str(), e, ref::crcFinal(s, reg));
            }
        }
        for (unsigned b = 0; b < 256; b += (q < 4 ? 1 : 7)) {
            m[0] = (uint8_t)b;
            uint32_t want = ref::crcFinal(s, crcRef().reg(v, reg, m.p, 1));
            uint32_t got = call(c, v, m.p, 1, true, b & 1 ? &l : &l2);
            if (got != want) { c.fail("%s: message %s then byte %02x gives %x, expected %x", CRCS[v].name, hex(p.p, p.n).c_str(), b, got, want); }
            c.distinctKey((uint64_t)v << 48 ^ (uint64_t)reg << 8 ^ b);
            ++n;
        }
        arenaReset();
    }
    // a long piece after a short one, and the other way round
    for (unsigned k = 0; k < 2; ++k) {
        Buf big(c, bigSize(c, 1 + (v + 5 * k) % 12));
        c.fillRandom(big.p, big.n);
        size_t cut = k ? big.n - 1 - c.below(300) : c.below(300);
        uint32_t run = call(c, v, big.p, cut, false, nullptr);
        uint32_t got = call(c, v, big.p + cut, big.n - cut, true, &run);
        uint32_t want = ref::crcFinal(s, crcRef().reg(v, s.init, big.p, big.n));
        if (got != want) { c.fail("%s of %zu bytes cut after %zu gives %x, expected %x", CRCS[v].name, big.n, cut, got, want); }
        ++n;
    }
    c.evals(n);
    c.nontrivial();
}
}  // namespace im
