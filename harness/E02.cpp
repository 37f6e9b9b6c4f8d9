#include <algorithm>
#include "engine.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"E02",
    "as for E01; each message is encrypted at once, decrypted (separate buffers and in place) and encrypted again in up to 6 pieces cut at block boundaries "
    "with advanced counters. Non-trivial: more than one block or a partial block",
    80000, 1500000, 20000, 500000, 2048};

static void check(Ctx& c, size_t n, uint32_t counter, bool cheap) {
    Buf key(c, 32), nonce(c, 12), m(c, n), e(c, n), d(c, n), e2(c, n);
    c.fillRandom(key.p, 32);
    if (cheap) {
        c.fillRandom(nonce.p, 12);
        c.fillRandom(m.p, n);
    } else {
        c.fill(nonce.p, 12);
        c.fill(m.p, n);
    }
    e.set(0x11);
    d.set(0x22);
    e2.set(0x33);
    NOTE(c, "counter %08x, %zu bytes %s", counter, n, hex(m.p, n, 16).c_str());
    Chacha20_crypt(m.p, (uint32_t)n, key.p, nonce.p, counter, e.p);
    checkGuards(c, "encryption");
    Chacha20_crypt(e.p, (uint32_t)n, key.p, nonce.p, counter, d.p);
    checkGuards(c, "decryption");
    expectSame(c, "message after encrypting and decrypting", d, m.copy());
    Chacha20_crypt(d.p, (uint32_t)n, key.p, nonce.p, counter, d.p);
    checkGuards(c, "encryption in place");
    expectSame(c, "in-place encryption against separate buffers", d, e.copy());
    Chacha20_crypt(d.p, (uint32_t)n, key.p, nonce.p, counter, d.p);
    expectSame(c, "in-place decryption", d, m.copy());
    // pieces
    unsigned k = 1 + (unsigned)c.below(5);
    size_t at = 0;
    bool place = c.flag();
    if (place && n) { memcpy(e2.p, m.p, n); }
    for (unsigned i = 0; i <= k && at < n; ++i) {
        size_t len = n - at;
        if (i < k) { len = std::min<size_t>(len, 64 * c.size((n - at) / 64)); }
        Chacha20_crypt(place ? e2.p + at : m.p + at, (uint32_t)len, key.p, nonce.p, counter + (uint32_t)(at / 64), e2.p + at);
        checkGuards(c, "piecewise encryption");
        NOTE(c, "piece at block %zu of %zu bytes", at / 64, len);
        at += len;
    }
    if (n) { expectBytes(c, "piecewise output against one call", e2.p, e.p, n); }
}
void runCase(Ctx& c) {
    size_t n;
    if (c.chance(1, 1000)) { n = c.size(300000); }
    else if (c.flag()) { n = 64 * c.size(c.chance(1, 8) ? 70 : 8) + c.pick({0, 1, 2, 63, 62, 32}); }
    else { n = c.size(400); }
    uint32_t counter = c.u32();
    if (c.chance(1, 3)) { counter = (uint32_t)(0 - c.below(12)); }
    if ((uint64_t)counter + (n + 63) / 64 > 0x100000000ull) { c.label("counter wraps"); }
    c.label(n <= 64 ? "one block" : n % 64 ? "partial last block" : "whole blocks");
    if (n > 64 || n % 64) { c.nontrivial(); }
    check(c, n, counter, false);
}
uint64_t enumCount(bool thorough) { return thorough ? 701 + 8 : 701 + 2; }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.nontrivial();
    c.distinctKey(i);
    if (i <= 700) {
        c.label("enum:every length 0..700");
        check(c, i, c.u32(), true);
        return;
    }
    c.label("enum:more than 65536 blocks");
    check(c, 65536 * 64 + 64 * c.below(600) + c.below(64), (uint32_t)(0 - c.below(70000)), true);
}
}  // namespace im
