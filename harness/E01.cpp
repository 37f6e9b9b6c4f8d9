#include "engine.hpp"
#include "giant.hpp"
#include "lib.hpp"
#include "refs.hpp"
using namespace im;
namespace im {
const Prop PROP = {"E01",
    "keys, nonces and messages in several content styles, counters biased to 2^k and 2^32 neighbourhoods and source constants, lengths near multiples of 64 "
    "(0..5000, rarely 300000); enumerated: every length 0..1100, and a few messages of more than 65536 blocks. "
    "Messages of more than 2^31 bytes enumerated. Non-trivial: message not empty",
    120000, 2000000, 20000, 700000, 2048};

static void check(Ctx& c, size_t n, uint32_t counter, bool cheap) {
    Buf key(c, 32), nonce(c, 12), m(c, n), out(c, n);
    if (cheap) {
        c.fillRandom(key.p, 32);
        c.fillRandom(nonce.p, 12);
        c.fillRandom(m.p, n);
    } else {
        c.fill(key.p, 32);
        c.fill(nonce.p, 12);
        c.fill(m.p, n);
    }
    out.set((uint8_t)(cheap ? 0x5A : c.byte()));
    auto kb = key.copy(), nb = nonce.copy(), mb = m.copy();
    NOTE(c, "key %s nonce %s counter %08x, %zu bytes %s", hex(key.p, 32).c_str(), hex(nonce.p, 12).c_str(), counter, n, hex(m.p, n, 16).c_str());
    Chacha20_crypt(m.p, (uint32_t)n, key.p, nonce.p, counter, out.p);
    checkGuards(c, "Chacha20_crypt");
    std::vector<uint8_t> want(n);
    ref::chacha(m.p, n, key.p, nonce.p, counter, want.data());
    expectSame(c, "output", out, want);
    expectSame(c, "key", key, kb);
    expectSame(c, "nonce", nonce, nb);
    expectSame(c, "message", m, mb);
}
void runCase(Ctx& c) {
    size_t n;
    if (c.chance(1, 1000)) { n = c.size(300000); }
    else if (c.flag()) { n = 64 * c.size(c.chance(1, 8) ? 70 : 8) + c.pick({0, 1, 2, 63, 62, 32}); }
    else { n = c.size(400); }
    uint32_t counter = c.u32();
    if (c.chance(1, 4)) { counter = (uint32_t)(0 - c.below(12)); }
    size_t blocks = (n + 63) / 64;
    if ((uint64_t)counter + blocks > 0x100000000ull) { c.label("counter wraps"); }
    c.label(n == 0 ? "len:0" : n % 64 == 0 ? "len:whole blocks" : n < 64 ? "len:<64" : "len:partial last block");
    if (n > 16384) { c.label("len:>256 blocks"); }
    if (n) { c.nontrivial(); }
    check(c, n, counter, false);
}
// a message of more than 2^31 bytes, zero but for some bytes; the output judged in
// windows round the marks, whole blocks in between by sampling
static void giant(Ctx& c, uint64_t i) {
    c.label("enum:more than 2^31 bytes");
    c.distinctKey(i);
    patience(900);
    size_t n = i % 2 ? (1ull << 32) - 1 - c.below(200) : (1ull << 31) + c.below(100000);
    Room room(c, n);
    if (!room) { return; }
    Giant in(n, 0), out(n, 0);
    if (!in.p || !out.p) { return; }
    std::vector<size_t> at = places(c, n, 40);
    for (size_t a : at) { in.p[a] = (uint8_t)(1 + c.below(255)); }
    Buf key(c, 32), nonce(c, 12);
    c.fillRandom(key.p, 32);
    c.fillRandom(nonce.p, 12);
    uint32_t counter = c.flag() ? c.u32uniform() : 0;
    Chacha20_crypt(in.p, (uint32_t)n, key.p, nonce.p, counter, out.p);
    alive();
    checkGuards(c, "Chacha20_crypt");
    uint8_t want[640];
    auto window = [&](size_t place) {
        size_t from = place / 64 * 64;
        from = from >= 320 ? from - 320 : 0;
        size_t len = std::min<size_t>(sizeof want, n - from);
        ref::chacha(in.p + from, len, key.p, nonce.p, (uint32_t)(counter + (uint32_t)(from / 64)), want);
        if (memcmp(want, out.p + from, len) != 0) { c.fail("a message of %zu bytes with counter %08x: output in bytes %zu..%zu is not the message XOR the key stream", n, counter, from, from + len); }
    };
    for (size_t a : at) { window(a); }
    for (unsigned k = 0; k < 200000; ++k) { window(((uint64_t)c.rng.next() >> 8) % n); }
    for (size_t a : at) {
        if (in.p[a] == 0) { c.fail("the message was changed at byte %zu", a); }
    }
}
static uint64_t plain(bool thorough) { return thorough ? 1101 + 16 : 1101 + 3; }
uint64_t enumCount(bool thorough) { return plain(thorough) + (thorough ? 4 : 1); }
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    c.nontrivial();
    if (i >= plain(thorough)) { giant(c, i - plain(thorough)); return; }
    if (i <= 1100) {
        c.label("enum:every length 0..1100");
        check(c, i, c.u32(), true);
        c.distinctKey(i);
        return;
    }
    c.label("enum:more than 65536 blocks");
    size_t n = 65536 * 64 + 64 * c.below(600) + c.below(64);
    check(c, n, c.flag() ? c.u32() : (uint32_t)(0 - c.below(70000)), true);
    c.distinctKey(i);
}
}  // namespace im
