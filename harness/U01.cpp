#include "engine.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"U01",
    "character sequences of length 1..255: numerals of every length with values near 0, 10^k and 2^32, leading zeros, one character replaced by a near-digit or arbitrary byte, "
    "over-long numerals, raw bytes; enumerated: all 1- and 2-character sequences and all 10-digit numerals from 4294960000 to 4294974999. Non-trivial: at least one digit",
    1000000, 20000000, 150000, 6000000, 512};

static void check(Ctx& c, const uint8_t* s, size_t n) {
    Buf b(c, s, n);
    Buf o(c, 4, 0);
    uint32_t dirt = 0xA5A5A5A5;
    memcpy(o.p, &dirt, 4);
    bool digits = true;
    uint64_t v = 0;
    for (size_t i = 0; i < n; ++i) {
        digits = digits && s[i] >= '0' && s[i] <= '9';
        if (i < 11) { v = v * 10 + (uint64_t)(s[i] - '0'); }
    }
    bool want = digits && n <= 10 && v <= 0xFFFFFFFFull;
    bool got = Utils_stringToUint32((const char*)b.p, (uint8_t)n, (uint32_t*)o.p);
    checkGuards(c, "conversion");
    if (got != want) { c.fail("conversion of %s (%zu characters) returned %d", quoted(s, n).c_str(), n, got); }
    uint32_t r;
    memcpy(&r, o.p, 4);
    if (got && r != (uint32_t)v) { c.fail("conversion of %s gives %u", quoted(s, n).c_str(), r); }
    if (n && memcmp(b.p, s, n) != 0) { c.fail("conversion modified its input"); }
}
void runCase(Ctx& c) {
    uint8_t s[256];
    size_t n = 1;
    unsigned t = (unsigned)c.below(8);
    if (t <= 3) {
        uint64_t v = 0;
        switch (c.below(4)) {
            case 0: v = c.u32(); break;
            case 1: v = 4294967295ull + c.below(30) - 15; break;
            case 2: { v = 1; unsigned k = (unsigned)c.below(12); while (k--) { v *= 10; } v += c.below(5); v -= v > 2 ? c.below(3) : 0; break; }
            default: v = c.draw(5, 99999999999ull, WORD);
        }
        n = (size_t)snprintf((char*)s, sizeof s, "%0*llu", (int)(c.flag() ? 1 : 1 + c.below(14)), (unsigned long long)v);
        c.label("numeral");
    } else if (t == 4) {
        n = 1 + c.size(c.flag() ? 11 : 254);
        for (size_t i = 0; i < n; ++i) { s[i] = (uint8_t)('0' + (i < 12 ? c.below(10) : (i * 7 + s[0]) % 10)); }
        c.label("digit string");
    } else if (t == 5) {
        n = 1 + c.size(c.flag() ? 11 : 254);
        memset(s, '0', n);
        s[n - 1] = (uint8_t)('0' + c.below(10));
        c.label("leading zeros");
    } else {
        n = 1 + c.size(c.flag() ? 11 : 254);
        c.fill(s, n);
        c.label("bytes");
    }
    if (c.chance(1, 3)) {
        s[c.size(n - 1)] = c.flag() ? c.pick<uint8_t>({'/', ':', ' ', '+', '-', '.', 0, 0xB0, 0xB9, 0xFF, 'a', 'O', '0' - 16, 0x80}) : c.byte();
        c.label("one character replaced");
    }
    bool d = false;
    for (size_t i = 0; i < n; ++i) { d |= s[i] >= '0' && s[i] <= '9'; }
    if (d) { c.nontrivial(); }
    c.label(n < 10 ? "length:1..9" : n == 10 ? "length:10" : n < 20 ? "length:11..19" : "length:20+");
    NOTE(c, "%s (%zu)", quoted(s, n).c_str(), n);
    check(c, s, n);
}
uint64_t enumCount(bool thorough) { return 257 + 15 + (thorough ? 4000 : 0); }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.nontrivial();
    uint8_t s[12];
    if (i <= 256) {
        c.label("enum:all 1- and 2-character sequences");
        for (unsigned k = 0; k < 256; ++k) {
            s[0] = (uint8_t)(i == 256 ? k : i);
            s[1] = (uint8_t)k;
            arenaReset();
            check(c, s, i == 256 ? 1 : 2);
            c.distinctKey(i << 8 | k);
        }
        c.evals(256);
        return;
    }
    c.label("enum:runs of 10-digit and shorter numerals");
    uint64_t from = i < 257 + 15 ? 4294960000ull + (i - 257) * 1000 : c.draw(5, 9999999999ull, i % 2 ? UNIFORM : WORD);
    for (uint64_t v = from; v < from + 1000; ++v) {
        char t[24];
        int n = snprintf(t, sizeof t, "%llu", (unsigned long long)v);
        if (n > 11) { break; }
        arenaReset();
        check(c, (const uint8_t*)t, (size_t)n);
        c.distinctKey(1ull << 40 | v);
    }
    c.evals(1000);
}
}  // namespace im
