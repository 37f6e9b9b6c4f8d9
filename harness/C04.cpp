#include <algorithm>
#include "crc_common.hpp"
using namespace im;
namespace im {
const Prop PROP = {"C04",
    "one of the 45 variants x message of 1..400 (rarely 70000) bytes x error burst of up to width bits at any position, in the variant's bit order; "
    "enumerated: every variant x every single-bit error and sampled bursts in messages of 1..12 bytes, every single-bit error in long messages of 1536 (thorough 4096) zero and random bytes, and all messages that differ only within one byte (16 bits and up: within two bytes) pairwise. Non-trivial: every case (the error is never empty)",
    400000, 6000000, 60000, 2500000, 1024};

// bit k in transmission order
static void flip(const ref::CrcSpec& s, uint8_t* p, size_t k) { p[k / 8] ^= (uint8_t)(s.refin ? 1u << (k % 8) : 0x80u >> (k % 8)); }

static void check(Ctx& c, size_t v, const std::vector<uint8_t>& msg, size_t at, uint64_t pattern) {
    const ref::CrcSpec& s = CRCS[v].spec;
    Buf a(c, msg.data(), msg.size()), b(c, msg.data(), msg.size());
    bool any = false;
    for (unsigned k = 0; k < s.width && at + k < 8 * msg.size(); ++k) {
        if (pattern >> k & 1) {
            flip(s, b.p, at + k);
            any = true;
        }
    }
    if (!any) { return; }
    uint32_t x = CRCS[v].call(a.p, (uint32_t)a.n, true, nullptr), y = CRCS[v].call(b.p, (uint32_t)b.n, true, nullptr);
    if (x == y) {
        c.fail("%s gives %x for %zu bytes %s and also after burst %llx at bit %zu: %s", CRCS[v].name, x, a.n, hex(a.p, a.n).c_str(), (unsigned long long)pattern, at,
               hex(b.p, b.n).c_str());
    }
}

void runCase(Ctx& c) {
    size_t v = c.below(NCRC);
    c.label(CRCS[v].name);
    const ref::CrcSpec& s = CRCS[v].spec;
    size_t n = 1 + (c.chance(1, 1500) ? c.size(70000) : c.size(400));
    std::vector<uint8_t> m(n);
    c.fill(m.data(), n);
    size_t at = c.chance(1, 4) ? 8 * n - 1 - c.size(std::min<size_t>(8 * n - 1, 40)) : c.size(8 * n - 1);
    uint32_t pattern = (c.u32() & ref::mask(s.width)) | 1;
    if (c.chance(1, 4)) { pattern = 1; c.label("single bit"); }
    c.nontrivial();
    NOTE(c, "%s: %zu bytes %s, burst %x at bit %zu", CRCS[v].name, n, hex(m.data(), n, 16).c_str(), pattern, at);
    check(c, v, m, at, pattern);
}

uint64_t enumCount(bool) { return NCRC; }
void enumCase(Ctx& c, uint64_t v, bool thorough) {
    c.label("enum:single-bit errors and bursts in short messages");
    const ref::CrcSpec& s = CRCS[v].spec;
    uint64_t n = 0;
    for (unsigned len = 1; len <= 12; ++len) {
        std::vector<uint8_t> m(len);
        c.fillRandom(m.data(), len);
        for (size_t at = 0; at < 8u * len; ++at) {
            check(c, v, m, at, 1);
            ++n;
            c.distinctKey((uint64_t)v << 56 | (uint64_t)len << 48 | (uint64_t)at << 32);
            unsigned k = s.width == 8 ? 128 : thorough ? 512 : 64;
            for (unsigned j = 0; j < k; ++j, ++n) {
                uint64_t pat = s.width == 8 ? (uint64_t)j << 1 | 1 : ((c.u32uniform() & ref::mask(s.width)) | 1);
                check(c, v, m, at, pat);
                c.distinctKey((uint64_t)v << 56 | (uint64_t)len << 48 | (uint64_t)at << 32 | pat);
            }
            arenaReset();
        }
    }
    // every single-bit error at every place of a long message
    {
        const size_t len = thorough ? 4096 : 1536;
        for (unsigned base = 0; base < 2; ++base) {
            arenaReset();
            Buf m(c, len);
            if (base) { c.fillRandom(m.p, len); } else { memset(m.p, 0, len); }
            const uint32_t x = CRCS[v].call(m.p, (uint32_t)len, true, nullptr);
            for (size_t bit = 0; bit < 8 * len; ++bit) {
                m[bit / 8] ^= (uint8_t)(1u << bit % 8);
                if (CRCS[v].call(m.p, (uint32_t)len, true, nullptr) == x) {
                    c.fail("%s gives %x for %zu %s bytes and also with bit %zu of byte %zu flipped (from %u)", CRCS[v].name, x, len, base ? "random" : "zero", bit % 8, bit / 8,
                           1u & ~(m[bit / 8] >> bit % 8));
                }
                m[bit / 8] ^= (uint8_t)(1u << bit % 8);
            }
            n += 8 * len;
            c.distinctKey(1ull << 63 | (uint64_t)v << 32 | 9ull << 24 | base);
        }
    }
    // all bursts within one byte, and for 16 bits and up within two aligned bytes: messages differing only there have distinct checksums
    for (unsigned span = 1; span <= (s.width >= 16 ? 2u : 1u); ++span) {
        for (unsigned round = 0; round < (span == 1 ? 24u : thorough ? 12u : 2u); ++round) {
            arenaReset();
            size_t pre = round == 0 ? 0 : c.below(5), post = round == 1 ? 0 : c.below(5);
            Buf m(c, pre + span + post);
            c.fillRandom(m.p, m.n);
            const uint32_t total = 1u << (8 * span);
            std::vector<std::pair<uint32_t, uint32_t>> got(total);
            for (uint32_t x = 0; x < total; ++x) {
                m[pre] = (uint8_t)x;
                if (span == 2) { m[pre + 1] = (uint8_t)(x >> 8); }
                got[x] = {CRCS[v].call(m.p, (uint32_t)m.n, true, nullptr), x};
            }
            n += total;
            c.distinctKey(1ull << 63 | (uint64_t)v << 32 | span << 16 | round);
            std::sort(got.begin(), got.end());
            for (uint32_t x = 1; x < total; ++x) {
                if (got[x].first == got[x - 1].first) {
                    m[pre] = (uint8_t)got[x].second;
                    if (span == 2) { m[pre + 1] = (uint8_t)(got[x].second >> 8); }
                    c.fail("%s gives %x for %zu bytes %s and also with the %u bytes at %zu changed to %0*x (first byte lowest)", CRCS[v].name, got[x].first, m.n, hex(m.p, m.n).c_str(), span, pre,
                           (int)span * 2, got[x - 1].second);
                }
            }
        }
    }
    c.evals(n);
    c.nontrivial();
}
}  // namespace im
