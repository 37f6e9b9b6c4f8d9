#include <algorithm>
#include "engine.hpp"
#include "lib.hpp"
#include "refs.hpp"
using namespace im;
namespace im {
const Prop PROP = {"B04",
    "byte strings of 1..3000 bytes rich in the values 62 and 63, encoded by an independent encoder, any subset of '+' and '/' replaced by '-' and '_', with or without padding; "
    "capacities round the exact size; one case in three: any text of 2..4000 alphabet characters, canonical or not (unused bits set, 4k+1 characters, up to two '=' at the end), "
    "where both spellings must give the same result and bytes; enumerated: all 64x64 character pairs of a 1- and 2-byte string and both spellings at each of the four places of a group. "
    "Non-trivial: the text has at least one '-' or '_'",
    300000, 5000000, 60000, 3000000, 2048};

static void check(Ctx& c, const uint8_t* data, size_t n, const std::string& text, size_t cap, uint8_t dirt) {
    Buf in(c, text.data(), text.size());
    Buf out(c, cap);
    out.set(dirt);
    auto before = in.copy();
    int32_t rc = Base64_decode((const char*)in.p, in.n, out.p, cap);
    checkGuards(c, "Base64_decode");
    if ((rc == 0) != (cap >= n)) { c.fail("decoding %s (%zu bytes) into capacity %zu returned %d", quoted(text.data(), text.size(), 60).c_str(), n, cap, rc); }
    if (rc == 0) {
        if (memcmp(out.p, data, n) != 0) { c.fail("decoding %s gave %s, expected %s", quoted(text.data(), text.size(), 60).c_str(), hex(out.p, n).c_str(), hex(data, n).c_str()); }
        for (size_t i = n; i < cap; ++i) {
            if (out[i] != dirt) { c.fail("byte %zu beyond the %zu decoded bytes was written", i, n); }
        }
    }
    expectSame(c, "text", in, before);
}
static void strip(std::string& t) {
    while (!t.empty() && t.back() == '=') { t.pop_back(); }
}
// any text over the alphabet: the spelling never matters
static void sameAsStandard(Ctx& c, const std::string& t) {
    std::string u = t;
    Rng r;
    r.s = c.u32uniform();
    unsigned mode = (unsigned)c.below(2);
    for (char& ch : u) {
        if ((ch == '+' || ch == '/') && (mode == 0 || r.below(2))) { ch = ch == '+' ? '-' : '_'; }
    }
    size_t cap = c.flag() ? (t.size() + 3) / 4 * 3 : t.size() * 3 / 4 - std::min<size_t>(t.size() * 3 / 4, c.below(4));
    uint8_t dirt = c.byte();
    NOTE(c, "decode %s and %s into capacity %zu", quoted(t.data(), t.size(), 80).c_str(), quoted(u.data(), u.size(), 80).c_str(), cap);
    if (u != t) { c.nontrivial(); }
    Buf a(c, t.data(), t.size()), b(c, u.data(), u.size()), oa(c, cap), ob(c, cap);
    oa.set(dirt);
    ob.set(dirt);
    int32_t ra = Base64_decode(a.c_str(), a.n, oa.p, cap), rb = Base64_decode(b.c_str(), b.n, ob.p, cap);
    checkGuards(c, "Base64_decode");
    if (ra != rb) { c.fail("decoding %s returned %d, its URL-safe spelling %s %d", quoted(t.data(), t.size(), 60).c_str(), ra, quoted(u.data(), u.size(), 60).c_str(), rb); }
    if (ra == 0) { expectBytes(c, "output for the URL-safe spelling", ob.p, oa.p, cap); }
}
static void anyText(Ctx& c) {
    size_t n = 2 + (c.chance(1, 30) ? c.size(4000) : c.size(40));
    unsigned rich = (unsigned)c.below(4);
    Rng r;
    r.s = c.u32uniform();
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string t;
    for (size_t i = 0; i < n; ++i) { t += A[r.below(4) < rich ? 62 + r.below(2) : r.below(64)]; }
    size_t eq = c.below(3);
    for (size_t i = 0; i < eq && i < n; ++i) { t[n - 1 - i] = '='; }
    c.label("any text");
    sameAsStandard(c, t);
}
void runCase(Ctx& c) {
    if (c.chance(1, 3)) {
        anyText(c);
        return;
    }
    // draw the characters: that gives the special values often
    size_t chars = 2 + (c.chance(1, 30) ? c.size(4000) : c.size(60));
    if (chars % 4 == 1) { ++chars; }
    Rng r;
    r.s = c.u32uniform();
    unsigned rich = (unsigned)c.below(5);
    std::vector<uint8_t> bits;  // 6 bits each
    for (size_t i = 0; i < chars; ++i) { bits.push_back((uint8_t)(r.below(5) < rich ? 62 + r.below(2) : r.below(64))); }
    std::vector<uint8_t> data;
    for (size_t i = 0; i + 1 < chars; ++i) {
        if (i % 4 == 0) { data.push_back((uint8_t)(bits[i] << 2 | bits[i + 1] >> 4)); }
        if (i % 4 == 1) { data.push_back((uint8_t)(bits[i] << 4 | bits[i + 1] >> 2)); }
        if (i % 4 == 2) { data.push_back((uint8_t)(bits[i] << 6 | bits[i + 1])); }
    }
    size_t n = data.size();
    std::string t = ref::base64(data.data(), n);
    if (c.flag()) { strip(t); }
    unsigned mode = (unsigned)c.below(3);
    bool any = false;
    for (char& ch : t) {
        if (ch != '+' && ch != '/') { continue; }
        if (mode == 0 || (mode == 1 && r.below(2))) { ch = ch == '+' ? '-' : '_'; any = true; }
    }
    size_t cap = c.flag() ? n : c.flag() ? n + c.below(5) : n - std::min<size_t>(n, 1 + c.below(3));
    NOTE(c, "decode %s into capacity %zu", quoted(t.data(), t.size(), 80).c_str(), cap);
    c.label(mode == 0 ? "URL-safe" : mode == 1 ? "mixed spellings" : "standard");
    if (any) { c.nontrivial(); }
    check(c, data.data(), n, t, cap, c.byte());
}
uint64_t enumCount(bool) { return 66; }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.nontrivial();
    c.label("enum:short texts");
    auto url = [](std::string t) { for (char& ch : t) { ch = ch == '+' ? '-' : ch == '/' ? '_' : ch; } return t; };
    uint64_t cnt = 0;
    if (i == 65) {  // both characters at every place of texts of 2..12 characters
        for (size_t n = 2; n <= 12; ++n) {
            for (size_t eq = 0; eq < 3 && eq < n; ++eq) {
                for (size_t at = 0; at + eq < n; ++at) {
                    for (char ch : {'+', '/'}) {
                        arenaReset();
                        std::string t(n, 'A');
                        for (size_t k = 0; k < eq; ++k) { t[n - 1 - k] = '='; }
                        t[at] = ch;
                        sameAsStandard(c, t);
                        c.distinctKey(1ull << 40 | n << 20 | eq << 16 | at << 1 | (ch == '+'));
                        ++cnt;
                    }
                }
            }
        }
    } else if (i == 64) {
        for (unsigned a = 0; a < 256; ++a) {
            uint8_t d = (uint8_t)a;
            std::string t = url(ref::base64(&d, 1));
            check(c, &d, 1, t, 1, 0);
            strip(t);
            check(c, &d, 1, t, 1, 0xFF);
            c.distinctKey(1ull << 50 | a);
            cnt += 2;
        }
    } else {
        for (unsigned b = 0; b < 64; ++b) {
            // every pair at every place of a group
            for (int at = 0; at < 3; ++at) {
                uint8_t ch[4] = {0, 0, 0, 0};
                ch[at] = (uint8_t)i;
                ch[at + 1] = (uint8_t)b;
                uint8_t d[3] = {(uint8_t)(ch[0] << 2 | ch[1] >> 4), (uint8_t)(ch[1] << 4 | ch[2] >> 2), (uint8_t)(ch[2] << 6 | ch[3])};
                for (size_t n : {2u, 3u}) {
                    arenaReset();
                    std::string t = url(ref::base64(d, n));
                    check(c, d, n, t, n, 0x5A);
                    strip(t);
                    check(c, d, n, t, n + 1, 0xA5);
                    cnt += 2;
                }
                c.distinctKey((uint64_t)at << 20 | i << 8 | b);
            }
        }
    }
    c.evals(cnt);
}
}  // namespace im
