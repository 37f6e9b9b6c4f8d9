#include <algorithm>
#include "engine.hpp"
#include "giant.hpp"
#include "lib.hpp"
#include "refs.hpp"
using namespace im;
namespace im {
const Prop PROP = {"B01",
    "byte strings of 0..6000 (rarely 100000) bytes in several content styles x result capacities round the exact fit, "
    "0 and random, or unrepresentable lengths; every 1- and 2-byte input enumerated. Enumerated as well: inputs of more than 2^31 and 2^32 bytes, capacities beyond 2^32. Non-trivial: at least one byte to encode",
    400000, 6000000, 60000, 3000000, 4096};

static void check(Ctx& c, const Buf& data, size_t n, size_t cap, uint8_t dirt) {
    std::string want = ref::base64(data.p, n);
    Buf out(c, cap);
    out.set(dirt);
    std::vector<uint8_t> before = data.copy();
    NOTE(c, "encode %zu bytes %s into capacity %zu (text needs %zu + terminator)", n, hex(data.p, n).c_str(), cap, want.size());
    int32_t rc = Base64_encode((const char*)data.p, n, (char*)out.p, cap);
    checkGuards(c, "Base64_encode");
    bool fits = want.size() + 1 <= cap;
    if ((rc == 0) != fits) {
        c.fail("encoding %zu bytes into capacity %zu returned %d; the text needs %zu bytes with its terminator", n, cap, rc, want.size() + 1);
    }
    if (rc == 0) { expectBytes(c, "encoded text with terminator", out.p, (const uint8_t*)want.c_str(), want.size() + 1); }
    expectSame(c, "input", data, before);
}

void runCase(Ctx& c) {
    if (c.chance(1, 40)) {  // length whose encoding cannot be represented
        uint64_t n = ~0ull - (c.flag() ? c.u32() : (uint64_t)c.u32() << 29);
        Buf d(c, 8), r(c, c.below(9));
        c.fill(d.p, 8);
        r.set(c.byte());
        auto before = r.copy();
        NOTE(c, "encode with length %llu, capacity %zu", (unsigned long long)n, r.n);
        if (Base64_encode((const char*)d.p, (size_t)n, (char*)r.p, r.n) == 0) { c.fail("length %llu was accepted", (unsigned long long)n); }
        expectSame(c, "result after a rejected length", r, before);
        checkGuards(c, "rejected length");
        c.label("len:unrepresentable");
        c.nontrivial();
        return;
    }
    size_t n = c.chance(1, 1000) ? c.size(100000) : c.chance(1, 12) ? c.size(6000) : c.size(200);
    Buf data(c, n);
    c.fill(data.p, n);
    size_t need = 4 * ((n + 2) / 3) + 1, cap = 0;
    switch (c.below(8)) {
        case 0: cap = need; c.label("cap:exact"); break;
        case 1: cap = need - 1; c.label("cap:text-only"); break;
        case 2: cap = need + 1 + c.size(64); c.label("cap:roomy"); break;
        case 3: cap = c.size(need); c.label("cap:random"); break;
        case 4: cap = need - std::min<size_t>(need, 1 + c.below(5)); c.label("cap:few-short"); break;
        case 5: cap = need + c.below(4); c.label("cap:few-over"); break;
        case 6: cap = c.below(8); c.label("cap:tiny"); break;
        default: cap = need + c.size(2 * need); c.label("cap:roomy"); break;
    }
    c.label(n == 0 ? "n:0" : n % 3 == 0 ? "n%3:0" : n % 3 == 1 ? "n%3:1" : "n%3:2");
    if (n > 1000) { c.label("n:>1000"); }
    if (n) { c.nontrivial(); }
    check(c, data, n, cap, c.byte());
}

// encoding more than 2^31 bytes, zero but for some
static void giant(Ctx& c, uint64_t k) {
    c.label("enum:more than 2^31 bytes encoded");
    c.nontrivial();
    c.distinctKey((k + 1) << 56);
    patience(900);
    size_t n = (1ull << (k % 2 ? 31 : 32)) + 1 + c.below(1000), text = (n + 2) / 3 * 4;
    Room room(c, text);
    if (!room) { return; }
    Giant in(n, 0), out(text + 1, 0);
    if (!in.p || !out.p) { return; }
    std::vector<size_t> at = places(c, n, 20);
    for (size_t a : at) { in.p[a] = (uint8_t)(1 + c.below(255)); }
    out.p[0] = 'q';
    if (Base64_encode((const char*)in.p, n, (char*)out.p, text) == 0) { c.fail("encoding %zu bytes into a capacity of %zu succeeded", n, text); }
    alive();
    if (Base64_encode((const char*)in.p, n, (char*)out.p, text + 1) != 0) { c.fail("encoding %zu bytes into a capacity of %zu failed", n, text + 1); }
    alive();
    size_t pos = 0;  // in groups of three bytes / four characters
    for (size_t a : at) {
        size_t g = a / 3;
        if (g < pos) { continue; }
        expectAll(c, "encoded zeros", out.p, 4 * pos, 4 * g, 'A');
        std::string want = ref::base64(in.p + 3 * g, std::min<size_t>(3, n - 3 * g));
        expectBytes(c, "encoded marks", out.p + 4 * g, (const uint8_t*)want.c_str(), 4);
        pos = g + 1;
    }
    if (pos != text / 4) { fprintf(stderr, "harness: last group not marked\n"); exit(3); }
    if (out.p[text] != 0) { c.fail("the encoding of %zu bytes is not terminated", n); }
    for (size_t a : at) {
        if (in.p[a] == 0) { c.fail("the input was changed at byte %zu", a); }
    }
}
static uint64_t plain(bool thorough) { return 257 + 5 + (thorough ? 200 : 12); }
uint64_t enumCount(bool thorough) { return plain(thorough) + (thorough ? 4 : 1); }
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    if (i >= plain(thorough)) { giant(c, i - plain(thorough)); return; }
    if (i >= 262) {
        c.label("enum:around and beyond 65536 bytes");
        size_t n = bigSize(c, i - 262), need = 4 * ((n + 2) / 3) + 1;
        Buf d(c, n);
        c.fillRandom(d.p, n);
        check(c, d, n, need, 0xAA);
        check(c, d, n, need - 1, 0x55);
        check(c, d, n, (need & 0xFFFF) + 1, 0x55);
        c.evals(3);
        c.nontrivial();
        c.distinctKey(i << 48);
        return;
    }
    if (i >= 257) {  // sizes beyond 2^32; the arrays are larger than anything that may be touched
        c.label("enum:sizes beyond 2^32");
        c.nontrivial();
        c.distinctKey(i << 48);
        static const uint64_t N[] = {1ull << 32, (1ull << 32) + 7, 3ull << 30, (1ull << 31) + 1, (1ull << 34) + 100};
        Buf d(c, 4096), r(c, c.below(3000));
        c.fillRandom(d.p, 4096);
        size_t n = (size_t)N[i - 257];
        if (Base64_encode((const char*)d.p, n, (char*)r.p, r.n) == 0) { c.fail("%zu bytes were encoded into a capacity of %zu", n, r.n); }
        checkGuards(c, "encoding of more than fits");
        size_t cap = (1ull << 32) + i - 257;
        uint8_t* out = sparse(cap);
        if (!out) { c.label("sparse memory refused"); return; }
        n = 1 + c.below(3000);
        std::string want = ref::base64(d.p, n);
        int32_t rc = Base64_encode((const char*)d.p, n, (char*)out, cap);
        if (rc != 0) { c.fail("encoding %zu bytes into a capacity of %zu returned %d", n, cap, rc); }
        expectBytes(c, "encoded text with terminator", out, (const uint8_t*)want.c_str(), want.size() + 1);
        sparseFree(out, cap);
        return;
    }
    c.label("enum:all 1- and 2-byte inputs");
    Buf d(c, 2, 0);
    for (unsigned v = 0; v < 256; ++v) {
        size_t n = i == 256 ? 1 : 2;
        d[0] = (uint8_t)(n == 1 ? v : i);
        d[1] = (uint8_t)v;
        Buf one(c, d.p, n);
        check(c, one, n, 5, 0xAA);
        c.distinctKey((i << 8 | v) + (1ull << 40));
    }
    c.evals(256);
    c.nontrivial();
}
}  // namespace im
