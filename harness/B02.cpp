#include <algorithm>
#include "engine.hpp"
#include "giant.hpp"
#include "lib.hpp"
#include "refs.hpp"
using namespace im;
namespace im {
const Prop PROP = {"B02",
    "byte strings of 1..6000 (rarely 100000) bytes, encoded by an independent Base64 encoder with or without padding, "
    "decoded into capacities round the exact size and random ones; all 1- and 2-byte strings enumerated both ways. "
    "Enumerated as well: texts of more than 2^31 and 2^32 characters. Non-trivial: a non-empty string whose capacity is within 4 of the exact size or large enough",
    400000, 6000000, 60000, 3000000, 4096};

static void check(Ctx& c, const uint8_t* data, size_t n, bool padded, size_t cap, uint8_t dirt) {
    std::string text = ref::base64(data, n);
    if (!padded) {
        while (!text.empty() && text.back() == '=') { text.pop_back(); }
    }
    Buf in(c, text.data(), text.size());
    Buf out(c, cap);
    out.set(dirt);
    NOTE(c, "decode %s (%zu chars, %zu bytes) into capacity %zu", quoted(text.data(), text.size(), 60).c_str(), text.size(), n, cap);
    auto before = in.copy();
    int32_t rc = Base64_decode((const char*)in.p, in.n, out.p, cap);
    checkGuards(c, "Base64_decode");
    bool fits = n >= 1 && cap >= n;
    if ((rc == 0) != fits) {
        c.fail("decoding %s (%zu bytes) into capacity %zu returned %d", quoted(text.data(), text.size(), 60).c_str(), n, cap, rc);
    }
    if (rc == 0) {
        expectBytes(c, "decoded bytes", out.p, data, n);
    }
    for (size_t i = n; i < cap; ++i) {
        if (out[i] != dirt) { c.fail("byte %zu beyond the %zu decoded bytes was written", i, n); }
    }
    expectSame(c, "text", in, before);
}

void runCase(Ctx& c) {
    size_t n = c.chance(1, 1000) ? c.size(100000) : c.chance(1, 12) ? c.size(6000) : c.size(200);
    std::vector<uint8_t> data(n);
    c.fill(data.data(), n);
    bool padded = !c.flag();
    size_t cap = n;
    switch (c.below(6)) {
        case 0: case 1: c.label("cap:exact"); break;
        case 2: cap = n - std::min<size_t>(n, 1 + c.below(4)); c.label("cap:few-short"); break;
        case 3: cap = n + 1 + c.below(4); c.label("cap:few-over"); break;
        case 4: cap = c.size(n); c.label("cap:random"); break;
        default: cap = n + c.size(2 * n + 8); c.label("cap:roomy"); break;
    }
    c.label(n == 0 ? "n:0" : n % 3 == 0 ? "n%3:0" : n % 3 == 1 ? "n%3:1" : "n%3:2");
    c.label(padded ? "padded" : "unpadded");
    if (n && cap + 4 >= n) { c.nontrivial(); }
    check(c, data.data(), n, padded, cap, c.byte());
}

// decoding more than 2^31 or 2^32 characters, 'A' but for some groups
static void giant(Ctx& c, uint64_t k) {
    c.label("enum:more than 2^31 characters decoded");
    c.nontrivial();
    c.distinctKey((k + 1) << 56);
    patience(900);
    size_t n = k % 2 ? (3ull << 29) + c.below(1000) : (1ull << 32) + 1 + c.below(1000), text = (n + 2) / 3 * 4;
    Room room(c, n);
    if (!room) { return; }
    Giant in(text, 'A'), out(n, 0x55);
    if (!in.p || !out.p) { return; }
    std::vector<size_t> at = places(c, (n + 2) / 3, 20), used;
    std::vector<uint8_t> data;
    for (size_t g : at) {
        uint8_t d[3] = {c.byte(), c.byte(), (uint8_t)(1 + c.below(255))};
        size_t len = std::min<size_t>(3, n - 3 * g);
        memcpy(in.p + 4 * g, ref::base64(d, len).c_str(), 4);
        data.insert(data.end(), d, d + 3);
    }
    size_t given = text;
    if (c.flag()) {
        while (in.p[given - 1] == '=') { --given; }
    }
    if (Base64_decode((const char*)in.p, given, out.p, n - 1) == 0) { c.fail("decoding %zu characters (%zu bytes) into a capacity of %zu succeeded", given, n, n - 1); }
    alive();
    if (Base64_decode((const char*)in.p, given, out.p, n) != 0) { c.fail("decoding %zu characters (%zu bytes) into a capacity of %zu failed", given, n, n); }
    alive();
    size_t pos = 0;
    for (size_t i = 0; i < at.size(); ++i) {
        size_t g = at[i];
        expectAll(c, "decoded zeros", out.p, 3 * pos, 3 * g, 0);
        expectBytes(c, "decoded marks", out.p + 3 * g, &data[3 * i], std::min<size_t>(3, n - 3 * g));
        pos = g + 1;
    }
    if (pos != (n + 2) / 3) { fprintf(stderr, "harness: last group not marked\n"); exit(3); }
}
static uint64_t plain(bool thorough) { return 257 + 4 + (thorough ? 200 : 12); }
uint64_t enumCount(bool thorough) { return plain(thorough) + (thorough ? 4 : 1); }
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    if (i >= plain(thorough)) { giant(c, i - plain(thorough)); return; }
    if (i >= 261) {
        c.label("enum:around and beyond 65536 bytes");
        size_t n = bigSize(c, i - 261);
        std::vector<uint8_t> d(n);
        c.fillRandom(d.data(), n);
        for (bool padded : {true, false}) {
            check(c, d.data(), n, padded, n, 0xAA);
            check(c, d.data(), n, padded, n - 1, 0x55);
            check(c, d.data(), n, padded, n & 0xFFFF, 0x55);
            arenaReset();
        }
        c.evals(6);
        c.nontrivial();
        c.distinctKey(i << 48);
        return;
    }
    if (i >= 257) {
        c.label("enum:capacity beyond 2^32");
        c.nontrivial();
        c.distinctKey(i << 48);
        size_t cap = (1ull << 32) + i - 257, n = 1 + c.below(3000);
        uint8_t* out = sparse(cap);
        if (!out) { c.label("sparse memory refused"); return; }
        std::vector<uint8_t> d(n);
        c.fillRandom(d.data(), n);
        std::string t = ref::base64(d.data(), n);
        Buf in(c, t.data(), t.size());
        int32_t rc = Base64_decode((const char*)in.p, in.n, out, cap);
        if (rc != 0) { c.fail("decoding %zu characters into a capacity of %zu returned %d", in.n, cap, rc); }
        expectBytes(c, "decoded bytes", out, d.data(), n);
        sparseFree(out, cap);
        return;
    }
    c.label("enum:all 1- and 2-byte strings");
    for (unsigned v = 0; v < 256; ++v) {
        size_t n = i == 256 ? 1 : 2;
        uint8_t d[2] = {(uint8_t)(n == 1 ? v : i), (uint8_t)v};
        check(c, d, n, true, n, 0x55);
        check(c, d, n, false, n, 0xAA);
        c.distinctKey((i << 8 | v) + (1ull << 40));
    }
    c.evals(512);
    c.nontrivial();
}
}  // namespace im
