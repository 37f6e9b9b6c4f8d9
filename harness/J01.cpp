#include <algorithm>
#include "engine.hpp"
#include "giant.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"J01",
    "histories of start, up to 12 adds (quote-free keys and values of 0..40, sometimes 600, rarely 70000 bytes), end and restart; "
    "buffer size chosen round the size needed after a random step, or small, or roomy. Buffers and texts beyond 2^32 characters enumerated. Non-trivial: at least one member offered and start succeeded",
    300000, 5000000, 60000, 2500000, 2048};

static std::string word(Ctx& c) {
    size_t n = c.chance(1, 1500) ? c.size(70000) : c.chance(1, 30) ? c.size(600) : c.size(c.flag() ? 6 : 40);
    std::string s(n, 'x');
    if (n) { c.fill((uint8_t*)&s[0], n); }
    bool wild = c.chance(1, 3);
    for (char& ch : s) {
        uint8_t b = (uint8_t)ch;
        if (!wild) { b = (uint8_t)"abcXYZ019_ :,{}[]-.+"[b % 20]; }
        if (b == '"' || b == '\\' || b == 0) { b = 'q'; }
        ch = (char)b;
    }
    return s;
}
// long members, and buffers claimed beyond 2^32 (sparse memory)
// a key or value that takes the text beyond 2^31 or 2^32 characters
static void giant(Ctx& c, uint64_t k) {
    c.label("enum:text beyond 2^32");
    c.nontrivial();
    c.distinctKey((k + 1) << 56);
    patience(900);
    size_t n = (1ull << (k % 2 ? 31 : 32)) + c.below(100);
    bool asKey = c.flag();
    // {"k":"xxxx","s":"w"}
    size_t t1 = 1 + 5 + 1 + n, t2 = t1 + 1 + 5 + 2, t3 = t2 + 1;
    Room room(c, t3);
    if (!room) { return; }
    Giant big(n + 1, 'x');
    if (!big.p) { return; }
    big.p[n] = 0;
    const char *K = asKey ? (const char*)big.p : "k", *V = asKey ? "k" : (const char*)big.p;
    std::string head = asKey ? "{\"" : "{\"k\":\"", mid = asKey ? "\":\"k\"" : "\"", tail = mid + ",\"s\":\"w\"}";
    for (size_t B : {t3 + 1, t1, (t1 & 0xFFFFFFFF) + 1}) {
        Giant g(B, 0x61);
        if (!g.p) { return; }
        char* t = (char*)g.p;
        if (B < 2) { continue; }
        if (!Json_startString(t, B)) { c.fail("start in a buffer of %zu bytes failed", B); }
        bool fits = t1 + 1 <= B;
        if (Json_addData(t, B, K, V) != fits) { c.fail("adding a member of %zu characters in a buffer of %zu bytes returned %d", n, B, !fits); }
        alive();
        if (!fits) {
            if (t[0] != '{' || t[1] != 0) { c.fail("a refused member changed the text in a buffer of %zu bytes", B); }
            expectAll(c, "buffer after a refused member", g.p, 2, B, 0x61);
            continue;
        }
        if (!Json_addData(t, B, "s", "w")) { c.fail("adding after a member of %zu characters in a buffer of %zu bytes failed", n, B); }
        alive();
        if (Json_addData(t, B, "", "")) { c.fail("a member beyond the buffer of %zu bytes was accepted", B); }
        if (!Json_endString(t, B)) { c.fail("closing a text of %zu characters in a buffer of %zu bytes failed", t2, B); }
        alive();
        expectBytes(c, "text before the long string", g.p, (const uint8_t*)head.data(), head.size());
        expectAll(c, "long string in the text", g.p, head.size(), head.size() + n, 'x');
        expectBytes(c, "text after the long string", g.p + head.size() + n, (const uint8_t*)tail.c_str(), tail.size() + 1);
    }
}
static uint64_t plain(bool thorough) { return thorough ? 64 : 24; }
uint64_t enumCount(bool thorough) { return plain(thorough) + (thorough ? 6 : 1); }
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    if (i >= plain(thorough)) { giant(c, i - plain(thorough)); return; }
    c.nontrivial();
    c.distinctKey(i);
    std::string k1(i % 4 == 1 ? bigSize(c, i / 4 % 12) : 1 + c.below(20), 'k'), v1(i % 4 == 2 ? bigSize(c, i / 4 % 12) : c.below(300), 'v'), k2 = "second", v2(c.below(40), 'w');
    std::string t1 = "{\"" + k1 + "\":\"" + v1 + "\"", t2 = t1 + ",\"" + k2 + "\":\"" + v2 + "\"", t3 = t2 + "}";
    Buf K(c, k1.c_str(), k1.size() + 1), V(c, v1.c_str(), v1.size() + 1), K2(c, k2.c_str(), k2.size() + 1), V2(c, v2.c_str(), v2.size() + 1);
    if (i % 4 == 3) {
        c.label("enum:buffer beyond 2^32");
        size_t B = (1ull << 32) + c.below(200);
        uint8_t* b = sparse(B);
        if (!b) { c.label("sparse memory refused"); return; }
        char* t = (char*)b;
        if (!Json_startString(t, B) || !Json_addData(t, B, (const char*)K.p, (const char*)V.p) || !Json_addData(t, B, (const char*)K2.p, (const char*)V2.p) || !Json_endString(t, B)) {
            c.fail("building in a buffer of %zu bytes failed", B);
        }
        expectBytes(c, "text", b, (const uint8_t*)t3.c_str(), t3.size() + 1);
        sparseFree(b, B);
        return;
    }
    c.label("enum:around and beyond 65536 characters");
    for (size_t B : {t3.size() + 1, t3.size(), t2.size(), t1.size() + 1, t1.size(), (t1.size() & 0xFFFF) + 2, t3.size() + 70000}) {
        Buf b(c, B);
        b.set(0x61);
        char* t = (char*)b.p;
        if (B < 2) { continue; }
        auto expect = [&](const char* what, bool got, const std::string& text, const std::vector<uint8_t>& before) {
            bool fits = text.size() + 1 <= B;
            checkGuards(c, what);
            if (got != fits) { c.fail("%s returned %d in a buffer of %zu bytes; the resulting text needs %zu", what, got, B, text.size() + 1); }
            if (fits) { expectBytes(c, what, b.p, (const uint8_t*)text.c_str(), text.size() + 1); } else { expectSame(c, what, b, before); }
            return fits;
        };
        std::string m = "{";
        auto before = b.copy();
        expect("start", Json_startString(t, B), m, before);
        before = b.copy();
        bool first = expect("add", Json_addData(t, B, (const char*)K.p, (const char*)V.p), t1, before);
        if (first) { m = t1; }
        std::string n = m + (first ? "," : "") + "\"" + k2 + "\":\"" + v2 + "\"";
        before = b.copy();
        if (expect("add", Json_addData(t, B, (const char*)K2.p, (const char*)V2.p), n, before)) { m = n; }
        before = b.copy();
        expect("end", Json_endString(t, B), m + "}", before);
    }
    c.evals(7);
}
void runCase(Ctx& c) {
    unsigned k = (unsigned)c.below(c.chance(1, 10) ? 13 : 5);
    std::vector<std::pair<std::string, std::string>> mem;
    std::vector<size_t> need{2};
    size_t len = 1;
    for (unsigned i = 0; i < k; ++i) {
        mem.push_back({word(c), word(c)});
        len += mem[i].first.size() + mem[i].second.size() + 5 + (i ? 1 : 0);
        need.push_back(len + 1);
    }
    need.push_back(len + 2);
    size_t B = 0;
    switch (c.below(5)) {
        case 0: B = need.back() + c.size(100); c.label("size:roomy"); break;
        case 1: B = c.below(12); c.label("size:tiny"); break;
        case 2: B = c.size(need.back() + 4); c.label("size:random"); break;
        default: {
            size_t x = need[c.below(need.size())] + c.below(5);
            B = x >= 2 ? x - 2 : 0;
            c.label("size:at a step's need");
        }
    }
    Buf buf(c, B);
    c.fill(buf.p, B);
    char* text = (char*)buf.p;
    NOTE(c, "buffer of %zu bytes", B);
    // "whatever the size": adding to an empty text must stay inside the buffer too
    if (B >= 1 && c.chance(1, 10)) {
        std::string kk = word(c), vv = word(c);
        Buf kb(c, kk.c_str(), kk.size() + 1), vb(c, vv.c_str(), vv.size() + 1);
        text[0] = 0;
        (void)Json_addData(text, B, (const char*)kb.p, (const char*)vb.p);
        checkGuards(c, "add to an empty text");
        if (memchr(text, 0, B) == nullptr) { c.fail("adding to an empty text in %zu bytes leaves no terminator", B); }
        text[0] = 0;
        (void)Json_endString(text, B);
        checkGuards(c, "end of an empty text");
        c.label("empty text");
    }
    std::string model;
    bool open = false;
    unsigned accepted = 0, refused = 0;
    unsigned rounds = c.chance(1, 8) ? 2 : 1;
    for (unsigned round = 0; round < rounds; ++round) {
        auto step = [&](const char* name, bool ok, const std::string& want, const std::vector<uint8_t>& before) {
            checkGuards(c, name);
            bool fits = want.size() + 1 <= B;
            NOTE(c, "%s -> %d", name, ok);
            if (ok != fits) { c.fail("%s returned %d in a buffer of %zu bytes; the resulting text needs %zu", name, ok, B, want.size() + 1); }
            if (fits) {
                expectBytes(c, name, buf.p, (const uint8_t*)want.c_str(), want.size() + 1);
                model = want;
            } else {
                expectSame(c, (std::string("buffer after refused ") + name).c_str(), buf, before);
            }
            return fits;
        };
        auto before = buf.copy();
        if (!step("start", Json_startString(text, B), "{", before)) {
            if (B == 0) { return; }
            text[0] = 0;
            model.clear();
            before = buf.copy();
            Buf kb(c, "k", 2), vb(c, "v", 2);
            step("add in a 1-byte buffer", Json_addData(text, B, (const char*)kb.p, (const char*)vb.p), "\"k\":\"v\"", before);
            step("end in a 1-byte buffer", Json_endString(text, B), "}", before);
            return;
        }
        open = true;
        accepted = 0;
        for (unsigned i = 0; i < k; ++i) {
            if (c.chance(1, 16)) { continue; }
            Buf kb(c, mem[i].first.c_str(), mem[i].first.size() + 1), vb(c, mem[i].second.c_str(), mem[i].second.size() + 1);
            auto kc = kb.copy(), vc = vb.copy();
            std::string want = model + (accepted ? "," : "") + "\"" + mem[i].first + "\":\"" + mem[i].second + "\"";
            before = buf.copy();
            NOTE(c, "member %s:%s", quoted(kb.p, kb.n - 1, 20).c_str(), quoted(vb.p, vb.n - 1, 20).c_str());
            if (step("add", Json_addData(text, B, (const char*)kb.p, (const char*)vb.p), want, before)) { ++accepted; } else { ++refused; }
            expectSame(c, "key", kb, kc);
            expectSame(c, "value", vb, vc);
            c.nontrivial();
        }
        before = buf.copy();
        bool e = step("end", Json_endString(text, B), model + "}", before);
        c.label(e ? "closed" : "close refused");
        if (accepted && refused) { c.label("accepted after or before a refusal"); }
    }
    (void)open;
}
}  // namespace im
