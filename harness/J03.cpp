#include <algorithm>
#include "engine.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"J03",
    "arbitrary buffers of 0..600 (rarely 70000) bytes: token soup of quotes, colons, the key, whitespace, NULs and random bytes, cut or mutated documents, raw bytes; "
    "any key (quotes allowed) and capacity. Non-trivial: buffer not empty and the key occurs in it or it holds a quote",
    500000, 8000000, 120000, 5000000, 2048};

static void one(Ctx& c, size_t big) {
    std::string q;
    size_t qn = c.size(c.chance(1, 20) ? 300 : 8);
    for (size_t i = 0; i < qn; ++i) {
        uint8_t b = c.chance(1, 3) ? c.byte() : (uint8_t)"abk\":{ }"[c.below(8)];
        q += (char)(b ? b : 'k');
    }
    std::string t;
    unsigned style = (unsigned)c.below(3);
    if (style == 0) {
        size_t n = big ? big : c.chance(1, 1000) ? c.size(70000) : c.size(100);
        t.resize(n);
        if (n) { c.fill((uint8_t*)&t[0], n); }
        c.label("raw bytes");
    } else if (style == 1) {
        size_t toks = c.size(40);
        for (size_t i = 0; i < (big ? big : toks) && t.size() < (big ? big : 600); ++i) {
            switch (c.below(12)) {
                case 0: case 1: case 2: t += '"'; break;
                case 3: t += ':'; break;
                case 4: case 5: t += q; break;
                case 6: t += "\"" + q + "\""; break;
                case 7: t += "\"" + q + "\":\""; break;
                case 8: t += ' '; break;
                case 9: t += c.pick({'{', '}', ',', '\\', '\n'}); break;
                case 10: t += '\0'; break;
                default: t += (char)c.byte();
            }
        }
        c.label("token soup");
    } else {
        std::string v(big ? big : c.size(20), 'v');
        t = "{\"a\":\"b\",\"" + q + "\" : \"" + v + "\",\"z\":\"" + q + "\"}";
        unsigned k = (unsigned)c.below(4);
        while (k-- && !t.empty()) { t[c.size(t.size() - 1)] = (char)c.byte(); }
        if (c.flag()) { t.resize(c.size(t.size())); }
        c.label("mutated document");
    }
    Buf buf(c, t.data(), t.size()), key(c, q.c_str(), q.size() + 1);
    size_t cap = c.flag() ? c.size(t.size() + 2) : c.below(6);
    Buf val(c, cap);
    val.set(c.byte());
    auto was = val.copy();
    if (!t.empty() && (t.find(q) != std::string::npos || t.find('"') != std::string::npos)) { c.nontrivial(); }
    NOTE(c, "buffer %s, key %s, capacity %zu", quoted(t.data(), t.size(), 200).c_str(), quoted(q.data(), q.size()).c_str(), cap);
    bool ok = Json_findByKey((const char*)buf.p, buf.n, (const char*)key.p, (char*)val.p, cap);
    checkGuards(c, "lookup");
    expectSame(c, "buffer", buf, std::vector<uint8_t>(t.begin(), t.end()));
    if (memcmp(key.p, q.c_str(), key.n) != 0) { c.fail("the key was modified"); }
    c.label(ok ? "found" : "not found");
    if (!ok) { expectSame(c, "output of a failed lookup", val, was); }
    if (ok) {
        // some quote-enclosed, quote-free piece of the buffer, terminated, must be what was delivered
        bool match = false;
        size_t open = std::string::npos;
        for (size_t i = 0; i < t.size() && !match; ++i) {
            if (t[i] != '"') { continue; }
            if (open != std::string::npos) {
                size_t n = i - open - 1;
                match = n + 1 <= cap && memcmp(val.p, t.data() + open + 1, n) == 0 && val[n] == 0;
            }
            open = i;
        }
        if (!match) {
            c.fail("lookup of %s in %s with capacity %zu succeeded but delivered %s", quoted(q.data(), q.size()).c_str(), quoted(t.data(), t.size(), 300).c_str(), cap,
                   quoted(val.p, cap).c_str());
        }
    }
}
void runCase(Ctx& c) { one(c, 0); }
uint64_t enumCount(bool thorough) { return thorough ? 400 : 40; }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.label("enum:around and beyond 65536 characters");
    c.distinctKey(i);
    one(c, bigSize(c, i % 10));
}
}  // namespace im
