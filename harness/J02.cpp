#include <algorithm>
#include "engine.hpp"
#include "giant.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"J02",
    "well-formed flat objects of 0..9 members whose keys and values are related (prefixes, suffixes, substrings, equal, structural characters, the queried key "
    "inside values), random whitespace, queried key present or closely related, value capacity round the exact need, buffer with exact size or with terminator and stale tail. "
    "Strings, texts and capacities beyond 2^32 enumerated. Non-trivial: at least two members, or one member that has or contains the queried key",
    400000, 6000000, 100000, 4000000, 2048};

static std::string raw(Ctx& c, size_t max) {
    size_t n = c.size(max);
    std::string s(n, 'x');
    if (n) { c.fill((uint8_t*)&s[0], n); }
    bool wild = c.chance(1, 4);
    for (char& ch : s) {
        uint8_t b = (uint8_t)ch;
        if (!wild) { b = (uint8_t)"abkeyXY01_ :,{}[]-"[b % 18]; }
        if (b < 0x20 || b == '"' || b == '\\' || b == 0x7F) { b = 'q'; }
        ch = (char)b;
    }
    return s;
}
// a string related to `q`
static std::string related(Ctx& c, const std::string& q) {
    switch (c.below(13)) {
        case 0: return q;
        case 1: return q + raw(c, 4);
        case 2: return raw(c, 4) + q;
        case 3: return raw(c, 3) + q + raw(c, 3);
        case 4: return q.substr(0, c.size(q.size()));
        case 5: return q.substr(c.size(q.size()));
        case 6: return q + q;
        case 7: { std::string s = q; if (!s.empty()) { size_t i = c.size(s.size() - 1); s[i] = (char)(s[i] ^ 1); if (s[i] == '"' || s[i] == '\\') { s[i] = 'z'; } } return s; }
        case 8: return c.pick({":", ",", "{", "}", " ", ": ", " :", ",:", "}:", "{:"}) + (c.flag() ? q : std::string());
        case 9: return q + ":" + raw(c, 3);
        case 10: return "";
        case 11: return q + c.pick({":", ": ", " : ", ",", "}"});
        default: return raw(c, 8);
    }
}
static std::string ws(Ctx& c, bool any) {
    if (!any) { return ""; }
    std::string s;
    unsigned n = (unsigned)c.below(4);
    while (n--) { s += c.pick({' ', '\t', '\n', '\r'}); }
    if (c.chance(1, 400)) { s.append(c.size(300), ' '); }
    return s;
}
static std::string object(Ctx& c, const std::vector<std::pair<std::string, std::string>>& m, bool spaced) {
    std::string t = ws(c, spaced) + "{" + ws(c, spaced);
    for (size_t i = 0; i < m.size(); ++i) {
        if (i) { t += "," + ws(c, spaced); }
        t += "\"" + m[i].first + "\"" + ws(c, spaced) + ":" + ws(c, spaced) + "\"" + m[i].second + "\"" + ws(c, spaced);
    }
    return t + "}" + ws(c, spaced);
}
// long keys, values, texts and claimed sizes
// texts whose first value or key is longer than 2^31 or 2^32 characters
static void giant(Ctx& c, uint64_t k) {
    c.label("enum:string beyond 2^32 in the text");
    c.nontrivial();
    c.distinctKey((k + 1) << 56);
    patience(900);
    size_t n = (1ull << (k % 4 < 3 ? 32 : 31)) + 1 + c.below(100);
    bool asKey = k % 4 == 1;
    std::string head = asKey ? "{\"" : "{\"k\":\"", tail = asKey ? "\":\"k\",\"x\":\"w\"}" : "\",\"x\":\"w\"}";
    Giant g(head.size() + n + tail.size(), 'x');
    if (!g.p) { return; }
    memcpy(g.p, head.data(), head.size());
    memcpy(g.p + head.size() + n, tail.data(), tail.size());
    Buf small(c, 64);
    auto look = [&](const char* key, size_t cap, const char* want) {
        small.set(0x55);
        bool got = Json_findByKey((const char*)g.p, g.n, key, (char*)small.p, cap);
        alive();
        checkGuards(c, "lookup");
        if (got != (want != nullptr)) { c.fail("lookup of '%s' with capacity %zu in a text with a string of %zu characters returned %d", key, cap, n, got); }
        if (want && strcmp(small.c_str(), want) != 0) { c.fail("lookup of '%s' in a text with a string of %zu characters delivered '%s', expected '%s'", key, n, small.c_str(), want); }
    };
    std::string same(n & 0x7FFFFFFF, 'x');  // as long as the long string modulo 2^32 or 2^31
    if (asKey) {
        look(same.c_str(), 64, same == "x" ? "w" : nullptr);
        look("x", 64, "w");
        return;
    }
    if (k % 4 == 0) {
        look("x", 2, "w");
        look("k", same.size() < 64 ? same.size() + 1 : 64, nullptr);
        return;
    }
    // the long value itself
    Room room(c, n);
    if (!room) { return; }
    Giant v(n + 1, 0x55);
    if (!v.p) { return; }
    if (Json_findByKey((const char*)g.p, g.n, "k", (char*)v.p, n)) { c.fail("a value of %zu characters was delivered into a capacity of %zu", n, n); }
    alive();
    if (!Json_findByKey((const char*)g.p, g.n, "k", (char*)v.p, n + 1)) { c.fail("a value of %zu characters was not delivered into a capacity of %zu", n, n + 1); }
    alive();
    expectAll(c, "long value", v.p, 0, n, 'x');
    if (v.p[n] != 0) { c.fail("a value of %zu characters is not terminated", n); }
}
static uint64_t plain(bool thorough) { return thorough ? 80 : 24; }
uint64_t enumCount(bool thorough) { return plain(thorough) + (thorough ? 8 : 3); }
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    if (i >= plain(thorough)) { giant(c, i - plain(thorough)); return; }
    c.nontrivial();
    c.distinctKey(i);
    size_t L = bigSize(c, i / 4 % 12);
    std::string q = i % 4 == 0 ? std::string(L, 'k') : "key", want = i % 4 == 1 ? std::string(L, 'v') : "value";
    std::vector<std::pair<std::string, std::string>> m;
    if (i % 4 == 0) { m.push_back({std::string(L & 0x7FFF, 'k'), "x"}); m.push_back({std::string(L - 1, 'k'), "y"}); }
    if (i % 4 == 2) { m.push_back({"filler", std::string(L, 'f')}); m.push_back({std::string(L / 2, 'g'), "key"}); }
    m.push_back({q, want});
    m.push_back({q, "later"});
    std::string text = object(c, m, i / 4 % 2 == 1);
    if (i / 4 % 4 == 3) {  // and a long run of spaces
        size_t at = text.find(i % 8 < 4 ? ':' : '"');
        text.insert(at, 66000, c.pick({' ', '\n'}));
    }
    Buf key(c, q.c_str(), q.size() + 1);
    auto look = [&](const uint8_t* b, size_t size, size_t cap) {
        Buf val(c, std::min<size_t>(cap, want.size() + 100));
        val.set(0x77);
        bool got = Json_findByKey((const char*)b, size, (const char*)key.p, (char*)val.p, cap);
        checkGuards(c, "lookup");
        bool expect = cap >= want.size() + 1;
        if (got != expect) { c.fail("lookup of a key of %zu with value of %zu characters, text of %zu in a buffer of %zu, capacity %zu, returned %d", q.size(), want.size(), text.size(), size, cap, got); }
        if (got && memcmp(val.p, want.c_str(), want.size() + 1) != 0) { c.fail("lookup of a key of %zu with value of %zu characters, text of %zu: another value was delivered", q.size(), want.size(), text.size()); }
    };
    if (i % 4 == 3) {
        c.label("enum:sizes beyond 2^32");
        size_t B = (1ull << 32) + c.below(40);
        uint8_t* b = sparse(B);
        if (!b) { c.label("sparse memory refused"); return; }
        memcpy(b, text.data(), text.size());
        look(b, B, want.size() + 1);
        sparseFree(b, B);
        uint8_t* v = sparse(B);
        if (!v) { return; }
        Buf t(c, text.data(), text.size());
        if (!Json_findByKey((const char*)t.p, t.n, (const char*)key.p, (char*)v, B) || strcmp((const char*)v, want.c_str()) != 0) { c.fail("lookup with capacity %zu failed", B); }
        sparseFree(v, B);
        return;
    }
    c.label("enum:around and beyond 65536 characters");
    Buf t(c, text.data(), text.size());
    for (size_t cap : {want.size() + 1, want.size(), (want.size() + 1) & 0xFFFF, want.size() + 50}) { look(t.p, t.n, cap); }
    c.evals(4);
}
void runCase(Ctx& c) {
    std::string q = raw(c, c.chance(1, 20) ? 400 : 10);
    size_t k = c.below(c.chance(1, 8) ? 10 : 5);
    std::vector<std::pair<std::string, std::string>> m;
    for (size_t i = 0; i < k; ++i) {
        std::string key = c.chance(3, 4) ? related(c, q) : raw(c, 12);
        std::string val = c.chance(1, 2) ? related(c, q) : raw(c, c.chance(1, 3000) ? 70000 : c.chance(1, 15) ? 700 : 30);
        m.push_back({key, val});
    }
    if (k && c.chance(1, 2)) { m[c.below(k)].first = q; }
    const std::string* want = nullptr;
    bool touching = false;
    for (auto& x : m) {
        if (!want && x.first == q) { want = &x.second; }
        touching |= x.first.find(q) != std::string::npos || x.second.find(q) != std::string::npos;
    }
    bool spaced = c.flag();
    std::string text = object(c, m, spaced);
    // buffer: exact, or with terminator and a stale tail
    std::string store = text;
    if (c.flag()) {
        store += '\0';
        if (c.flag()) {
            std::vector<std::pair<std::string, std::string>> old{{q, raw(c, 8)}, {related(c, q), q}};
            store += object(c, old, false).substr(c.below(4));
            c.label("stale tail");
        } else {
            store += raw(c, 12);
        }
    }
    Buf buf(c, store.data(), store.size());
    Buf key(c, q.c_str(), q.size() + 1);
    size_t need = want ? want->size() + 1 : 1 + c.size(20), cap = need;
    switch (c.below(5)) {
        case 0: case 1: cap = need + c.size(40); break;
        case 2: break;
        case 3: cap = need - std::min<size_t>(need, 1 + c.below(3)); break;
        default: cap = c.size(need + 3);
    }
    Buf val(c, cap);
    val.set(c.byte());
    bool expect = want && cap >= want->size() + 1;
    NOTE(c, "text %s, size %zu, key %s, capacity %zu", quoted(text.data(), text.size(), 200).c_str(), store.size(), quoted(q.data(), q.size()).c_str(), cap);
    c.label(!want ? "absent" : expect ? "present, fits" : "present, too long");
    if (touching && !want) { c.label("absent but occurring as a substring"); }
    if (k >= 2 || touching) { c.nontrivial(); }
    auto bb = buf.copy(), kb = key.copy();
    bool got = Json_findByKey((const char*)buf.p, buf.n, (const char*)key.p, (char*)val.p, cap);
    checkGuards(c, "lookup");
    if (got != expect) {
        c.fail("lookup of %s with capacity %zu in %s (size %zu) returned %d", quoted(q.data(), q.size()).c_str(), cap, quoted(text.data(), text.size(), 300).c_str(), store.size(), got);
    }
    if (got && memcmp(val.p, want->c_str(), want->size() + 1) != 0) {
        c.fail("lookup of %s in %s delivered %s, expected %s", quoted(q.data(), q.size()).c_str(), quoted(text.data(), text.size(), 300).c_str(),
               quoted(val.p, want->size() + 1).c_str(), quoted(want->data(), want->size()).c_str());
    }
    expectSame(c, "buffer", buf, bb);
    expectSame(c, "key", key, kb);
}
}  // namespace im
