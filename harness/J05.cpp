#include <algorithm>
#include <map>
#include "engine.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"J05",
    "well-formed JSON texts: objects (sometimes arrays) of up to 8 members or items nested up to 5 deep, values being strings, numbers in every notation, true, false, null, arrays and objects, "
    "whitespace between any tokens, names and strings drawn from a small pool, related to one another or random (no quote, backslash or NUL); every name that occurs once and strings that are no name "
    "are looked up with exact, larger and too small capacities, the text ended by its size or a NUL. Enumerated: every pair of value kinds before and at the requested name; long numbers, arrays and "
    "deep nesting round and beyond 65536 characters. Non-trivial: at least two names and a value that is no string",
    250000, 5000000, 20000, 1000000, 2048};

struct Name { unsigned count = 0; bool str = false; std::string value; };
struct Doc {
    Ctx& c;
    std::string t;
    std::map<std::string, Name> names;
    std::vector<std::string> strings;  // strings that are values or items
    unsigned spaces, style, left = 60;
    bool other = false;
    explicit Doc(Ctx& ctx) : c(ctx) {
        spaces = c.pick({0, 0, 1, 6});
        style = (unsigned)c.below(3);
    }
    void sp() {
        if (!spaces || !c.chance(spaces, 8)) { return; }
        for (size_t k = 1 + c.size(c.chance(1, 10) ? 12 : 2); k--;) { t += " \t\r\n"[c.below(4)]; }
    }
    std::string text() {
        if (!strings.empty() && c.chance(1, 5)) { return strings[c.below(strings.size())]; }
        if (!names.empty() && c.chance(1, 5)) {
            auto it = names.begin();
            std::advance(it, (long)c.below(names.size()));
            std::string s = it->first;
            switch (c.below(4)) {
                case 0: return s;
                case 1: return s + 'x';
                case 2: return s.empty() ? s : s.substr(1);
                default: return s.empty() ? s : s.substr(0, s.size() - 1);
            }
        }
        if (c.chance(1, 8)) {
            static const char* const P[] = {"", ":", "a:", ":1", "{a:1}", "null", "[1,2]", "a,b", "}", "]", " a ", "true", "a : b", "0"};
            return P[c.below(sizeof P / sizeof *P)];
        }
        std::string s(c.size(c.chance(1, 30) ? 200 : 7), 'x');
        if (!s.empty()) { c.fill((uint8_t*)&s[0], s.size()); }
        for (char& ch : s) {
            if (style == 0) { ch = "ab:,{} []01"[(uint8_t)ch % 11]; }
            if (style == 1) { ch = (char)('a' + (uint8_t)ch % 26); }
            if (ch == 0 || ch == '"' || ch == '\\') { ch = '_'; }
        }
        return s;
    }
    void number() {
        if (c.chance(1, 3)) { t += '-'; }
        if (c.chance(1, 4)) { t += '0'; } else { t += (char)('1' + c.below(9)); for (size_t k = c.size(c.chance(1, 20) ? 60 : 3); k--;) { t += (char)('0' + c.below(10)); } }
        if (c.chance(1, 3)) { t += '.'; for (size_t k = 1 + c.size(4); k--;) { t += (char)('0' + c.below(10)); } }
        if (c.chance(1, 4)) { t += c.pick({'e', 'E'}); if (c.flag()) { t += c.pick({'+', '-'}); } t += (char)('0' + c.below(10)); }
    }
    void value(unsigned depth, Name* name) {
        unsigned k = (unsigned)c.below(10);
        if (left) { --left; }
        if (depth >= 5 || !left) { k %= 6; }
        if (name) { name->str = false; }
        if (k > 3) { other = true; }
        switch (k) {
            case 0: case 1: case 2: case 3: {
                std::string s = text();
                if (name) { name->str = true; name->value = s; }
                strings.push_back(s);
                t += '"' + s + '"';
                break;
            }
            case 4: number(); break;
            case 5: t += c.pick({"true", "false", "null"}); break;
            case 6: case 7: {
                t += '[';
                sp();
                size_t n = c.below(5);
                for (size_t i = 0; i < n; ++i) {
                    if (i) { t += ','; sp(); }
                    value(depth + 1, nullptr);
                    sp();
                }
                t += ']';
                break;
            }
            default: object(depth + 1);
        }
    }
    void object(unsigned depth) {
        t += '{';
        sp();
        size_t n = c.below(depth ? 5 : 9);
        for (size_t i = 0; i < n; ++i) {
            if (i) { t += ','; sp(); }
            std::string k = text();
            t += '"' + k + '"';
            sp();
            t += ':';
            sp();
            Name x;
            ++names[k].count;
            value(depth, &x);
            x.count = names[k].count;
            names[k] = x;
            sp();
        }
        t += '}';
    }
};
static void lookup(Ctx& c, const Buf& store, size_t text, const std::string& k, const Name* x, size_t cap) {
    Buf key(c, k.c_str(), k.size() + 1), val(c, cap);
    val.set(0x6D);
    auto was = val.copy();
    bool got = Json_findByKey(store.c_str(), store.n, key.c_str(), val.c_str(), cap);
    checkGuards(c, "lookup");
    bool expect = x && x->str && cap > x->value.size();
    if (got != expect) {
        c.fail("lookup of %s with capacity %zu returned %d (%s) in %s", quoted(k.data(), k.size()).c_str(), cap, got,
               !x ? "no member has that name" : x->str ? "its value is a string" : "its value is no string", quoted(store.p, text, 400).c_str());
    }
    if (got && memcmp(val.p, x->value.c_str(), x->value.size() + 1) != 0) {
        c.fail("lookup of %s delivered %s, the value is %s, in %s", quoted(k.data(), k.size()).c_str(), quoted(val.p, std::min(cap, x->value.size() + 1)).c_str(),
               quoted(x->value.data(), x->value.size()).c_str(), quoted(store.p, text, 400).c_str());
    }
    if (!got) { expectSame(c, "output of a failed lookup", val, was); }
}
static void checkAll(Ctx& c, Doc& d, const std::vector<std::string>& strangers, size_t maxNames) {
    size_t n = d.t.size();
    unsigned end = (unsigned)c.below(3);  // ends with the buffer, with a NUL, with a NUL and bytes after it
    Buf store(c, n + (end == 0 ? 0 : end == 1 ? 1 : 2 + c.below(20)));
    if (store.n > n) { c.fill(store.p, store.n); store[n] = 0; }
    memcpy(store.p, d.t.data(), n);
    auto before = store.copy();
    NOTE(c, "%s", quoted(d.t.data(), n, 400).c_str());
    size_t done = 0;
    for (auto& p : d.names) {
        if (p.second.count != 1 || done++ >= maxNames) { continue; }
        size_t w = p.second.str ? p.second.value.size() : 40;
        lookup(c, store, n, p.first, &p.second, w + 1);
        lookup(c, store, n, p.first, &p.second, c.flag() ? w : c.size(w + 40));
        c.label(p.second.str ? "string found" : "other value refused");
    }
    for (auto& s : strangers) {
        if (d.names.count(s)) { continue; }
        c.label("string that is no name");
        lookup(c, store, n, s, nullptr, 40 + c.below(40));
    }
    expectSame(c, "text", store, before);
}
void runCase(Ctx& c) {
    Doc d(c);
    d.sp();
    if (c.chance(1, 8)) {
        d.t += '[';
        size_t n = c.below(4);
        for (size_t i = 0; i < n; ++i) { if (i) { d.t += ','; } d.sp(); d.value(1, nullptr); d.sp(); }
        d.t += ']';
        d.other = true;
        c.label("root:array");
    } else {
        d.object(0);
        c.label("root:object");
    }
    d.sp();
    std::vector<std::string> strangers;
    for (size_t i = 0; i < d.strings.size() && i < 4; ++i) { strangers.push_back(d.strings[d.strings.size() - 1 - i]); }
    strangers.push_back(d.text());
    strangers.push_back(d.text());
    c.label(d.names.empty() ? "names:0" : d.names.size() == 1 ? "names:1" : d.names.size() < 6 ? "names:2..5" : "names:6+");
    if (d.names.size() > 1 && d.other) { c.nontrivial(); }
    checkAll(c, d, strangers, 12);
}
static const char* const VALUES[] = {"\"v\"", "\"\"", "\":\"", "\"key\"", "0", "-1", "12345678901234567890", "0.5", "-2.25e-7", "1E+9", "true", "false", "null", "[]", "[1,2]", "[\"key\"]", "[\"key\",\"key\"]",
                                     "[[\"key\"],{}]", "{}", "{\"x\":\"key\"}", "{\"ke\":1}", "{\"keyx\":\"key\"}", "[{\"x\":[null]},\"key\"]"};
static const size_t NV = sizeof VALUES / sizeof *VALUES;
static const uint64_t PAIRS = NV;
uint64_t enumCount(bool thorough) { return PAIRS + (thorough ? 60 : 12); }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.nontrivial();
    if (i < PAIRS) {
        c.label("enum:pairs of value kinds");
        uint64_t cnt = 0;
        for (size_t v = 0; v < NV; ++v) {
            for (unsigned shape = 0; shape < 8; ++shape, ++cnt) {
                arenaReset();
                Doc d(c);
                std::string s = shape & 1 ? " \n" : "", a = VALUES[i], b = VALUES[v];
                d.t = s + "{" + s + "\"first\"" + s + ":" + s + a + s + "," + s;
                if (shape & 2) { d.t += "\"in\":[" + b + s + "," + s + "{"; }
                d.t += "\"key\"" + s + ":" + s + b + s;
                if (shape & 2) { d.t += "}" + s + "]" + s; }
                if (shape & 4) { d.t += s + "," + s + "\"last\":" + a + s; }
                d.t += "}" + s;
                Name x;
                x.count = 1;
                x.str = b[0] == '"';
                if (x.str) { x.value = b.substr(1, b.size() - 2); }
                d.names["key"] = x;
                x.str = a[0] == '"';
                x.value = x.str ? a.substr(1, a.size() - 2) : "";
                d.names["first"] = x;
                if (shape & 4) { d.names["last"] = x; }
                checkAll(c, d, {"v", "ke", "ey", "keyxx", "firs", "tru", "null", "12345678901234567890", "0", "{}"}, 5);
                // "in", "x", "ke" and "keyx" are names in some of the texts
                c.distinctKey(i << 32 | v << 8 | shape);
            }
        }
        c.evals(cnt);
        return;
    }
    i -= PAIRS;
    c.label("enum:texts round and beyond 65536");
    c.distinctKey(1ull << 40 | i);
    size_t L = bigSize(c, i / 4 % 10);
    Doc d(c);
    Name x;
    x.count = 1;
    x.str = true;
    x.value = "1";
    d.t = "{\"first\":\"1\",\"long\":";
    d.names["first"] = x;
    switch (i % 4) {
        case 0: d.t += std::string(L, '7'); break;
        case 1: d.t += '['; while (d.t.size() < L) { d.t += "12,\"last\" ,"; } d.t += "0]"; break;
        case 2: d.t += std::string(L, '[') + "\"last\"" + std::string(L, ']'); break;
        default: for (size_t k = 0; k < L / 4; ++k) { d.t += "{\"n\":"; } d.t += "3" + std::string(L / 4, '}'); d.names["n"].count = (unsigned)(L / 4); break;
    }
    x.str = false;
    d.names["long"] = x;
    d.t += ",\"last\":\"9\",\"number\":12}";
    x.str = true;
    x.value = "9";
    d.names["last"] = x;
    x.str = false;
    d.names["number"] = x;
    checkAll(c, d, {"las", "7", "12", "0", "ong", std::string(L, '7')}, 9);
}
}  // namespace im
