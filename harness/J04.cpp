#include <algorithm>
#include "engine.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"J04",
    "texts of 0..12 members (rarely 60) put together by the builder in a buffer that fits everything or is too small for some members, keys and values of any bytes but NUL, quote and backslash, "
    "keys related to one another; then each accepted key and several that were not accepted are looked up in the buffer with exact, larger and too small capacities. "
    "Non-trivial: at least two accepted members",
    200000, 4000000, 15000, 1000000, 2048};

static std::string text(Ctx& c, size_t max, unsigned style) {
    std::string s(c.size(max), 'x');
    if (!s.empty()) { c.fill((uint8_t*)&s[0], s.size()); }
    for (char& ch : s) {
        if (style == 0) { ch = "ab:,{} "[(uint8_t)ch % 7]; }
        if (style == 1) { ch = (char)('a' + (uint8_t)ch % 26); }
        if (ch == 0 || ch == '"' || ch == '\\') { ch = '_'; }
    }
    return s;
}
static void lookup(Ctx& c, const Buf& buf, const std::string& k, const std::string* want, size_t cap, size_t members) {
    Buf key(c, k.c_str(), k.size() + 1), val(c, cap);
    val.set(0x6D);
    bool got = Json_findByKey(buf.c_str(), buf.n, key.c_str(), val.c_str(), cap);
    checkGuards(c, "lookup");
    bool expect = want && cap > want->size();
    if (got != expect) {
        c.fail("lookup of key %s with capacity %zu in a built text of %zu members returned %d (%s): %s", quoted(k.data(), k.size()).c_str(), cap, members, got,
               want ? "it was added" : "it was not added", quoted(buf.p, strlen(buf.c_str()), 300).c_str());
    }
    if (got && memcmp(val.p, want->c_str(), want->size() + 1) != 0) {
        c.fail("lookup of key %s in a built text delivered %s, the value added was %s", quoted(k.data(), k.size()).c_str(), quoted(val.p, std::min(cap, want->size() + 1)).c_str(), quoted(want->data(), want->size()).c_str());
    }
}
typedef std::vector<std::pair<std::string, std::string>> Members;
static void check(Ctx& c, const Members& m, size_t size, const std::vector<std::string>& strangers) {
    Buf buf(c, size);
    if (size) { c.fill(buf.p, size); }
    Members in;
    std::vector<std::string> out(strangers);
    if (!Json_startString(buf.c_str(), size)) { c.fail("starting a text in a buffer of %zu failed", size); }
    for (auto& x : m) {
        Buf k(c, x.first.c_str(), x.first.size() + 1), v(c, x.second.c_str(), x.second.size() + 1);
        bool ok = Json_addData(buf.c_str(), size, k.c_str(), v.c_str());
        NOTE(c, "add %s=%s -> %d", quoted(x.first.data(), x.first.size(), 30).c_str(), quoted(x.second.data(), x.second.size(), 30).c_str(), ok);
        if (ok) { in.push_back(x); } else { out.push_back(x.first); }
    }
    bool closed = Json_endString(buf.c_str(), size);
    checkGuards(c, "building");
    if (!closed) {  // an unfinished text promises nothing
        c.label("no room to close");
        return;
    }
    if (in.size() < m.size()) { c.label("some members refused"); }
    if (in.size() > 1) { c.nontrivial(); }
    auto before = buf.copy();
    for (size_t i = 0; i < in.size(); i += size > 60000 ? 1 + in.size() / 12 : 1) {
        auto& x = in[i];
        const std::string* want = nullptr;
        for (auto& y : in) { if (y.first == x.first) { want = &y.second; break; } }
        lookup(c, buf, x.first, want, want->size() + 1, in.size());
        lookup(c, buf, x.first, want, c.flag() ? want->size() : c.size(want->size() + 40), in.size());
    }
    for (auto& k : out) {
        const std::string* want = nullptr;
        for (auto& y : in) { if (y.first == k) { want = &y.second; break; } }
        lookup(c, buf, k, want, want ? want->size() + 1 : 30, in.size());
    }
    expectSame(c, "text", buf, before);
}
void runCase(Ctx& c) {
    size_t n = c.chance(1, 60) ? c.size(60) : c.below(c.chance(1, 4) ? 13 : 5);
    unsigned style = (unsigned)c.below(3);
    Members m;
    size_t total = 3;
    std::vector<std::string> strangers;
    for (size_t i = 0; i < n; ++i) {
        std::string k = text(c, c.chance(1, 30) ? 400 : 8, style), v = text(c, c.chance(1, 20) ? 600 : 12, style);
        if (i && c.chance(1, 3)) { const std::string& p = m[c.below(i)].first; k = c.flag() ? p : c.flag() ? p + k : p.substr(0, c.size(p.size())); }
        if (i && c.chance(1, 5)) { v = m[c.below(i)].first; }
        m.push_back({k, v});
        total += k.size() + v.size() + 6;
        if (c.chance(1, 3)) { strangers.push_back(c.flag() ? v : k + text(c, 2, style)); }
    }
    strangers.push_back(text(c, 8, style));
    size_t size = c.chance(1, 3) ? 3 + c.size(total) : total + c.size(50);
    c.label(n == 0 ? "members:0" : n == 1 ? "members:1" : n < 5 ? "members:2..4" : "members:5+");
    check(c, m, size, strangers);
}
uint64_t enumCount(bool thorough) { return thorough ? 24 : 8; }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.label("enum:strings and texts round 65536");
    c.distinctKey(i);
    size_t L = bigSize(c, i / 2 % 12);
    Members m = {{"first", "1"}};
    if (i % 2) { m.push_back({std::string(L, 'k'), "long key"}); m.push_back({"v", std::string(L - 7, 'v')}); }
    else { for (size_t k = 0, t = 0; t < L; ++k) { m.push_back({"key" + std::to_string(k), std::string(700 + k % 9, 'f')}); t += 720; } }
    m.push_back({"last", "9"});
    size_t total = 3;
    for (auto& x : m) { total += x.first.size() + x.second.size() + 6; }
    check(c, m, total, {"firs", "las", "key"});
    arenaReset();
    check(c, m, total - 20, {"first ", std::string(L - 1, 'k')});
}
}  // namespace im
