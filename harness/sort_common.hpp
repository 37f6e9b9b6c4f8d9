#pragma once
#include <algorithm>
#include <unordered_set>
#include "engine.hpp"
#include "giant.hpp"
#include "lib.hpp"

namespace srt {
using namespace im;
typedef std::vector<uint8_t> Bytes;

// An ordering on elements: a part of the element, read as bytes or as a
// little-endian number, possibly coarsened, possibly descending.
struct Order {
    size_t off = 0, w = 1;
    int style = 0;  // 0 lexicographic bytes, 1 unsigned number, 2 signed number, 3 coarse (number / 2^k)
    unsigned coarse = 0;
    bool desc = false;
    int cmp3(const uint8_t* a, const uint8_t* b) const {
        int r;
        if (style == 0) {
            r = memcmp(a + off, b + off, w);
        } else {
            uint64_t x = 0, y = 0;
            for (size_t i = w; i-- > 0;) {
                x = x << 8 | a[off + i];
                y = y << 8 | b[off + i];
            }
            if (style == 2) {
                uint64_t s = 1ull << (8 * w - 1);
                x ^= s;
                y ^= s;
            }
            if (style == 3) {
                x >>= coarse;
                y >>= coarse;
            }
            r = x < y ? -1 : x > y;
        }
        return desc ? -r : r;
    }
};
struct State {
    Ctx* c = nullptr;
    Order ord;
    const uint8_t* base = nullptr;
    size_t n = 0, es = 0;
    bool judge = false;  // check the pointers
    std::unordered_set<std::string> originals;
    uint64_t calls = 0, copies = 0;
};
inline State& state() {
    static State s;
    return s;
}
inline void judgePointer(const uint8_t* p, const char* which) {
    State& s = state();
    if (p >= s.base && p < s.base + s.n * s.es) {
        if ((size_t)(p - s.base) % s.es != 0) { s.c->fail("the %s comparator argument points %zu bytes into an element", which, (size_t)(p - s.base) % s.es); }
        return;
    }
    if (inArena(p)) {
        s.c->fail("the %s comparator argument points outside the array of %zu elements: element index %td%s", which, s.n,
                  (p - s.base - (p < s.base ? (ptrdiff_t)s.es - 1 : 0)) / (ptrdiff_t)s.es, "");
    }
    // a private copy: must hold one of the elements
    ++s.copies;
    if (s.originals.empty() && s.n) {
        // filled lazily by the caller for small arrays
    }
    if (!s.originals.empty() && !s.originals.count(std::string((const char*)p, s.es))) {
        s.c->fail("the %s comparator argument holds %s, which is no element of the array", which, hex(p, s.es, 24).c_str());
    }
}
inline bool compare(void* a, void* b) {
    State& s = state();
    if ((++s.calls & 0xFFFFF) == 0) {  // slow is not stuck
        if (s.calls > 2 * (uint64_t)s.n * s.n + 1000000) { s.c->fail("%llu comparisons for %zu elements: no termination", (unsigned long long)s.calls, s.n); }
        alive();
    }
    if (s.judge) {
        judgePointer((const uint8_t*)a, "first");
        judgePointer((const uint8_t*)b, "second");
    }
    return s.ord.cmp3((const uint8_t*)a, (const uint8_t*)b) > 0;
}

typedef void (*SortFn)(byte_t*, int32_t, int32_t, bool (*)(void*, void*));
struct Algo { const char* name; SortFn f; size_t maxElem; };
static const Algo ALGOS[] = {{"bubble", BubbleSort_sort, 5000}, {"heap", HeapSort_sort, 5000}, {"insertion", InsertionSort_sort, 64}, {"selection", SelectionSort_sort, 5000}};

inline Order order(Ctx& c, size_t es) {
    Order o;
    o.desc = c.flag();
    o.style = (int)c.below(4);
    o.w = es;
    if (o.style) { o.w = std::min<size_t>(es, c.pick({1, 2, 4, 8, 3})); }
    else if (c.flag()) { o.w = 1 + c.size(es - 1); }
    o.off = c.flag() ? 0 : c.size(es - o.w);
    o.coarse = o.style == 3 ? (unsigned)c.below(8 * o.w) : 0;
    return o;
}
struct Arr { size_t n, es; const char* shape; };
// fill an array in a shape; the key part of element i is derived from a rank
inline const char* shapeFill(Ctx& c, uint8_t* p, size_t n, size_t es, const Order& o) {
    c.fill(p, n * es);
    auto put = [&](size_t i, uint64_t v) {  // monotone encoding of v in the key part
        uint8_t* k = p + i * es + o.off;
        if (o.style == 0) {
            for (size_t j = 0; j < o.w; ++j) { size_t sh = 8 * (o.w - 1 - j); k[j] = sh < 64 ? (uint8_t)(v >> sh) : 0; }
        } else {
            for (size_t j = 0; j < o.w; ++j) { k[j] = j < 8 ? (uint8_t)(v >> (8 * j)) : 0; }
        }
    };
    unsigned s = (unsigned)c.below(10);
    uint64_t mod = o.w >= 8 ? 0 : 1ull << (8 * std::min<size_t>(o.w, 7) - (o.style == 2 ? 1 : 0));
    auto m = [&](uint64_t v) { return mod ? v % mod : v; };
    switch (s) {
        case 0: case 1: case 2: return "shape:random";
        case 3: for (size_t i = 0; i < n; ++i) { put(i, m(i)); } return "shape:ascending";
        case 4: for (size_t i = 0; i < n; ++i) { put(i, m(n - i)); } return "shape:descending";
        case 5: for (size_t i = 0; i < n; ++i) { put(i, m(i < n / 2 ? i : n - i)); } return "shape:organ pipe";
        case 6: for (size_t i = 0; i < n; ++i) { put(i, 5); } return "shape:all equal";
        case 7: { unsigned k = 2 + (unsigned)c.below(4); for (size_t i = 0; i < n; ++i) { put(i, m(p[i * es] % k)); } return "shape:few distinct"; }
        case 8: for (size_t i = 0; i < n; ++i) { put(i, m(i + 1)); } if (n) { put(c.flag() ? n - 1 : c.size(n - 1), 0); } return "shape:one out of place";
        default: { Rng r; r.s = c.u32uniform(); for (size_t i = 0; i < n; ++i) { put(i, m(r.below(n + 1))); } return "shape:random ranks"; }
    }
}
struct Job { size_t algo, n, es; };
inline Job job(Ctx& c, bool stableOnly) {
    Job j;
    j.algo = stableOnly ? c.pick({0, 2}) : c.below(4);
    size_t maxE = std::min<size_t>(ALGOS[j.algo].maxElem, 5000);
    j.es = 1 + (c.chance(1, 300) ? c.size(maxE - 1) : c.chance(1, 12) ? c.size(std::min<size_t>(maxE - 1, 400)) : c.flag() ? c.below(std::min<size_t>(maxE, 17)) : c.below(std::min<size_t>(maxE, 64)));
    if (j.algo == 2 && c.chance(1, 8)) { j.es = 64 - c.below(2); }
    unsigned r = (unsigned)c.below(256);
    if (r < 1 && c.chance(1, 6)) {
        j.n = c.size(j.algo == 1 ? 3000 : 600);
        if (j.es > 64) { j.es = 1 + j.es % 16; }
    } else if (r < 20) {
        j.n = c.size(300);
    } else {
        j.n = c.size(c.flag() ? 9 : 40);
    }
    if (j.n * j.es > 200000) { j.es = 4; }
    return j;
}
// n elements of es >= 6 bytes (2 of key, 4 of position), pairs of equal keys in order but for the ends: quick where a sort is adaptive
inline void nearlySorted(uint8_t* p, size_t n, size_t es) {
    memset(p, 0x2D, n * es);
    for (size_t i = 0; i < n; ++i) {
        size_t v = i == 0 ? 2 : i == 1 ? 1 : i == n - 2 ? (n - 1) / 2 : i == n - 1 ? (n - 2) / 2 : i / 2;
        for (size_t b = 0; b < 2; ++b) { p[i * es + b] = (uint8_t)(v >> (8 * b)); }
        for (size_t b = 0; b < 4; ++b) { p[i * es + 2 + b] = (uint8_t)(i >> (8 * b)); }
    }
}
// elements of around and beyond 65536 bytes; fills p, returns the ordering (key in the last bytes)
inline void wideShape(Ctx& c, uint64_t k, size_t& algo, size_t& n, size_t& es) {
    static const size_t A[] = {0, 1, 3};
    algo = A[k % 3];
    n = 2 + c.below(5);
    es = (k / 3 % 2 ? 32768 : 65536) + c.pick({0, 1, 3, -1, 7, 300});
}
inline Order wideFill(Ctx& c, uint8_t* p, size_t n, size_t es) {
    Order o;
    o.style = 1;
    o.w = 1;
    o.off = es - 1;
    for (size_t i = 0; i < n; ++i) {
        c.fillRandom(p + i * es, es);
        p[(i + 1) * es - 1] = (uint8_t)c.below(3);
    }
    return o;
}
// Arrays of more than 2^30 elements, or 2^31 or 2^32 bytes, equal but for a few elements
struct GiantState {
    const uint8_t* base = nullptr;
    size_t bytes = 0;
    size_t es = 1;
    uint64_t calls = 0;
    bool known[256];
    Ctx* c = nullptr;
};
inline GiantState& giantState() {
    static GiantState s;
    return s;
}
inline bool giantCompare(void* a, void* b) {
    GiantState& s = giantState();
    if ((++s.calls & 0xFFFFFF) == 0) { alive(); }
    const uint8_t *x = (const uint8_t*)a, *y = (const uint8_t*)b;
    for (const uint8_t* p : {x, y}) {
        size_t at = (size_t)(p - s.base);
        if (at < s.bytes ? s.es > 1 && at % s.es != 0 : !s.known[*p]) { s.c->fail("the comparison function was given a pointer that is no element of an array of %zu bytes (call %llu, offset %td)", s.bytes, (unsigned long long)s.calls, p - s.base); }
    }
    return *x > *y;
}
inline void giantSort(Ctx& c, uint64_t k) {
    if (!GIANTS) { return; }
    static const size_t A[] = {1, 0, 3, 2, 1, 2, 1, 0};
    size_t algo = A[k % 8], es = 1, n = 0;
    switch (k % 8) {
        case 0: n = (1ull << 30) + 2 + c.below(1000); break;
        case 1: es = 33 + c.below(40); break;
        case 2: n = 4 + c.below(2); es = (1ull << 29) + c.below(1000); break;
        case 3: es = 64 - c.below(9); break;
        case 4: es = 30 + c.below(60); break;
        case 6: es = 2 + c.below(3); n = (1ull << 31) / es + c.below(1000); break;
        default: n = (1ull << 31) - 1 - c.below(3);
    }
    if (!n) { n = (1ull << 32) / es + 100 + c.below(1000); }
    c.label("enum:array of 2^30 bytes or more");
    c.nontrivial();
    c.distinctKey(91ull << 40 | k);
    patience(900);
    Room room(c, n * es);
    if (!room) { return; }
    Giant a(n * es, 'm');
    if (!a.p) { return; }
    std::vector<size_t> at;
    std::string marks;
    size_t low = 0;
    for (unsigned i = 0; i < (algo == 1 ? 12u : 3u); ++i) {
        // small elements travel far in bubble and insertion sort: near the beginning there
        bool adaptive = algo == 0 || algo == 2, small = adaptive ? i == 0 : i % 2 == 0;
        size_t p = small && adaptive ? 1 + c.below(40) : i < 2 ? n - 1 - i : i < 4 ? n / 2 + i : c.below(n);
        p %= n;
        if (std::find(at.begin(), at.end(), p) != at.end()) { continue; }
        at.push_back(p);
        marks += (char)((small ? 'a' : 'n') + c.below(10));
        low += small;
    }
    GiantState& s = giantState();
    memset(s.known, 0, sizeof s.known);
    s.known['m'] = true;
    for (size_t i = 0; i < at.size(); ++i) {
        memset(a.p + at[i] * es, marks[i], es);
        s.known[(uint8_t)marks[i]] = true;
    }
    s.base = a.p;
    s.bytes = n * es;
    s.es = es;
    s.calls = 0;
    s.c = &c;
    alive();
    ALGOS[algo].f(a.p, (int32_t)n, (int32_t)es, giantCompare);
    alive();
    std::sort(marks.begin(), marks.end());
    for (size_t i = 0; i < marks.size(); ++i) {
        size_t p = i < low ? i : n - (marks.size() - i);
        if (a.p[p * es] != (uint8_t)marks[i]) { c.fail("%s sort of %zu elements of %zu bytes: element %zu is %02x.., expected %02x..", ALGOS[algo].name, n, es, p, a.p[p * es], (uint8_t)marks[i]); }
        expectAll(c, "a marked element", a.p, p * es, (p + 1) * es, (uint8_t)marks[i]);
    }
    expectAll(c, "the equal elements", a.p, low * es, (n - (marks.size() - low)) * es, 'm');
}
inline std::string show(const uint8_t* p, size_t n, size_t es) {
    std::string s = "[";
    for (size_t i = 0; i < n && i < 12; ++i) { s += (i ? " " : "") + hex(p + i * es, es, 8); }
    return s + (n > 12 ? " ...]" : "]");
}
inline void labels(Ctx& c, const Job& j, const char* shape) {
    c.label(ALGOS[j.algo].name);
    c.label(shape);
    c.label(j.n == 0 ? "n:0" : j.n == 1 ? "n:1" : j.n < 8 ? "n:2..7" : j.n < 256 ? "n:8..255" : "n:256+");
    c.label(j.es == 1 ? "element:1" : j.es <= 16 ? "element:2..16" : j.es <= 64 ? "element:17..64" : "element:65+");
}
}  // namespace srt
