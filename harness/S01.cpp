#include "sort_common.hpp"
using namespace im;
using namespace srt;
namespace im {
const Prop PROP = {"S01",
    "one of the four sorts x arrays of 0..300 (rarely 600, heap 3000; enumerated: one of 33000 for each) elements of 1..64 (not insertion: up to 5000) bytes in ten shapes x orderings on part or all of "
    "the element (bytes, unsigned, signed, coarse; ascending or descending); enumerated: all arrays of up to 6 elements over 3 keys and all permutations of up to 7. "
    "Arrays of more than 2^31 and 2^32 bytes or 2^30 elements enumerated. Non-trivial: at least two elements that are not already in order",
    250000, 4000000, 50000, 2000000, 1024};

static void check(Ctx& c, size_t algo, const Buf& a, size_t n, size_t es, const Order& o) {
    State& s = state();
    s.c = &c;
    s.ord = o;
    s.base = a.p;
    s.n = n;
    s.es = es;
    s.calls = 0;
    s.judge = false;
    Bytes orig = a.copy();
    ALGOS[algo].f(a.p, (int32_t)n, (int32_t)es, compare);
    checkGuards(c, ALGOS[algo].name);
    for (size_t i = 0; i + 1 < n; ++i) {
        if (o.cmp3(a.p + i * es, a.p + (i + 1) * es) > 0) {
            c.fail("%s sort of %zu elements of %zu bytes: elements %zu and %zu are out of order (input %s, result %s)", ALGOS[algo].name, n, es, i, i + 1,
                   show(orig.data(), n, es).c_str(), show(a.p, n, es).c_str());
        }
    }
    // same multiset of whole elements
    std::vector<const uint8_t*> x(n), y(n);
    for (size_t i = 0; i < n; ++i) {
        x[i] = orig.data() + i * es;
        y[i] = a.p + i * es;
    }
    auto lt = [es](const uint8_t* p, const uint8_t* q) { return memcmp(p, q, es) < 0; };
    std::sort(x.begin(), x.end(), lt);
    std::sort(y.begin(), y.end(), lt);
    for (size_t i = 0; i < n; ++i) {
        if (memcmp(x[i], y[i], es) != 0) {
            c.fail("%s sort of %zu elements of %zu bytes does not keep the elements (input %s, result %s)", ALGOS[algo].name, n, es, show(orig.data(), n, es).c_str(),
                   show(a.p, n, es).c_str());
        }
    }
}
void runCase(Ctx& c) {
    Job j = job(c, false);
    Order o = order(c, j.es);
    Buf a(c, j.n * j.es);
    const char* shape = shapeFill(c, a.p, j.n, j.es, o);
    labels(c, j, shape);
    NOTE(c, "%s, %zu elements of %zu bytes, key at %zu width %zu style %d%s, %s %s", ALGOS[j.algo].name, j.n, j.es, o.off, o.w, o.style, o.desc ? " descending" : "", shape,
         show(a.p, j.n, j.es).c_str());
    bool unsorted = false;
    for (size_t i = 0; i + 1 < j.n && !unsorted; ++i) { unsorted = o.cmp3(a.p + i * j.es, a.p + (i + 1) * j.es) > 0; }
    if (unsorted) { c.nontrivial(); }
    check(c, j.algo, a, j.n, j.es, o);
}
// all arrays of n <= 6 over 3 keys, all permutations of n <= 7
static const size_t SMALL = 8;
static uint64_t bigs(bool thorough) { return 2 + (thorough ? 8 : 4); }
static uint64_t plain(bool thorough) { return SMALL + bigs(thorough) + (thorough ? 120 : 24); }
uint64_t enumCount(bool thorough) { return plain(thorough) + (thorough ? 8 : 4); }
static void big(Ctx& c, uint64_t k) {
#ifdef IM_ASAN
    (void)c;
    (void)k;
#else
    if (k == 0) {  // one element far from its place: as many passes of bubble sort as elements
        c.label("enum:33000 elements, one far from its place");
        const size_t n = 33000;
        Order o;
        o.style = 1;
        o.w = 2;
        Buf a(c, 2 * n);
        for (size_t i = 0; i < n; ++i) {
            size_t v = i + 1 == n ? 0 : i + 1;
            a[2 * i] = (uint8_t)v;
            a[2 * i + 1] = (uint8_t)(v >> 8);
        }
        c.distinctKey(97ull << 40);
        c.nontrivial();
        check(c, 0, a, n, 2, o);
        return;
    }
    --k;
    if (k == 0) {
        c.label("enum:300000 random elements, heap sort");
        const size_t n = 300000 + c.below(1000);
        Order o;
        o.style = 1;
        o.w = 3;
        Buf a(c, 3 * n);
        c.fillRandom(a.p, 3 * n);
        c.distinctKey(96ull << 40);
        c.nontrivial();
        check(c, 1, a, n, 3, o);
        return;
    }
    --k;
    c.label("enum:33000 or 66000 elements");
    size_t n = k < 4 ? 33000 : 66000, algo = k % 4;
    Order o;
    o.style = 1;
    o.w = 2;
    Buf a(c, 2 * n);
    for (size_t i = 0; i < n; ++i) {  // in order but for the ends: quick where a sort is adaptive
        size_t v = i == 0 ? 2 : i == 1 ? 1 : i == n - 2 ? (n - 1) / 2 : i == n - 1 ? (n - 2) / 2 : i / 2;
        a[2 * i] = (uint8_t)v;
        a[2 * i + 1] = (uint8_t)(v >> 8);
    }
    c.distinctKey(99ull << 40 | k);
    c.nontrivial();
    check(c, algo, a, n, 2, o);
#endif
}
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    if (i >= plain(thorough)) { giantSort(c, i - plain(thorough)); return; }
    if (i >= SMALL + bigs(thorough)) {
        c.label("enum:elements of 32768 or 65536 bytes");
        c.nontrivial();
        c.distinctKey(98ull << 40 | i);
        size_t algo, n, es;
        wideShape(c, i, algo, n, es);
        Buf a(c, n * es);
        Order o = wideFill(c, a.p, n, es);
        check(c, algo, a, n, es, o);
        return;
    }
    if (i >= SMALL) { return big(c, i - SMALL); }
    c.label("enum:all small arrays and permutations");
    c.nontrivial();
    size_t algo = i / 2;
    Order o;
    o.desc = i % 2 != 0;
    uint64_t cnt = 0;
    for (size_t n = 0; n <= (thorough ? 8u : 6u); ++n) {
        size_t total = 1;
        for (size_t k = 0; k < n; ++k) { total *= 3; }
        for (size_t v = 0; v < total; ++v, ++cnt) {
            arenaReset();
            Buf a(c, n * 2, 0);
            size_t x = v;
            for (size_t k = 0; k < n; ++k, x /= 3) {
                a[2 * k] = (uint8_t)(x % 3);
                a[2 * k + 1] = (uint8_t)k;
            }
            check(c, algo, a, n, 2, o);
            if (n > 1) { c.distinctKey(i << 40 | (uint64_t)n << 32 | v); }
        }
    }
    for (size_t n = 1; n <= (thorough ? 8u : 7u); ++n) {
        std::vector<uint8_t> p(n);
        for (size_t k = 0; k < n; ++k) { p[k] = (uint8_t)k; }
        uint64_t r = 0;
        do {
            arenaReset();
            Buf a(c, p.data(), n);
            check(c, algo, a, n, 1, o);
            ++cnt;
            if (n > 1) { c.distinctKey(i << 40 | 1ull << 39 | (uint64_t)n << 32 | r++); }
        } while (std::next_permutation(p.begin(), p.end()));
    }
    c.evals(cnt);
}
}  // namespace im
