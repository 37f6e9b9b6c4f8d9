#include "sort_common.hpp"
using namespace im;
using namespace srt;
namespace im {
const Prop PROP = {"S03",
    "bubble and insertion sort x arrays as for S01 whose elements carry their original position, with orderings that leave many elements equal; compared with a stable reference sort; "
    "all arrays of up to 6 (thorough 8) elements over 3 keys enumerated. Non-trivial: at least two equal elements and at least one inversion",
    250000, 4000000, 50000, 2000000, 1024};

static void check(Ctx& c, size_t algo, const Buf& a, size_t n, size_t es, const Order& o) {
    State& s = state();
    s.c = &c;
    s.ord = o;
    s.base = a.p;
    s.n = n;
    s.es = es;
    s.calls = 0;
    s.judge = false;
    Bytes orig = a.copy();
    ALGOS[algo].f(a.p, (int32_t)n, (int32_t)es, compare);
    checkGuards(c, ALGOS[algo].name);
    std::vector<const uint8_t*> x(n);
    for (size_t i = 0; i < n; ++i) { x[i] = orig.data() + i * es; }
    std::stable_sort(x.begin(), x.end(), [&](const uint8_t* p, const uint8_t* q) { return o.cmp3(p, q) < 0; });
    for (size_t i = 0; i < n; ++i) {
        if (memcmp(x[i], a.p + i * es, es) != 0) {
            c.fail("%s sort of %zu elements of %zu bytes is not stable at place %zu: input %s, result %s", ALGOS[algo].name, n, es, i, show(orig.data(), n, es).c_str(),
                   show(a.p, n, es).c_str());
        }
    }
}
void runCase(Ctx& c) {
    Job j = job(c, true);
    if (j.es < 3) { j.es += 2; }
    Order o = order(c, j.es);
    // leave two bytes outside the key for the position
    size_t tag = 0;
    if (o.off >= 2) { tag = 0; } else if (o.off + o.w + 2 <= j.es) { tag = j.es - 2; } else {
        if (o.w > j.es - 2) { o.w = j.es - 2; }
        o.off = 0;
        tag = j.es - 2;
        if (o.style == 3) { o.coarse = o.coarse % (unsigned)(8 * o.w); }
    }
    Buf a(c, j.n * j.es);
    const char* shape = shapeFill(c, a.p, j.n, j.es, o);
    if (c.chance(3, 4)) {  // force ties
        unsigned k = 1 + (unsigned)c.below(6);
        for (size_t i = 0; i < j.n; ++i) {
            for (size_t b = 0; b < o.w; ++b) {
                uint8_t* q = a.p + i * j.es + o.off + b;
                *q = (b == 0 || b + 1 == o.w) ? (uint8_t)(*q % k) : 0;
            }
        }
        shape = "shape:forced ties";
    }
    for (size_t i = 0; i < j.n; ++i) {
        a[i * j.es + tag] = (uint8_t)i;
        a[i * j.es + tag + 1] = (uint8_t)(i >> 8);
    }
    labels(c, j, shape);
    NOTE(c, "%s, %zu elements of %zu bytes, key at %zu width %zu style %d%s, %s %s", ALGOS[j.algo].name, j.n, j.es, o.off, o.w, o.style, o.desc ? " descending" : "", shape,
         show(a.p, j.n, j.es).c_str());
    bool eq = false, inv = false;
    for (size_t i = 0; i < j.n && i < 60 && !(eq && inv); ++i) {
        for (size_t k = i + 1; k < j.n && k < 60; ++k) {
            int r = o.cmp3(a.p + i * j.es, a.p + k * j.es);
            eq |= r == 0;
            inv |= r > 0;
        }
    }
    if (eq && inv) { c.nontrivial(); }
    check(c, j.algo, a, j.n, j.es, o);
}
uint64_t enumCount(bool thorough) { return 4 + 4 + (thorough ? 60 : 12); }
static void big(Ctx& c, uint64_t k) {
#ifdef IM_ASAN
    (void)c;
    (void)k;
#else
    c.label("enum:33000 or 66000 elements");
    size_t n = k % 2 ? 66000 : 33000, es = 6 + k % 3;
    Order o;
    o.style = 1;
    o.w = 2;
    Buf a(c, n * es);
    nearlySorted(a.p, n, es);
    c.distinctKey(99ull << 40 | k);
    c.nontrivial();
    check(c, k / 2 ? 2 : 0, a, n, es, o);
#endif
}
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    if (i >= 8) {
        c.label("enum:elements of 32768 or 65536 bytes");
        c.nontrivial();
        c.distinctKey(98ull << 40 | i);
        size_t algo, n, es;
        wideShape(c, i, algo, n, es);
        algo = 0;
        Buf a(c, n * es);
        Order o = wideFill(c, a.p, n, es);
        check(c, algo, a, n, es, o);
        return;
    }
    if (i >= 4) { return big(c, i - 4); }
    c.label("enum:all small arrays with ties");
    c.nontrivial();
    size_t algo = i / 2 ? 2 : 0;
    Order o;
    o.desc = i % 2 != 0;
    uint64_t cnt = 0;
    for (size_t n = 0; n <= (thorough ? 8u : 6u); ++n) {
        size_t total = 1;
        for (size_t k = 0; k < n; ++k) { total *= 3; }
        for (size_t v = 0; v < total; ++v, ++cnt) {
            arenaReset();
            Buf a(c, n * 2, 0);
            size_t x = v;
            for (size_t k = 0; k < n; ++k, x /= 3) {
                a[2 * k] = (uint8_t)(x % 3);
                a[2 * k + 1] = (uint8_t)k;
            }
            check(c, algo, a, n, 2, o);
            if (n > 1) { c.distinctKey(i << 40 | (uint64_t)n << 32 | v); }
        }
    }
    c.evals(cnt);
}
}  // namespace im
