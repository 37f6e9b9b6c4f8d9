#include "sort_common.hpp"
using namespace im;
using namespace srt;
namespace im {
const Prop PROP = {"S02",
    "as for S01, the comparator judging every pointer it receives (inside the array and at an element start, or outside all caller memory with the content of an element) "
    "and red zones round the array checked; every element count 0..40 for all sorts enumerated. Arrays of more than 2^32 bytes enumerated. Non-trivial: at least two elements",
    250000, 4000000, 50000, 2000000, 1024};

static void check(Ctx& c, size_t algo, const Buf& a, size_t n, size_t es, const Order& o) {
    State& s = state();
    s.c = &c;
    s.ord = o;
    s.base = a.p;
    s.n = n;
    s.es = es;
    s.calls = 0;
    s.judge = true;
    s.copies = 0;
    s.originals.clear();
    if (n <= 3000) {
        for (size_t i = 0; i < n; ++i) { s.originals.insert(std::string((const char*)a.p + i * es, es)); }
    }
    ALGOS[algo].f(a.p, (int32_t)n, (int32_t)es, compare);
    checkGuards(c, ALGOS[algo].name);
    if (s.copies) { c.label("private copies compared"); }
}
void runCase(Ctx& c) {
    Job j = job(c, false);
    Order o = order(c, j.es);
    Buf left(c, 64 + j.es, 0);  // memory next to the array: plausible element contents
    c.fill(left.p, left.n);
    Buf a(c, j.n * j.es);
    const char* shape = shapeFill(c, a.p, j.n, j.es, o);
    labels(c, j, shape);
    NOTE(c, "%s, %zu elements of %zu bytes, key at %zu width %zu style %d%s, %s %s", ALGOS[j.algo].name, j.n, j.es, o.off, o.w, o.style, o.desc ? " descending" : "", shape,
         show(a.p, j.n, j.es).c_str());
    if (j.n >= 2) { c.nontrivial(); }
    check(c, j.algo, a, j.n, j.es, o);
}
static const size_t SMALL = 4 * 41;
static uint64_t bigs(bool thorough) { return thorough ? 8 : 6; }
static uint64_t plain(bool thorough) { return SMALL + bigs(thorough) + (thorough ? 120 : 24); }
uint64_t enumCount(bool thorough) { return plain(thorough) + (thorough ? 8 : 1); }
static void big(Ctx& c, uint64_t k) {
#ifdef IM_ASAN
    (void)c;
    (void)k;
#else
    c.label("enum:33000 or 66000 elements");
    size_t n = k % 2 ? 66000 : 33000, es = 6 + k % 3;
    Order o;
    o.style = 1;
    o.w = 2;
    Buf a(c, n * es);
    nearlySorted(a.p, n, es);
    c.distinctKey(99ull << 40 | k);
    c.nontrivial();
    check(c, k / 2, a, n, es, o);
#endif
}
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    if (i >= plain(thorough)) { giantSort(c, i - plain(thorough) + 4); return; }
    if (i >= SMALL + bigs(thorough)) {
        c.label("enum:elements of 32768 or 65536 bytes");
        c.nontrivial();
        c.distinctKey(98ull << 40 | i);
        size_t algo, n, es;
        wideShape(c, i, algo, n, es);
        Buf a(c, n * es);
        Order o = wideFill(c, a.p, n, es);
        check(c, algo, a, n, es, o);
        return;
    }
    if (i >= SMALL) { return big(c, i - SMALL); }
    c.label("enum:every count 0..40");
    c.nontrivial();
    size_t algo = i / 41, n = i % 41;
    uint64_t cnt = 0;
    for (size_t es : {1, 2, 4, 7, 64}) {
        for (unsigned r = 0; r < 20; ++r, ++cnt) {
            arenaReset();
            Order o = order(c, es);
            Buf a(c, n * es, 0);
            shapeFill(c, a.p, n, es, o);
            check(c, algo, a, n, es, o);
            c.distinctKey(i << 32 | es << 16 | r);
        }
    }
    c.evals(cnt);
}
}  // namespace im
