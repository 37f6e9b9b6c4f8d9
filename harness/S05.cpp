#include <cmath>
#include "sort_common.hpp"
using namespace im;
using namespace srt;
namespace im {
const Prop PROP = {"S05",
    "one of the four sorts x arrays as for S01 (shapes: random, ascending, descending, organ pipe, equal, few distinct, one out of place) x orderings; the calls of the comparison function are counted and "
    "compared with bounds computed from the array (inversions, largest number of larger elements before an element). Enumerated: up to 20000 (thorough 200000) elements in every shape, all permutations of up to 6 "
    "(thorough 8) elements. Non-trivial: at least eight elements",
    200000, 4000000, 40000, 1500000, 1024};

static uint64_t calls, limit;
static Ctx* ctx;
static Order ord;
static std::string what;
static bool counting(void* a, void* b) {
    if (++calls > limit) { ctx->fail("%s: more than %llu comparisons", what.c_str(), (unsigned long long)limit); }
    if ((calls & 0xFFFFF) == 0) { alive(); }
    return ord.cmp3((const uint8_t*)a, (const uint8_t*)b) > 0;
}
// number of inversions, and the largest number of larger elements before an element
static void disorder(const Buf& a, size_t n, size_t es, const Order& o, uint64_t& inversions, uint64_t& passes) {
    std::vector<const uint8_t*> v(n);
    for (size_t i = 0; i < n; ++i) { v[i] = a.p + i * es; }
    std::vector<const uint8_t*> s(v);
    std::stable_sort(s.begin(), s.end(), [&](const uint8_t* x, const uint8_t* y) { return o.cmp3(x, y) < 0; });
    std::vector<size_t> tree(n + 1, 0);  // elements seen so far, by rank
    inversions = passes = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t rank = (size_t)(std::upper_bound(s.begin(), s.end(), v[i], [&](const uint8_t* x, const uint8_t* y) { return o.cmp3(x, y) < 0; }) - s.begin());  // elements not larger
        size_t notLarger = 0;
        for (size_t k = rank; k; k &= k - 1) { notLarger += tree[k]; }
        uint64_t larger = i - notLarger;
        inversions += larger;
        passes = std::max<uint64_t>(passes, larger);
        for (size_t k = rank; k <= n; k += k & -k) { ++tree[k]; }
    }
}
static uint64_t bound(size_t algo, size_t n, uint64_t inversions, uint64_t passes) {
    if (n < 2) { return 4; }
    switch (algo) {
        case 0: return 2 * (passes + 1) * n;
        case 1: return (uint64_t)(3.0 * (double)n * (log2((double)n) + 2));
        case 2: return 2 * (inversions + n);
        default: return (uint64_t)n * n;
    }
}
static void check(Ctx& c, size_t algo, const Buf& a, size_t n, size_t es, const Order& o) {
    uint64_t inv, passes;
    disorder(a, n, es, o, inv, passes);
    ctx = &c;
    ord = o;
    calls = 0;
    limit = bound(algo, n, inv, passes);
    what = std::string(ALGOS[algo].name) + " sort of " + std::to_string(n) + " elements of " + std::to_string(es) + " bytes, " + std::to_string(inv) + " inversions, at most " + std::to_string(passes) +
           " larger elements before one, " + show(a.p, n, es);
    ALGOS[algo].f(a.p, (int32_t)n, (int32_t)es, counting);
    checkGuards(c, ALGOS[algo].name);
}
void runCase(Ctx& c) {
    Job j = job(c, false);
    Order o = order(c, j.es);
    Buf a(c, j.n * j.es);
    const char* shape = shapeFill(c, a.p, j.n, j.es, o);
    labels(c, j, shape);
    NOTE(c, "%s, %zu elements of %zu bytes, key at %zu width %zu style %d%s, %s %s", ALGOS[j.algo].name, j.n, j.es, o.off, o.w, o.style, o.desc ? " descending" : "", shape,
         show(a.p, j.n, j.es).c_str());
    if (j.n >= 8) { c.nontrivial(); }
    check(c, j.algo, a, j.n, j.es, o);
}
static const size_t PERMS = 4;
uint64_t enumCount(bool thorough) { return PERMS + (thorough ? 4 * 9 * 3 : 4 * 9); }
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    c.nontrivial();
    Order o;
    if (i < PERMS) {
        c.label("enum:all permutations");
        uint64_t cnt = 0;
        for (size_t n = 0; n <= (thorough ? 8u : 6u); ++n) {
            std::vector<uint8_t> p(n);
            for (size_t k = 0; k < n; ++k) { p[k] = (uint8_t)k; }
            do {
                arenaReset();
                Buf a(c, p.data(), n);
                check(c, i, a, n, 1, o);
                c.distinctKey(i << 40 | (uint64_t)n << 32 | cnt++);
            } while (std::next_permutation(p.begin(), p.end()));
        }
        c.evals(cnt);
        return;
    }
    i -= PERMS;
    size_t algo = i % 4, shape = i / 4 % 9, es = 4 + c.below(8);
    c.label("enum:thousands of elements");
    c.distinctKey(7ull << 56 | i);
    bool adaptive = (algo == 0 && (shape < 2 || shape == 6 || shape == 8)) || (algo == 2 && (shape < 2 || shape >= 6));
    size_t n = algo == 1 || adaptive ? (thorough ? 200000 : 20000) : thorough ? 6000 : 1500;
    n += c.below(n / 4);
    Buf a(c, n * es);
    c.fillRandom(a.p, n * es);
    Rng r;
    r.s = c.u32uniform();
    for (size_t e = 0; e < n; ++e) {
        uint64_t v = 0;
        switch (shape) {
            case 0: v = e; break;
            case 1: v = 5; break;
            case 2: v = n - e; break;
            case 3: v = e < n / 2 ? e : n - e; break;
            case 4: v = r.next() % 0x1000000; break;
            case 5: v = r.next() % 3; break;
            case 6: v = e ^ 1; break;                       // neighbours exchanged
            case 7: v = e == n - 1 ? 0 : e + 1; break;      // smallest last
            default: v = e == 0 ? n : e; break;             // largest first
        }
        for (size_t b = 0; b < 3; ++b) { a[e * es + b] = (uint8_t)(v >> (8 * b)); }
    }
    o.style = 1;
    o.w = 3;
    if (shape == 8) { c.label("enum:largest first"); }
    check(c, algo, a, n, es, o);
}
}  // namespace im
