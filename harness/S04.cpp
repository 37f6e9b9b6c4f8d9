#include "sort_common.hpp"
using namespace im;
using namespace srt;
namespace im {
const Prop PROP = {"S04",
    "one of the four sorts x arrays as for S01 whose elements carry a distinguishable payload x a comparison function that is no ordering: random answers (drawn one by one, or from a stream with a drawn "
    "share of yes), always yes, always no, greater-or-equal, rock-paper-scissors, unordered elements (like NaN), reversing itself after some calls; or an ordering that answers at random for equal "
    "elements, where the result must still be ordered. Enumerated: every sequence of 16 (thorough 20) answers for 2..6 elements, larger arrays under each kind of function. "
    "Non-trivial: at least two elements and at least one answer that contradicts the ordering of the elements",
    150000, 3000000, 40000, 1500000, 1024};

enum Mode { DRAWN, STREAM, YES, NO, GREATER_EQUAL, CYCLIC, UNORDERED, TURNING, TIES, BITS, MODES };
static const char* const NAMES[] = {"answers:drawn", "answers:random", "answers:always yes", "answers:always no", "answers:greater or equal", "answers:cyclic", "answers:unordered elements",
                                    "answers:turning round", "answers:random for equal elements", "answers:enumerated"};
struct Fun {
    Ctx* c;
    Mode mode;
    Order ord;
    const uint8_t* base;
    size_t n, es;
    uint64_t calls, limit, odd;
    Rng rng;
    unsigned share, k;
    uint32_t bits;
    uint64_t turn;
    const std::unordered_set<std::string>* originals;
};
static Fun F;
static void judge(const uint8_t* p, const char* which) {
    if (p >= F.base && p < F.base + F.n * F.es) {
        if ((size_t)(p - F.base) % F.es) { F.c->fail("call %llu: the %s comparator argument points into an element", (unsigned long long)F.calls, which); }
        return;
    }
    if (inArena(p)) { F.c->fail("call %llu: the %s comparator argument points outside the array of %zu elements, byte offset %td", (unsigned long long)F.calls, which, F.n, p - F.base); }
    if (!F.originals->empty() && !F.originals->count(std::string((const char*)p, F.es))) {
        F.c->fail("call %llu: the %s comparator argument holds %s, which is no element of the array", (unsigned long long)F.calls, which, hex(p, F.es, 24).c_str());
    }
}
static bool answer(void* a, void* b) {
    const uint8_t *x = (const uint8_t*)a, *y = (const uint8_t*)b;
    if (++F.calls > F.limit) { F.c->fail("%llu comparisons for %zu elements: no termination", (unsigned long long)F.calls, F.n); }
    if ((F.calls & 0xFFFFF) == 0) { alive(); }
    judge(x, "first");
    judge(y, "second");
    int r = F.ord.cmp3(x, y);
    bool ans = r > 0;
    switch (F.mode) {
        case DRAWN: ans = F.c->flag(); break;
        case STREAM: ans = (F.rng.next() >> 20) % 256 < F.share; break;
        case YES: ans = true; break;
        case NO: ans = false; break;
        case GREATER_EQUAL: ans = r >= 0; break;
        case CYCLIC: ans = (unsigned)(x[F.ord.off] + F.k - y[F.ord.off] % F.k) % F.k == 1; break;
        case UNORDERED: ans = x[F.ord.off] % F.k != 0 && y[F.ord.off] % F.k != 0 && r > 0; break;
        case TURNING: ans = F.calls / F.turn % 2 ? r < 0 : r > 0; break;
        case TIES: ans = r > 0 || (r == 0 && (F.rng.next() >> 20) % 256 < F.share); break;
        default: ans = (F.bits >> (F.calls - 1) % 32) & 1;
    }
    F.odd += ans != (r > 0);
    return ans;
}
static void check(Ctx& c, size_t algo, const Buf& a, size_t n, size_t es, Mode mode, const Order& o, uint64_t seed, unsigned share, unsigned k) {
    Bytes orig = a.copy();
    std::unordered_set<std::string> originals;
    std::vector<std::string> was, is;
    for (size_t i = 0; i < n; ++i) { was.push_back(std::string((const char*)a.p + i * es, es)); }
    if (n <= 3000) { originals.insert(was.begin(), was.end()); }
    F.c = &c; F.mode = mode; F.ord = o; F.base = a.p; F.n = n; F.es = es; F.calls = 0; F.odd = 0;
    F.limit = 4ull * n * n + 1000;  // far beyond what any of the sorts needs
    F.rng.s = seed; F.share = share; F.k = k; F.bits = (uint32_t)seed; F.turn = 1 + seed % (2 * n + 3); F.originals = &originals;
    ALGOS[algo].f(a.p, (int32_t)n, (int32_t)es, answer);
    checkGuards(c, ALGOS[algo].name);
    for (size_t i = 0; i < n; ++i) { is.push_back(std::string((const char*)a.p + i * es, es)); }
    std::vector<std::string> s = is;
    std::sort(s.begin(), s.end());
    std::sort(was.begin(), was.end());
    if (s != was) {
        c.fail("%s sort of %zu elements of %zu bytes under %s does not hold the same elements: input %s, result %s", ALGOS[algo].name, n, es, NAMES[mode], show(orig.data(), n, es).c_str(),
               show(a.p, n, es).c_str());
    }
    if (mode == TIES || mode == GREATER_EQUAL) {
        for (size_t i = 1; i < n; ++i) {
            if (o.cmp3((const uint8_t*)is[i - 1].data(), (const uint8_t*)is[i].data()) > 0) {
                c.fail("%s sort of %zu elements of %zu bytes under %s is not ordered at %zu: input %s, result %s", ALGOS[algo].name, n, es, NAMES[mode], i, show(orig.data(), n, es).c_str(),
                       show(a.p, n, es).c_str());
            }
        }
    }
    if (n >= 2 && F.odd) { c.nontrivial(); }
}
void runCase(Ctx& c) {
    Job j = job(c, false);
    Order o = order(c, j.es);
    Mode mode = (Mode)c.below(BITS);
    uint64_t seed = c.u32uniform();
    unsigned share = c.pick({128, 250, 6, 60, 200}), k = 2 + (unsigned)c.below(4);
    Buf left(c, 64 + j.es, 0);
    c.fill(left.p, left.n);
    Buf a(c, j.n * j.es);
    const char* shape = shapeFill(c, a.p, j.n, j.es, o);
    labels(c, j, shape);
    c.label(NAMES[mode]);
    NOTE(c, "%s, %zu elements of %zu bytes, key at %zu width %zu style %d%s, %s %s, %s, seed %llx share %u k %u", ALGOS[j.algo].name, j.n, j.es, o.off, o.w, o.style, o.desc ? " descending" : "", shape,
         show(a.p, j.n, j.es).c_str(), NAMES[mode], (unsigned long long)seed, share, k);
    check(c, j.algo, a, j.n, j.es, mode, o, seed, share, k);
}
static const uint64_t SMALL = 4 * 5;
uint64_t enumCount(bool thorough) { return SMALL + 4 * (BITS - 1) * (thorough ? 3 : 1); }
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    Order o;
    if (i < SMALL) {
        c.label("enum:every sequence of answers");
        size_t algo = i % 4, n = 2 + i / 4;
        uint32_t depth = thorough ? 20 : 16;
        Buf a(c, n * 3);
        for (uint32_t bits = 0; bits < 1u << depth; ++bits) {
            for (size_t e = 0; e < n; ++e) { a[3 * e] = (uint8_t)e; a[3 * e + 1] = (uint8_t)(0x40 + e); a[3 * e + 2] = (uint8_t)(0x80 - e); }
            check(c, algo, a, n, 3, BITS, o, bits | (uint64_t)(bits * 0x9E3779B1u >> depth) << depth, 0, 2);
            c.distinctKey(i << 32 | bits);
        }
        c.evals(1u << depth);
        c.nontrivial();
        return;
    }
    i -= SMALL;
    c.label("enum:hundreds and thousands of elements");
    size_t algo = i % 4;
    Mode mode = (Mode)(1 + i / 4 % (BITS - 1));
    o.w = 2;
    o.style = 1;
    uint64_t cnt = 0;
    for (size_t n : {64, 255, 256, 257, 300, 1000, 2500}) {
        if (algo != 1 && n > 300 && !thorough) { n = 400 + n % 7; }
        arenaReset();
        size_t es = 4 + c.below(14);
        Buf a(c, n * es);
        c.fillRandom(a.p, n * es);
        if (c.flag()) { for (size_t e = 0; e < n; ++e) { a[e * es] = 3; a[e * es + 1] %= 4; } }
        check(c, algo, a, n, es, mode, o, c.u32uniform(), c.pick({128, 250, 6}), 2 + (unsigned)c.below(4));
        c.distinctKey(5ull << 56 | i << 32 | n);
        ++cnt;
    }
    c.evals(cnt);
}
}  // namespace im
