#include <algorithm>
#include "engine.hpp"
#include "lib.hpp"
using namespace im;
namespace im {
const Prop PROP = {"U03",
    "sizes 0..5000 (rarely 200000) with arbitrary contents and alignments, both byte orders and swap (also of an element with itself and of adjacent elements); "
    "every size 0..600 enumerated. Blocks of more than 2^31 bytes enumerated. Non-trivial: size at least 2",
    300000, 5000000, 60000, 2500000, 1024};

static void check(Ctx& c, size_t n, unsigned op) {
    Buf a(c, n), b(c, n), d(c, n);
    c.fill(a.p, n);
    c.fillRandom(b.p, n);
    d.set(0x3C);
    auto A = a.copy(), B = b.copy();
    std::vector<uint8_t> R(A.rbegin(), A.rend());
    NOTE(c, "operation %u on %zu bytes %s", op, n, hex(a.p, n, 16).c_str());
    switch (op) {
        case 0:
        case 1:
            (op ? Utils_serializeBlobLE : Utils_serializeBlobBE)(b.p, a.p, (uint32_t)n);
            checkGuards(c, "block serialisation");
            expectSame(c, op ? "little-endian block" : "big-endian block", b, op ? R : A);
            expectSame(c, "source of the serialisation", a, A);
            (op ? Utils_deserializeBlobLE : Utils_deserializeBlobBE)(b.p, d.p, (uint32_t)n);
            checkGuards(c, "block deserialisation");
            expectSame(c, "block after serialising and deserialising", d, A);
            expectSame(c, "source of the deserialisation", b, op ? R : A);
            break;
        case 2:
        case 3:
            (op == 3 ? Utils_deserializeBlobLE : Utils_deserializeBlobBE)(a.p, d.p, (uint32_t)n);
            checkGuards(c, "block deserialisation");
            expectSame(c, op == 3 ? "little-endian block read" : "big-endian block read", d, op == 3 ? R : A);
            expectSame(c, "source of the deserialisation", a, A);
            break;
        case 4:
            Utils_swapElements(a.p, b.p, (uint32_t)n);
            checkGuards(c, "swap");
            expectSame(c, "first element after the swap", a, B);
            expectSame(c, "second element after the swap", b, A);
            break;
        case 5:
            Utils_swapElements(a.p, a.p, (uint32_t)n);
            checkGuards(c, "swap with itself");
            expectSame(c, "element swapped with itself", a, A);
            break;
        default: {  // neighbours in one array
            Buf arr(c, 3 * n);
            if (n) {
                memcpy(arr.p, A.data(), n);
                memcpy(arr.p + n, B.data(), n);
                memset(arr.p + 2 * n, 0x5E, n);
            }
            bool far = c.flag();
            Utils_swapElements(far ? arr.p + 2 * n : arr.p, far ? arr.p : arr.p + n, (uint32_t)n);
            checkGuards(c, "swap of array elements");
            std::vector<uint8_t> Z(n, 0x5E);
            if (n) {
                expectBytes(c, "first array element", arr.p, far ? Z.data() : B.data(), n);
                expectBytes(c, "middle array element", arr.p + n, far ? B.data() : A.data(), n);
                expectBytes(c, "last array element", arr.p + 2 * n, far ? A.data() : Z.data(), n);
            }
        }
    }
}
void runCase(Ctx& c) {
    size_t n = c.chance(1, 1000) ? c.size(200000) : c.chance(1, 12) ? c.size(5000) : c.size(100);
    unsigned op = (unsigned)c.below(7);
    static const char* L[] = {"serialise BE", "serialise LE", "deserialise BE", "deserialise LE", "swap", "swap with itself", "swap in array"};
    c.label(L[op]);
    if (n > 255) { c.label("size:>255"); }
    if (n > 65535) { c.label("size:>65535"); }
    if (n >= 2) { c.nontrivial(); }
    check(c, n, op);
}
// blocks of more than 2^31 bytes, not under AddressSanitizer: mostly zeros, with marked bytes at both ends, round 2^31 and in between
static void huge(Ctx& c, unsigned op) {
    const size_t n = (1ull << 31) + 5 + c.below(100);
    uint8_t *a = sparse(n), *b = sparse(n);
    if (!a || !b) {
        c.label("sparse memory refused");
        if (a) { sparseFree(a, n); }
        if (b) { sparseFree(b, n); }
        return;
    }
    std::vector<size_t> at{0, 1, 2, 4096, n / 2, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, n - 2, n - 1};
    for (unsigned k = 0; k < 40; ++k) { at.push_back(c.below(1ull << 31)); }
    for (size_t k = 0; k < at.size(); ++k) { a[at[k]] = (uint8_t)(k + 1); }
    static void (*const F[])(byte_t*, const byte_t*, uint32_t) = {Utils_serializeBlobBE, Utils_serializeBlobLE};
    static void (*const G[])(const byte_t*, byte_t*, uint32_t) = {Utils_deserializeBlobBE, Utils_deserializeBlobLE};
    static const char* const L[] = {"big-endian block written", "little-endian block written", "big-endian block read", "little-endian block read"};
    NOTE(c, "%s, %zu bytes", L[op], n);
    if (op < 2) { F[op](b, a, (uint32_t)n); } else { G[op - 2](a, b, (uint32_t)n); }
    alive();
    bool rev = op & 1;
    for (size_t p : at) {
        uint8_t got = b[rev ? n - 1 - p : p];
        if (got != a[p]) { c.fail("%s, %zu bytes: byte %zu is %02x instead of %02x", L[op], n, p, got, a[p]); }
    }
    for (size_t p : at) {
        b[rev ? n - 1 - p : p] = 0;
    }
    sparseFree(a, n);
    const uint64_t* w = (const uint64_t*)b;
    uint64_t any = 0;
    for (size_t k = 0; k < n / 8; ++k) { any |= w[k]; }
    for (size_t k = n / 8 * 8; k < n; ++k) { any |= b[k]; }
    if (any) { c.fail("%s, %zu bytes: a byte that should be 0 is not", L[op], n); }
    sparseFree(b, n);
}
#if defined(IM_ASAN) || defined(IM_NO_GIANTS)
static const uint64_t HUGE_CASES = 0;
#else
static const uint64_t HUGE_CASES = 4;
#endif
uint64_t enumCount(bool thorough) { return HUGE_CASES + 601 + (thorough ? 200 : 16); }
void enumCase(Ctx& c, uint64_t i, bool) {
    if (i < HUGE_CASES) {
        c.label("enum:more than 2^31 bytes");
        c.nontrivial();
        c.distinctKey(i << 60 | 1);
        huge(c, (unsigned)i);
        return;
    }
    i -= HUGE_CASES;
    if (i > 600) {
        c.label("enum:around and beyond 65536 bytes");
        size_t n = bigSize(c, i - 601);
        for (unsigned op = 0; op < 7; ++op) {
            check(c, n, op);
            arenaReset();
            c.distinctKey(i << 8 | op);
        }
        c.evals(7);
        c.nontrivial();
        return;
    }
    c.label("enum:every size 0..600");
    for (unsigned op = 0; op < 7; ++op) {
        check(c, i, op);
        if (i >= 2) { c.distinctKey(i << 8 | op); }
    }
    c.evals(7);
    c.nontrivial();
}
}  // namespace im
