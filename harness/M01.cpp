#include "endurance.hpp"
using namespace im;
using namespace cont;
namespace im {
const Prop PROP = {"M01",
    "histories of up to 120 inserts and lookups (fresh keys, repeated keys, keys differing from a known one in one byte) on a map with key and value sizes 1..4001 and "
    "capacity 1..1200, every result compared with a dictionary and all known keys looked up at the end; maps of up to 66000 keys and of 70000-byte keys or values enumerated. Storage of more than 2^32 bytes and 70000 (thorough 2^32) operations enumerated. Non-trivial: at least one overwrite or refused insert and two keys",
    120000, 2000000, 40000, 1500000, 2048};

void runCase(Ctx& c) {
    size_t ks = elemSize(c), vs = elemSize(c), cap = capacity(c);
    if (cap > 1200) { cap = 1200; }
    if (ks > 1000 && vs > 1000) { vs = 1 + vs % 100; }
    while (cap * (ks + vs) > 2000000) { cap = 1 + cap / 2; }
    Buf obj(c, sizeof(Map_t), 0), kb(c, ks * cap), vb(c, vs * cap);
    c.fill(obj.p, obj.n);
    kb.set(c.byte());
    vb.set(c.byte());
    MapUT u(c, (Map_t*)obj.p, kb.p, vb.p, ks, vs, cap);
    NOTE(c, "key size %zu, value size %zu, capacity %zu", ks, vs, cap);
    u.init(c);
    // before anything is inserted nothing may be found, whatever the storage holds
    {
        Bytes k(kb.p, kb.p + ks);
        u.get(c, k);
    }
    unsigned steps = (unsigned)c.size(120);
    for (unsigned i = 0; i < steps; ++i) {
        switch (c.below(8)) {
            case 0: case 1: case 2: u.insert(c); break;
            case 3: case 4: { Bytes k = u.makeKey(c); u.get(c, k); break; }
            case 5: { size_t k = std::min<size_t>(c.size(cap + 2), 400); for (size_t j = 0; j < k; ++j) { u.insert(c); } break; }
            case 6: if (c.chance(1, 8)) { u.init(c); NOTE(c, "re-init"); } else if (c.chance(1, 4)) { u.nulls(c); } else if (!u.pool.empty()) { u.get(c, u.pool[c.below(u.pool.size())]); } break;
            default: {  // look at storage beyond the stored keys
                size_t s = c.below(cap);
                Bytes k(kb.p + s * ks, kb.p + (s + 1) * ks);
                u.get(c, k);
            }
        }
        checkGuards(c, "a step");
    }
    for (size_t i = 0; i < u.pool.size() && i < 1500; ++i) { u.get(c, u.pool[i]); }
    checkGuards(c, "lookups");
    c.label(cap == 1 ? "capacity:1" : cap < 8 ? "capacity:2..7" : cap < 256 ? "capacity:8..255" : "capacity:256+");
    if (ks > 255) { c.label("key:>255 bytes"); }
    if (u.overwrites) { c.label("overwrites"); }
    if (u.refusals) { c.label("refused when full"); }
    if ((u.overwrites || u.refusals) && u.pool.size() >= 2) { c.nontrivial(); }
}

static const struct { size_t ks, vs, cap; bool slow; } BIG[] = {{4, 2, 66000, true}, {300, 300, 300, false}, {70000, 1, 3, false}, {1, 70000, 3, false}, {2, 9, 8000, false}, {256, 257, 257, false}, {129, 1, 600, false}, {65537, 2, 4, false}, {66000, 1, 5, false}};
static const uint64_t NBIG = sizeof(BIG) / sizeof(BIG[0]);
uint64_t enumCount(bool thorough) { return NBIG + 2 + (thorough ? 2 : 1); }
void enumCase(Ctx& c, uint64_t i, bool) {
    if (i >= NBIG && i < NBIG + 2) { bigMap(c, i - NBIG); return; }
    if (i >= NBIG) { longMap(c, i - NBIG - 2); return; }
    size_t ks = BIG[i].ks, vs = BIG[i].vs, cap = BIG[i].cap;
#ifdef IM_ASAN
    if (BIG[i].slow) { return; }
#endif
    c.label("enum:large maps");
    c.nontrivial();
    c.distinctKey(7ull << 40 | i);
    Buf obj(c, sizeof(Map_t), 0), kb(c, ks * cap), vb(c, vs * cap);
    MapUT u(c, (Map_t*)obj.p, kb.p, vb.p, ks, vs, cap);
    NOTE(c, "key size %zu, value size %zu, capacity %zu", ks, vs, cap);
    u.init(c);
    auto keyOf = [&](size_t k) {  // differs from its neighbours in one byte only, at changing places
        Bytes b(ks, 0x5A);
        for (size_t j = 0; j < 4 && j < ks; ++j) { b[j % 2 != (ks < 70000 && ks > 65536) ? ks - 1 - j / 2 : j / 2] = (uint8_t)(k >> (8 * j)); }
        return b;
    };
    size_t limit = ks == 1 ? std::min<size_t>(cap, 255) : cap;
    uint64_t n = 0;
    for (size_t k = 0; k < limit; ++k, ++n) {
        u.insertKey(c, keyOf(k));
        if (k % 500 == 0) { alive(); u.get(c, keyOf(k / 2)); u.get(c, keyOf(k + 1)); }
    }
    u.insertKey(c, keyOf(limit));
    for (size_t k = 0; k < limit; k += 1 + limit / 300, ++n) { u.get(c, keyOf(k)); alive(); }
    for (size_t k = limit - std::min<size_t>(limit, 5); k < limit; ++k) { u.insertKey(c, keyOf(k)); }
    u.get(c, keyOf(0));
    u.get(c, keyOf(limit - 1));
    u.get(c, keyOf(limit));
    checkGuards(c, "large map");
    c.evals(n);
}
}  // namespace im
