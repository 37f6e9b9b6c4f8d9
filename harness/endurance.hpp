// Long histories on one small instance: more operations than 16, and in plain
// builds 32, bits can count.
#pragma once
#include "containers.hpp"
#include "giant.hpp"

namespace cont {
// k even: 70000 rounds; odd: 2^32 and some
inline uint64_t rounds(uint64_t k) { return k % 2 == 0 ? 70000 : GIANTS ? (1ull << 32) + 1000 : 0; }
inline void start(Ctx& c, uint64_t k) {
    c.label(k % 2 ? "enum:2^32 operations" : "enum:70000 operations");
    c.nontrivial();
    c.distinctKey(9ull << 50 | k);
    im::patience(900);
}
inline uint16_t stamp(uint64_t i) { return (uint16_t)(i * 40503 >> 3); }

inline void longQueue(Ctx& c, uint64_t k) {
    uint64_t n = rounds(k);
    if (!n) { return; }
    start(c, k);
    const uint32_t cap = k % 4 < 2 ? 3 : 7, hold = 1 + (uint32_t)c.below(cap - 1);
    Buf obj(c, sizeof(Queue_t), 0), st(c, cap * 2);
    Queue_t* q = (Queue_t*)obj.p;
    if (!Queue_init(q, cap, 2, st.p)) { c.fail("initialisation failed"); }
    uint16_t v;
    for (uint64_t i = 0; i < n; ++i) {
        if (i % (1 << 20) == 0) { im::alive(); }
        v = stamp(i);
        if (!Queue_enqueue(q, (const uint8_t*)&v)) { c.fail("enqueue %llu into a queue of %u with %u elements failed", (unsigned long long)i, cap, hold); }
        if (i < hold) { continue; }
        v = 0;
        if (!Queue_dequeue(q, (uint8_t*)&v)) { c.fail("dequeue %llu from a queue of %u with %u elements failed", (unsigned long long)(i - hold), cap, hold); }
        if (v != stamp(i - hold)) { c.fail("dequeue %llu from a queue of %u with %u elements delivered %04x, expected %04x", (unsigned long long)(i - hold), cap, hold, v, stamp(i - hold)); }
    }
    for (uint64_t i = n - hold; i < n; ++i) {
        uint16_t r = 0;
        if (!Queue_rear(q, (uint8_t*)&r) || r != stamp(n - 1)) { c.fail("after %llu enqueues the rear is %04x, expected %04x", (unsigned long long)n, r, stamp(n - 1)); }
        if (!Queue_dequeue(q, (uint8_t*)&v) || v != stamp(i)) { c.fail("after %llu enqueues, element %llu was lost", (unsigned long long)n, (unsigned long long)i); }
    }
    if (!Queue_empty(q)) { c.fail("after %llu enqueues and dequeues the queue is not empty", (unsigned long long)n); }
    checkGuards(c, "a long history");
    c.evals(1000);
}
// elements of one priority keep their order; with `evict` the queue stays full and the lowest goes
inline void longPriority(Ctx& c, uint64_t k, bool evict) {
    uint64_t n = rounds(k);
    if (!n) { return; }
    start(c, k);
    const uint32_t cap = 3;
    Buf obj(c, sizeof(PriorityQueue_t), 0), st(c, cap * 2), ps(c, cap * 4, 0);
    PriorityQueue_t* q = (PriorityQueue_t*)obj.p;
    uint16_t v;
    uint32_t p = 5;
    PriorityQueueItem_t store = {(uint32_t*)ps.p, st.p}, it = {&p, (uint8_t*)&v};
    if (!PriorityQueue_init(q, cap, 2, &store)) { c.fail("initialisation failed"); }
    auto put = [&](uint64_t i, uint32_t prio) {
        v = stamp(i);
        p = prio;
        if (!PriorityQueue_enqueue(q, &it)) { c.fail("enqueue %llu failed", (unsigned long long)i); }
    };
    auto take = [&](uint64_t i) {
        v = 0;
        if (!PriorityQueue_dequeue(q, (uint8_t*)&v) || v != stamp(i)) { c.fail("a dequeue after about %llu enqueues delivered %04x, expected %04x", (unsigned long long)i, v, stamp(i)); }
    };
    if (!evict) {
        put(0, 5);
        put(1, 5);
        for (uint64_t i = 2; i < n; ++i) {
            if (i % (1 << 20) == 0) { im::alive(); }
            put(i, 5);
            take(i - 2);
        }
        take(n - 2);
        take(n - 1);
    } else {  // evicted and refused in turn; at the end the three newest of the highest are left
        put(0, 3);
        put(1, 3);
        put(2, 3);
        for (uint64_t i = 3; i < n; ++i) {
            if (i % (1 << 20) == 0) { im::alive(); }
            if (i % (1 << 30) == 0) {  // start again from low priorities
                take(i - 1);
                take(i - 2);
                take(i - 3);
                put(i - 3, 3);
                put(i - 2, 3);
                put(i - 1, 3);
            }
            put(i, 4 + (uint32_t)(i % (1 << 30)));
            p = 2;
            if (PriorityQueue_enqueue(q, &it)) { c.fail("after %llu enqueues a full queue accepted a lower priority", (unsigned long long)i); }
        }
        take(n - 1);
        take(n - 2);
        take(n - 3);
    }
    if (!PriorityQueue_empty(q)) { c.fail("after %llu enqueues and their dequeues the queue is not empty", (unsigned long long)n); }
    checkGuards(c, "a long history");
    c.evals(1000);
}
inline void longMap(Ctx& c, uint64_t k) {
    uint64_t n = rounds(k);
    if (!n) { return; }
    start(c, k);
    const int32_t cap = 3;
    Buf obj(c, sizeof(Map_t), 0), ks(c, cap), vs(c, cap * 2);
    Map_t* m = (Map_t*)obj.p;
    if (!Map_init(m, ks.p, vs.p, 1, 2, cap)) { c.fail("initialisation failed"); }
    for (uint64_t i = 0; i < n; ++i) {
        if (i % (1 << 20) == 0) { im::alive(); }
        uint8_t key = (uint8_t)(i % 3);
        uint16_t v = stamp(i), r = 0;
        if (!Map_insert(m, &key, (const uint8_t*)&v)) { c.fail("insert %llu failed", (unsigned long long)i); }
        key = (uint8_t)((i + 1) % 3);
        if (i >= 2 && (!Map_getValue(m, &key, (uint8_t*)&r) || r != stamp(i - 2))) { c.fail("after %llu inserts, key %u has value %04x, expected %04x", (unsigned long long)i, key, r, stamp(i - 2)); }
    }
    uint8_t key = 9;
    uint16_t v = 1;
    if (Map_getValue(m, &key, (uint8_t*)&v)) { c.fail("after %llu inserts a key that was never inserted is found", (unsigned long long)n); }
    if (Map_insert(m, &key, (const uint8_t*)&v)) { c.fail("after %llu inserts a full map accepted a new key", (unsigned long long)n); }
    checkGuards(c, "a long history");
    c.evals(1000);
}
// ---- storage of more than 2^31 or 2^32 bytes: few elements, zero but for their ends and middle
struct BigElement {
    Giant g;
    explicit BigElement(size_t n) : g(n, 0) {}
    void mark(uint8_t v) {
        uint8_t w[5] = {v, (uint8_t)(v * 3), (uint8_t)(v * 5), (uint8_t)(v * 7), (uint8_t)(v * 11)};
        for (unsigned i = 0; i < 5; ++i) { g.p[at(i)] = w[i]; }
    }
    size_t at(unsigned i) const { return i == 0 ? 0 : i == 4 ? g.n - 1 : g.n / 4 * i; }
    void expect(Ctx& c, uint8_t v, const char* what) {
        uint8_t w[5] = {v, (uint8_t)(v * 3), (uint8_t)(v * 5), (uint8_t)(v * 7), (uint8_t)(v * 11)};
        for (unsigned i = 0; i < 5; ++i) {
            if (g.p[at(i)] != w[i]) { c.fail("%s, elements of %zu bytes: byte %zu is %02x, expected %02x of element %u", what, g.n, at(i), g.p[at(i)], w[i], v); }
        }
        for (unsigned i = 0; i < 5; ++i) {  // elsewhere zero
            size_t p = at(i) + (i < 4 ? 1 : 0) - (i == 4 ? 2000 : 0);
            expectAll(c, what, g.p, p, p + 1999, 0);
        }
        im::alive();
    }
};
inline void bigStart(Ctx& c, uint64_t k) {
    c.label("enum:storage beyond 2^32 bytes");
    c.nontrivial();
    c.distinctKey(8ull << 50 | k);
    im::patience(900);
}
inline void bigQueue(Ctx& c, uint64_t k) {
    if (!GIANTS) { return; }
    bigStart(c, k);
    const uint32_t cap = 17;
    size_t es = (1ull << 28) + 3 + c.below(1000);
    Room room(c, (cap + 2) * es);
    if (!room) { return; }
    Giant st(cap * es, 0);
    BigElement e(es), out(es);
    if (!st.p || !e.g.p || !out.g.p) { return; }
    Queue_t q;
    if (!Queue_init(&q, cap, (uint32_t)es, st.p)) { c.fail("initialisation with %u elements of %zu bytes failed", cap, es); }
    for (unsigned i = 0; i < cap; ++i) {
        e.mark((uint8_t)(i + 1));
        if (!Queue_enqueue(&q, e.g.p)) { c.fail("enqueue %u of %u elements of %zu bytes failed", i, cap, es); }
        im::alive();
    }
    if (!Queue_rear(&q, out.g.p)) { c.fail("rear of a full queue failed"); }
    out.expect(c, cap, "rear");
    if (!Queue_front(&q, out.g.p)) { c.fail("front of a full queue failed"); }
    out.expect(c, 1, "front");
    for (unsigned i = 0; i < cap; ++i) {
        if (!Queue_dequeue(&q, out.g.p)) { c.fail("dequeue %u of %u elements of %zu bytes failed", i, cap, es); }
        out.expect(c, (uint8_t)(i + 1), "dequeue");
    }
}
inline void bigPriority(Ctx& c, uint64_t k, bool evict) {
    if (!GIANTS) { return; }
    bigStart(c, k);
    const uint32_t cap = 9;
    size_t es = (1ull << 29) + 3 + c.below(1000);
    Room room(c, (cap + 2) * es);
    if (!room) { return; }
    Giant st(cap * es, 0);
    BigElement e(es), out(es);
    if (!st.p || !e.g.p || !out.g.p) { return; }
    PriorityQueue_t q;
    uint32_t prio[cap], p = 0;
    PriorityQueueItem_t store = {prio, st.p}, it = {&p, e.g.p};
    if (!PriorityQueue_init(&q, cap, (uint32_t)es, &store)) { c.fail("initialisation with %u elements of %zu bytes failed", cap, es); }
    auto put = [&](uint32_t i, uint32_t pr) {
        e.mark((uint8_t)i);
        p = pr;
        if (!PriorityQueue_enqueue(&q, &it)) { c.fail("enqueue %u of elements of %zu bytes failed", i, es); }
        im::alive();
    };
    std::vector<std::pair<uint32_t, uint32_t>> model;  // id, priority
    for (uint32_t i = 1; i <= cap; ++i) {
        put(i, 100 + i % 3);
        model.push_back({i, 100 + i % 3});
    }
    if (evict) {
        for (uint32_t i = cap + 1; i <= cap + 2; ++i) {
            auto low = std::min_element(model.begin(), model.end(), [](auto& a, auto& b) { return a.second < b.second; });
            model.erase(low);
            put(i, 101);
            model.push_back({i, 101});
        }
    }
    for (unsigned i = 0; i < (evict ? cap : 4u); ++i) {
        auto hi = std::max_element(model.begin(), model.end(), [](auto& a, auto& b) { return a.second < b.second; });
        if (!PriorityQueue_dequeue(&q, out.g.p)) { c.fail("dequeue %u of elements of %zu bytes failed", i, es); }
        out.expect(c, (uint8_t)hi->first, "dequeue");
        model.erase(hi);
    }
}
inline void bigMap(Ctx& c, uint64_t k) {
    if (!GIANTS) { return; }
    bigStart(c, k);
    const int32_t cap = 17;
    bool wideKeys = k % 2 != 0;
    size_t es = (1ull << 28) + 3 + c.below(1000), ks = wideKeys ? es : 1, vs = wideKeys ? 1 : es;
    Room room(c, (cap + 2) * es);
    if (!room) { return; }
    Giant keys(cap * ks, 0), vals(cap * vs, 0);
    BigElement key(es), val(es);
    if (!keys.p || !vals.p || !key.g.p || !val.g.p) { return; }
    Map_t m;
    if (!Map_init(&m, keys.p, vals.p, (int32_t)ks, (int32_t)vs, cap)) { c.fail("initialisation with keys of %zu, values of %zu bytes failed", ks, vs); }
    for (int32_t i = 1; i <= cap; ++i) {
        uint8_t small = (uint8_t)i;
        (wideKeys ? key : val).mark((uint8_t)i);
        if (!Map_insert(&m, wideKeys ? key.g.p : &small, wideKeys ? &small : val.g.p)) { c.fail("insert %d of %d entries of %zu bytes failed", i, cap, es); }
        im::alive();
    }
    for (int32_t i = 1; i <= cap + 1; ++i) {
        uint8_t small = (uint8_t)i, got = 0;
        if (wideKeys) { key.mark((uint8_t)i); }
        bool ok = Map_getValue(&m, wideKeys ? key.g.p : &small, wideKeys ? &got : val.g.p);
        if (ok != (i <= cap)) { c.fail("lookup of entry %d of %d entries of %zu bytes returned %d", i, cap, es, ok); }
        if (ok && wideKeys && got != i) { c.fail("lookup of entry %d of %d with keys of %zu bytes delivered %u", i, cap, es, got); }
        if (ok && !wideKeys) { val.expect(c, (uint8_t)i, "lookup"); }
        im::alive();
    }
}
}  // namespace cont
