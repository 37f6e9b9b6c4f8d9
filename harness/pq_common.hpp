#pragma once
#include "containers.hpp"
// histories for P01 / P02; `overflow`: how often the queue is pushed beyond full
static void pqHistory(im::Ctx& c, bool overflow) {
    using namespace im;
    using namespace cont;
    size_t cap = overflow && c.chance(2, 3) ? 1 + c.below(8) : capacity(c), es = elemSize(c);
    if (cap > 1200) { cap = 1200; }
    while (cap * es > 1000000) { es = 1 + es / 2; }
    Buf obj(c, sizeof(PriorityQueue_t), 0), st(c, cap * es), ps(c, cap * 4, 0);
    c.fill(obj.p, obj.n);
    st.set(c.byte());
    ps.set(c.byte());
    PqUT u(c, (PriorityQueue_t*)obj.p, (uint32_t*)ps.p, st.p, cap, es);
    NOTE(c, "capacity %zu, element size %zu", cap, es);
    u.init(c);
    u.status(c, "init");
    size_t budget = cap > 100 ? 3 * cap + 50 : 400, out = 0;
    unsigned steps = (unsigned)c.size(50);
    auto enq = [&] {
        if (!overflow && u.model.size() == cap && !c.chance(1, 6)) { return; }
        u.enqueue(c, u.priority(c));
        checkGuards(c, "enqueue");
    };
    auto deq = [&] {
        ++out;
        u.dequeue(c);
        checkGuards(c, "dequeue");
    };
    for (unsigned i = 0; i < steps && budget > 0; ++i) {
        size_t k = 1;
        switch (c.below(10)) {
            case 0: case 1: case 2: enq(); break;
            case 3: case 4: deq(); break;
            case 5: k = c.size(std::min<size_t>(cap + 2, budget)); for (size_t j = 0; j < k; ++j) { enq(); } break;
            case 6: k = c.size(std::min<size_t>(cap + 2, budget)); for (size_t j = 0; j < k; ++j) { deq(); } break;
            case 7: k = std::min(cap - u.model.size() + (overflow ? c.below(6) : 0), budget); for (size_t j = 0; j < k; ++j) { enq(); } break;
            case 8:
                if (!u.model.empty()) {  // a priority related to a stored one
                    uint32_t p = u.model[c.below(u.model.size())].p + (uint32_t)c.below(3) - 1;
                    if (overflow || u.model.size() < cap) { u.enqueue(c, p); checkGuards(c, "enqueue"); }
                }
                break;
            default:
                if (c.chance(1, 6)) { u.init(c); NOTE(c, "re-init"); } else { u.style = (unsigned)c.below(5); }
        }
        budget -= std::min(budget, k);
        u.status(c, "a step");
    }
    size_t left = u.model.size();
    while (!u.model.empty()) { deq(); }
    u.status(c, "draining");
    deq();
    checkGuards(c, "draining");
    c.label(cap == 1 ? "capacity:1" : cap < 8 ? "capacity:2..7" : cap < 256 ? "capacity:8..255" : "capacity:256+");
    if (es > 255) { c.label("element:>255 bytes"); }
    if (u.ties) { c.label("ties"); }
    if (u.evictions) { c.label("evictions"); }
    if (u.refusals) { c.label("refusals"); }
    if (overflow ? (u.evictions || u.refusals) && left : out > 2 && u.ties) { c.nontrivial(); }
}

// large queues: capacities, element sizes and products beyond 8 and 16 bits
static const struct { size_t cap, es; } PQ_BIG[] = {{70000, 1}, {300, 300}, {33000, 2}, {2, 70000}, {257, 256}, {256, 257}, {65537, 2}, {1, 65536}, {16385, 5}};
static const uint64_t PQ_NBIG = sizeof(PQ_BIG) / sizeof(PQ_BIG[0]);
static void pqBig(im::Ctx& c, uint64_t i, bool overflow) {
    using namespace im;
    using namespace cont;
    size_t cap = PQ_BIG[i].cap, es = PQ_BIG[i].es;
    c.label("enum:large queues");
    c.nontrivial();
    c.distinctKey(7ull << 40 | i);
    Buf obj(c, sizeof(PriorityQueue_t), 0), st(c, cap * es), ps(c, cap * 4, 0);
    PqUT u(c, (PriorityQueue_t*)obj.p, (uint32_t*)ps.p, st.p, cap, es);
    u.fast = true;
    NOTE(c, "capacity %zu, element size %zu", cap, es);
    u.init(c);
    uint64_t n = 0;
    for (size_t k = 0; k < cap; ++k, ++n) { u.enqueue(c, cap - k <= 5 ? 500 + (uint32_t)(cap - k) / 2 : 1000 + (uint32_t)((k * 2654435761u) % 1000)); }
    for (uint32_t k = 0; k < 20; ++k, ++n) {
        alive();
        if (overflow) {
            u.enqueue(c, k % 4 == 3 ? 1 : 3000 + k % 3);
        } else {
            u.dequeue(c);
            if (k % 3 == 2) { u.enqueue(c, 5000 - k); }
        }
    }
    for (uint32_t k = 0; k < 12; ++k, ++n) { u.dequeue(c); u.status(c, "dequeue"); }
    for (uint32_t k = 0; k < 4; ++k, ++n) { u.enqueue(c, 7000 + k % 2); u.dequeue(c); }
    if (cap <= 1000) {
        while (!u.model.empty()) { u.dequeue(c); ++n; }
        u.dequeue(c);
    }
    checkGuards(c, "large queue");
    c.evals(n);
}
