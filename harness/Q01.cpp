#include "endurance.hpp"
using namespace im;
using namespace cont;
namespace im {
const Prop PROP = {"Q01",
    "histories of up to 60 steps (single operations, runs of enqueues or dequeues, fill up, drain, null arguments, re-initialisation) on a queue of capacity 1..5001 and "
    "element size 1..4001 in guarded storage, every step compared with a list model; rings with capacities and byte sizes beyond 2^16 enumerated. Storage of more than 2^32 bytes and 2^32 operations enumerated. Non-trivial: at least one element went through and the ring wrapped or became full",
    120000, 2000000, 40000, 1500000, 2048};

void runCase(Ctx& c) {
    size_t cap = capacity(c), es = elemSize(c);
    while (cap * es > 4000000) { es = 1 + es / 2; }
    Buf obj(c, sizeof(Queue_t), 0), st(c, cap * es);
    c.fill(obj.p, obj.n);
    st.set(c.byte());
    QueueUT u(c, (Queue_t*)obj.p, st.p, cap, es);
    NOTE(c, "capacity %zu, element size %zu", cap, es);
    u.init(c);
    u.status(c, "init");
    size_t through = 0, fulls = 0, budget = cap > 400 ? 4 * cap + 50 : 800;
    unsigned steps = (unsigned)c.size(60);
    auto enq = [&] { if (u.enqueue(c)) { ++through; } else { ++fulls; } checkGuards(c, "enqueue"); };
    auto deq = [&] { u.read(c, 0); checkGuards(c, "dequeue"); };
    for (unsigned i = 0; i < steps && budget > 0; ++i) {
        size_t k = 1;
        switch (c.below(12)) {
            case 0: case 1: case 2: enq(); break;
            case 3: case 4: deq(); break;
            case 5: u.read(c, 1); break;
            case 6: u.read(c, 2); break;
            case 7: k = c.size(std::min<size_t>(cap + 2, budget)); for (size_t j = 0; j < k; ++j) { enq(); } break;
            case 8: k = c.size(std::min<size_t>(cap + 2, budget)); for (size_t j = 0; j < k; ++j) { deq(); } break;
            case 9: k = std::min(cap - u.model.size() + c.below(2), budget); for (size_t j = 0; j < k; ++j) { enq(); } break;
            case 10: k = std::min(u.model.size() + c.below(2), budget); for (size_t j = 0; j < k; ++j) { deq(); } break;
            default:
                if (c.chance(1, 4)) { u.init(c); NOTE(c, "re-init"); } else if (c.flag()) { u.nulls(c); } else {
                    // keep the fill level, move round the ring
                    k = std::min(c.size(2 * cap), budget);
                    for (size_t j = 0; j < k; ++j) { if (!u.model.empty()) { deq(); } enq(); }
                }
        }
        budget -= std::min(budget, k + 1);
        u.status(c, "a step");
        u.read(c, 1);
        u.read(c, 2);
        checkGuards(c, "a step");
    }
    while (!u.model.empty()) { deq(); }
    u.status(c, "draining");
    deq();
    checkGuards(c, "draining");
    c.label(cap == 1 ? "capacity:1" : cap < 8 ? "capacity:2..7" : cap < 256 ? "capacity:8..255" : "capacity:256+");
    if (es > 255) { c.label("element:>255 bytes"); }
    if (through > cap) { c.label("wrapped"); }
    if (fulls) { c.label("refused when full"); }
    if (through && (through > cap || fulls)) { c.nontrivial(); }
}

// large rings: capacities, element sizes and products beyond 8 and 16 bits
static const struct { size_t cap, es; } BIG[] = {{70000, 1}, {70000, 3}, {300, 300}, {33000, 2}, {2, 70000}, {257, 256}, {256, 257}, {65536, 1}, {65537, 2}, {1, 65536}, {16385, 5}, {3, 40000}};
static const uint64_t NBIG = sizeof(BIG) / sizeof(BIG[0]);
uint64_t enumCount(bool thorough) { return NBIG + 1 + (thorough ? 4 : 2); }
void enumCase(Ctx& c, uint64_t i, bool) {
    if (i == NBIG) { bigQueue(c, 0); return; }
    if (i > NBIG) { longQueue(c, i - NBIG - 1); return; }
    size_t cap = BIG[i].cap, es = BIG[i].es;
    c.label("enum:large rings");
    c.nontrivial();
    c.distinctKey(7ull << 40 | i);
    Buf obj(c, sizeof(Queue_t), 0), st(c, cap * es);
    QueueUT u(c, (Queue_t*)obj.p, st.p, cap, es);
    NOTE(c, "capacity %zu, element size %zu", cap, es);
    u.init(c);
    uint64_t n = 0;
    auto enq = [&](size_t k) { for (; k--; ++n) { u.enqueue(c); u.status(c, "enqueue"); } };
    auto deq = [&](size_t k) { for (; k--; ++n) { u.read(c, 0); u.status(c, "dequeue"); } };
    enq(cap + 1);
    u.read(c, 1);
    u.read(c, 2);
    deq(cap / 2 + 1);
    enq(cap);
    u.read(c, 1);
    u.read(c, 2);
    deq(cap + 1);
    enq(cap / 3 + 1);
    u.read(c, 2);
    deq(cap / 3 + 2);
    checkGuards(c, "large ring");
    c.evals(n);
}
}  // namespace im
