#include "nest.hpp"
using namespace im;
using namespace ops;
using namespace nest;
namespace im {
const Prop PROP = {"R01",
    "an outer sort (four algorithms, up to 20 elements of up to 64 bytes) or scheduler run (tables of 1..12 slots) whose comparison function or tasks perform, at drawn moments, "
    "1..4 inner operations on other data - any stateless operation (half of them sorts), steps of a queue, priority queue or map, runs of another task table - "
    "again with operations inside them; inner and outer results compared with the same operations done alone. Non-trivial: at least two inner operations were performed inside the outer one",
    120000, 2000000, 40000, 1500000, 2048};

struct World {
    Ctx& c;
    std::vector<Op> inner;
    std::unique_ptr<cont::QueueUT> q;
    std::unique_ptr<cont::PqUT> p;
    std::unique_ptr<cont::MapUT> m;
    std::unique_ptr<Table> other;
    uint64_t done = 0, deep = 0;
    unsigned depth = 0;
    Rng r;

    explicit World(Ctx& c_) : c(c_) {}
    // one inner operation, checked
    void act() {
        if (done > 60 || depth > 2) { return; }
        ++done;
        ++depth;
        if (depth > 1) { ++deep; }
        unsigned what = (unsigned)r.below(8);
        if (what == 0 && q) {
            if (r.below(2)) { q->enqueue(c); } else { q->read(c, (int)r.below(3)); }
            q->status(c, "a step inside a callback");
        } else if (what == 1 && p) {
            if (r.below(3)) { p->enqueue(c, (uint32_t)r.below(4)); } else { p->dequeue(c); }
            p->status(c, "a step inside a callback");
        } else if (what == 2 && m) {
            if (r.below(2)) { m->insert(c); } else { cont::Bytes k = m->makeKey(c); m->get(c, k); }
        } else if (what == 3 && other && depth == 1) {
            runTable(*other, "inner run", depth < 2 && r.below(2));
        } else {
            const Op& o = inner[r.below(inner.size())];
            bool nest = depth < 2 && r.below(2);
            std::function<void()> saved;
            saved.swap(nested());
            if (nest) { nested() = [this] { if (r.below(3) == 0) { act(); } }; }
            Bytes got = run(c, o);
            nested() = nullptr;
            saved.swap(nested());
            if (got != o.result) {
                c.fail("%s called from a comparison function or task gave %s, on its own %s", NAMES[o.kind], hex(got.data(), got.size()).c_str(), hex(o.result.data(), o.result.size()).c_str());
            }
        }
        --depth;
        checkGuards(c, "an operation inside a callback");
    }
    void runTable(Table& t, const char* which, bool busy) {
        nest::runTable(c, t, which, [&](int) { if (busy && r.below(2)) { act(); } });
    }
};

void runCase(Ctx& c) {
    nested() = nullptr;
    onTask() = nullptr;
    World w(c);
    size_t k = 1 + c.below(4);
    for (size_t i = 0; i < k; ++i) {
        Op o = make(c, c.flag() ? 13 : -1);
        o.result = run(c, o);
        w.inner.push_back(o);
        c.label(NAMES[o.kind]);
        NOTE(c, "inner %s", NAMES[o.kind]);
    }
    size_t cap = 1 + c.mostly(5, 60), es = 1 + c.mostly(9, 60);
    Buf qo(c, sizeof(Queue_t), 0), qs(c, cap * es);
    Buf po(c, sizeof(PriorityQueue_t), 0), pp(c, cap * 4, 0), ps(c, cap * es);
    Buf mo(c, sizeof(Map_t), 0), mk(c, cap * es), mv(c, cap * es);
    if (c.flag()) {
        w.q.reset(new cont::QueueUT(c, (Queue_t*)qo.p, qs.p, cap, es));
        w.q->init(c);
        w.p.reset(new cont::PqUT(c, (PriorityQueue_t*)po.p, (uint32_t*)pp.p, ps.p, cap, es));
        w.p->init(c);
        w.m.reset(new cont::MapUT(c, (Map_t*)mo.p, mk.p, mv.p, es, es, cap));
        w.m->init(c);
    }
    if (c.flag()) { w.other.reset(new Table(c, 12)); }
    bool sort = c.chance(2, 3);
    w.r.s = c.u32uniform();
    unsigned every = 1 + (unsigned)c.below(4);
    if (sort) {
        Op o = make(c, 13);
        o.result = run(c, o);
        NOTE(c, "outer sort %u, %zu bytes in elements of %u: %s", o.x, o.a.size(), o.y, hex(o.a.data(), o.a.size()).c_str());
        c.label(o.x == 0 ? "outer bubble sort" : o.x == 1 ? "outer heap sort" : o.x == 2 ? "outer insertion sort" : "outer selection sort");
        unsigned calls = 0;
        std::function<void()> hook = [&] { if (++calls % every == 0) { w.act(); } };
        nested() = hook;
        Bytes got = run(c, o);
        nested() = nullptr;
        if (got != o.result) {
            c.fail("a sort whose comparison function uses the library gave %s, with a plain comparison function %s", hex(got.data(), got.size()).c_str(), hex(o.result.data(), o.result.size()).c_str());
        }
    } else {
        c.label("outer scheduler run");
        Table t(c, 0);
        w.runTable(t, "outer run", true);
    }
    if (w.deep) { c.label("callbacks inside callbacks"); }
    if (w.done >= 2) { c.nontrivial(); }
}
uint64_t enumCount(bool) { return 0; }
void enumCase(Ctx&, uint64_t, bool) {}
}  // namespace im
