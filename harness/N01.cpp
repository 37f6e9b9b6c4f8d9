#include "containers.hpp"
using namespace im;
using namespace cont;
namespace im {
const Prop PROP = {"N01",
    "2 to 6 instances of queues, priority queues, maps and task tables whose objects and storage lie back to back in one block, operated in a random interleaving of up to 80 steps; "
    "each result compared with a per-instance model, and after each step all bytes of the other instances compared with before. Non-trivial: at least two instances used",
    80000, 1300000, 30000, 1000000, 2048};

struct Part { size_t at, n; };
struct Inst {
    int kind;
    std::vector<Part> parts;
    std::unique_ptr<QueueUT> q;
    std::unique_ptr<PqUT> p;
    std::unique_ptr<MapUT> m;
    std::unique_ptr<SchedUT> s;
    bool usedUp = false;
};
void runCase(Ctx& c) {
    unsigned k = 2 + (unsigned)c.below(5);
    std::vector<Inst> v(k);
    struct Dim { size_t cap, es, vs; };
    std::vector<Dim> d(k);
    size_t top = 0;
    auto place = [&](Inst& x, size_t n, size_t align) {
        top = (top + align - 1) / align * align;
        x.parts.push_back({top, n});
        top += n;
    };
    bool sameKind = c.chance(1, 3);
    int kind0 = (int)c.below(4);
    for (unsigned i = 0; i < k; ++i) {
        Inst& x = v[i];
        x.kind = sameKind ? kind0 : (int)c.below(4);
        d[i] = {1 + c.size(c.chance(1, 10) ? 260 : 6), 1 + c.size(c.chance(1, 10) ? 260 : 6), 1 + c.size(6)};
        switch (x.kind) {
            case 0: place(x, sizeof(Queue_t), 8); break;
            case 1: place(x, sizeof(PriorityQueue_t), 8); break;
            case 2: place(x, sizeof(Map_t), 8); break;
            default: place(x, d[i].cap * sizeof(SchedulerTask_t), 8);
        }
    }
    for (unsigned i = 0; i < k; ++i) {
        Inst& x = v[i];
        if (x.kind == 0) { place(x, d[i].cap * d[i].es, 1); }
        if (x.kind == 1) { place(x, d[i].cap * 4, 4); place(x, d[i].cap * d[i].es, 1); }
        if (x.kind == 2) { place(x, d[i].cap * d[i].es, 1); place(x, d[i].cap * d[i].vs, 1); }
    }
    Buf block(c, top, 0);
    c.fill(block.p, block.n);
    static const char* N[] = {"queue", "priority queue", "map", "task table"};
    static const char* TAG[] = {"#0", "#1", "#2", "#3", "#4", "#5", "#6", "#7"};
    for (unsigned i = 0; i < k; ++i) {
        Inst& x = v[i];
        auto at = [&](size_t j) { return block.p + x.parts[j].at; };
        NOTE(c, "#%u: %s, capacity %zu", i, N[x.kind], d[i].cap);
        if (x.kind == 0) { x.q.reset(new QueueUT(c, (Queue_t*)at(0), at(1), d[i].cap, d[i].es)); x.q->tag = TAG[i]; }
        if (x.kind == 1) { x.p.reset(new PqUT(c, (PriorityQueue_t*)at(0), (uint32_t*)at(1), at(2), d[i].cap, d[i].es)); x.p->tag = TAG[i]; }
        if (x.kind == 2) { x.m.reset(new MapUT(c, (Map_t*)at(0), at(1), at(2), d[i].es, d[i].vs, d[i].cap)); x.m->tag = TAG[i]; }
        if (x.kind == 3) { x.s.reset(new SchedUT(c, (SchedulerTask_t*)at(0), (uint32_t)d[i].cap, (uint32_t)d[i].cap)); x.s->tag = TAG[i]; x.s->dirty(c); }
    }
    Bytes before;
    auto others = [&](unsigned me, const char* what) {  // every byte not belonging to `me` is unchanged
        Bytes mine(before);
        for (const Part& pt : v[me].parts) { memcpy(mine.data() + pt.at, block.p + pt.at, pt.n); }
        if (memcmp(mine.data(), block.p, top) != 0) {
            size_t i = 0;
            while (mine[i] == block[i]) { ++i; }
            for (unsigned j = 0; j < k; ++j) {
                for (const Part& pt : v[j].parts) {
                    if (i >= pt.at && i < pt.at + pt.n) { c.fail("%s on instance #%u (%s) changed a byte of instance #%u (%s)", what, me, N[v[me].kind], j, N[v[j].kind]); }
                }
            }
            c.fail("%s on instance #%u (%s) changed a byte outside any instance", what, me, N[v[me].kind]);
        }
    };
    for (unsigned i = 0; i < k; ++i) {
        before = block.copy();
        Inst& x = v[i];
        if (x.q) { x.q->init(c); }
        if (x.p) { x.p->init(c); }
        if (x.m) { x.m->init(c); }
        if (x.s) { x.s->init(c); }
        others(i, "init");
    }
    unsigned steps = (unsigned)c.size(80), used = 0;
    for (unsigned st = 0; st < steps; ++st) {
        unsigned i = (unsigned)c.below(k);
        Inst& x = v[i];
        if (!x.usedUp) { x.usedUp = true; ++used; }
        before = block.copy();
        unsigned reps = c.chance(1, 6) ? 1 + (unsigned)c.size(d[i].cap) : 1;
        unsigned op = (unsigned)c.below(8);
        for (unsigned r = 0; r < reps; ++r) {
            if (x.q) {
                if (op < 4) { x.q->enqueue(c); } else if (op < 6) { x.q->read(c, 0); } else { x.q->read(c, (int)op - 5); }
                x.q->status(c, "a step");
            }
            if (x.p) {
                if (op < 5) { x.p->enqueue(c, x.p->priority(c)); } else { x.p->dequeue(c); }
                x.p->status(c, "a step");
            }
            if (x.m) {
                if (op < 5) { x.m->insert(c); } else { Bytes kk = x.m->makeKey(c); x.m->get(c, kk); }
            }
            if (x.s) {
                if (op < 4) { x.s->add(c); } else if (op < 6) { x.s->run(c, 0); } else if (op == 6) { x.s->release(c); } else { x.s->toggle(c); }
            }
        }
        if (op == 7 && c.chance(1, 6)) {
            if (x.q) { x.q->init(c); }
            if (x.p) { x.p->init(c); }
            if (x.m) { x.m->init(c); }
            if (x.s) { x.s->init(c); }
            c.label("re-initialised one of several");
        }
        others(i, "a step");
        checkGuards(c, "a step");
    }
    c.label(k == 2 ? "instances:2" : k == 3 ? "instances:3" : "instances:4..6");
    if (sameKind) { c.label("all of one kind"); }
    if (used >= 2) { c.nontrivial(); }
}
}  // namespace im
