#include <memory>
#include "nest.hpp"
using namespace im;
using namespace ops;
using namespace nest;

// The library is compiled with callbacks at its basic blocks, loads and stores (see check.py):
// each is a moment where an interrupt may strike.
static bool g_on = false;
static uint64_t g_points = 0, g_next = ~0ull;
static void strike();
static inline void moment() {
    if (g_on && g_points++ == g_next) { strike(); }
}
extern "C" {
__attribute__((weak)) void __sanitizer_cov_trace_pc() {  // libFuzzer has its own
    moment(); }
#define MOMENT(n) \
    void __sanitizer_cov_load##n(void*) { moment(); } \
    void __sanitizer_cov_store##n(void*) { moment(); }
MOMENT(1) MOMENT(2) MOMENT(4) MOMENT(8) MOMENT(16)
}

namespace im {
const Prop PROP = {"R02",
    "1..3 outer calls - any stateless operation, a step of a queue, priority queue or map, a run of a task table - each interrupted at 1..4 drawn moments (any basic block, load or store of the library) "
    "by an inner call of any kind on other data, which may be interrupted in its turn; all stateless results compared with those of undisturbed calls, containers and tables with their models. "
    "Non-trivial: at least one call was interrupted inside the library",
    100000, 2000000, 30000, 1000000, 2048};

struct Inst {
    std::unique_ptr<cont::QueueUT> q;
    std::unique_ptr<cont::PqUT> p;
    std::unique_ptr<cont::MapUT> m;
    std::unique_ptr<Table> t;
    bool busy = false;
};
struct World {
    Ctx& c;
    std::vector<Op> pool;
    std::vector<uint64_t> length;  // moments of an undisturbed call
    std::vector<Inst> inst;
    unsigned depth = 0, strikes = 0, deep = 0, runs = 0;
    explicit World(Ctx& c_) : c(c_) {}

    void stateless(size_t k, const char* how) {
        Bytes got = run(c, pool[k]);
        if (got != pool[k].result) {
            c.fail("%s %s gave %s, undisturbed it gives %s", NAMES[pool[k].kind], how, hex(got.data(), got.size()).c_str(), hex(pool[k].result.data(), pool[k].result.size()).c_str());
        }
    }
    // runs f with g_on; interrupts at the given moment, and possibly again
    template <class F> void disturbed(uint64_t len, F f) {
        bool on0 = g_on;
        uint64_t p0 = g_points, n0 = g_next;
        left.push_back((unsigned)c.below(4));
        range.push_back(len);
        g_points = 0;
        g_next = len ? c.u32uniform() % len : 0;
        g_on = true;
        f();
        g_on = on0;
        g_points = p0;
        g_next = n0;
        left.pop_back();
        range.pop_back();
    }
    std::vector<unsigned> left;
    std::vector<uint64_t> range;
    void call(bool inner) {
        size_t what = c.below(pool.size() + 2 * inst.size());
        if (what < pool.size()) {
            if (inner && (depth >= 3 || c.flag())) {
                g_on = false;
                NOTE(c, "call #%zu %s", what, NAMES[pool[what].kind]);
                stateless(what, "called from an interrupt");
            } else {
                NOTE(c, "call #%zu %s", what, NAMES[pool[what].kind]);
                disturbed(length[what], [&] { stateless(what, inner ? "called from an interrupt and interrupted" : "interrupted by other calls"); });
            }
            return;
        }
        Inst& x = inst[(what - pool.size()) / 2];
        if (x.busy || runs > 40) { return; }
        x.busy = true;
        ++runs;
        bool quiet = inner && depth >= 3;
        auto step = [&] {
            if (x.q) {
                NOTE(c, "queue step");
                if (c.flag()) { x.q->enqueue(c); } else { x.q->read(c, (int)c.below(3)); }
                x.q->status(c, "an interrupted step");
            } else if (x.p) {
                NOTE(c, "priority queue step");
                if (c.chance(2, 3)) { x.p->enqueue(c, (uint32_t)c.below(4)); } else { x.p->dequeue(c); }
                x.p->status(c, "an interrupted step");
            } else if (x.m) {
                NOTE(c, "map step");
                if (c.chance(2, 3)) { x.m->insert(c); } else { cont::Bytes k = x.m->makeKey(c); x.m->get(c, k); }
            } else {
                NOTE(c, "scheduler run");
                runTable(c, *x.t, "interrupted run", [](int) {});
            }
        };
        if (quiet) {
            g_on = false;
            step();
        } else {
            disturbed(60, step);
        }
        x.busy = false;
    }
    void strike() {
        if (depth >= 3 || strikes > 24) { return; }
        bool on0 = g_on;
        uint64_t p0 = g_points, n0 = g_next;
        ++depth;
        ++strikes;
        if (depth > 1) { ++deep; }
        NOTE(c, "{ at moment %llu:", (unsigned long long)n0);
        g_on = false;
        g_next = ~0ull;
        call(true);
        checkGuards(c, "an interrupt");
        NOTE(c, "}");
        --depth;
        g_on = on0;
        g_points = p0;
        g_next = n0;
        if (left.back() > 0) {
            --left.back();
            g_next = p0 + c.u32uniform() % (range.back() / 2 + 1);
        }
    }
};
static World* g_world = nullptr;

void runCase(Ctx& c) {
    g_on = false;
    nested() = nullptr;
    onTask() = nullptr;
    World w(c);
    g_world = &w;
    size_t k = 1 + c.below(4);
    int same = c.chance(1, 2) ? (int)c.below(KINDS) : -1;  // half of the cases: one kind only, so that it interrupts itself
    for (size_t i = 0; i < k; ++i) {
        Op o = make(c, same);
        g_points = 0;
        g_next = ~0ull;
        g_on = true;
        o.result = run(c, o);
        g_on = false;
        w.length.push_back(g_points);
        w.pool.push_back(o);
        c.label(NAMES[o.kind]);
        NOTE(c, "#%zu %s of %zu bytes (%llu moments)", i, NAMES[o.kind], o.a.size(), (unsigned long long)g_points);
    }
    size_t n = c.below(5);
    for (size_t i = 0; i < n; ++i) {
        Inst x;
        size_t cap = 1 + c.mostly(4, 60), es = 1 + c.mostly(9, 60), filled = c.mostly(2, cap + 2);
        switch (c.below(4)) {
            case 0: {
                Buf o(c, sizeof(Queue_t), 0), s(c, cap * es);
                x.q.reset(new cont::QueueUT(c, (Queue_t*)o.p, s.p, cap, es));
                x.q->init(c);
                while (filled--) { x.q->enqueue(c); }
                break;
            }
            case 1: {
                Buf o(c, sizeof(PriorityQueue_t), 0), pp(c, cap * 4, 0), s(c, cap * es);
                x.p.reset(new cont::PqUT(c, (PriorityQueue_t*)o.p, (uint32_t*)pp.p, s.p, cap, es));
                x.p->init(c);
                while (filled--) { x.p->enqueue(c, (uint32_t)c.below(4)); }
                break;
            }
            case 2: {
                Buf o(c, sizeof(Map_t), 0), mk(c, cap * es), mv(c, cap * es);
                x.m.reset(new cont::MapUT(c, (Map_t*)o.p, mk.p, mv.p, es, es, cap));
                x.m->init(c);
                while (filled--) { x.m->insert(c); }
                break;
            }
            default:
                x.t.reset(new Table(c, (int)i * 6 > 12 ? 12 : (int)i * 6));
        }
        w.inst.push_back(std::move(x));
    }
    size_t outer = 1 + c.below(3);
    for (size_t i = 0; i < outer; ++i) { w.call(false); }
    g_on = false;
    if (w.strikes) { c.nontrivial(); }
    if (w.deep) { c.label("interrupted interrupts"); }
    if (same >= 0 && w.strikes) { c.label("interrupted by its own kind"); }
    g_world = nullptr;
}
uint64_t enumCount(bool thorough) { return KINDS * (thorough ? 40 : 4); }
// every moment of one call, interrupted by another call of the same kind
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    g_on = false;
    nested() = nullptr;
    onTask() = nullptr;
    c.label("enum:every moment of a call");
    c.nontrivial();
    World w(c);
    for (int k = 0; k < 2; ++k) {
        Op o = make(c, (int)(i % KINDS));
        g_points = 0;
        g_next = ~0ull;
        g_on = true;
        o.result = run(c, o);
        g_on = false;
        w.length.push_back(g_points);
        w.pool.push_back(o);
    }
    uint64_t n = w.length[0], step = n > (thorough ? 6000 : 700) ? n / (thorough ? 6000 : 700) + 1 : 1, at = step > 1 ? c.below(step) : 0, cnt = 0;
    for (; at < n; at += step) {
        arenaReset();
        g_world = &w;
        w.strikes = 0;
        w.depth = 2;  // the inner call is not interrupted itself
        w.left.assign(1, 0);
        w.range.assign(1, n);
        g_points = 0;
        g_next = at;
        g_on = true;
        w.stateless(0, "interrupted by the same kind of call");
        g_on = false;
        c.distinctKey(i << 32 | at);
        ++cnt;
    }
    g_world = nullptr;
    c.evals(cnt ? cnt : 1);
}
}  // namespace im
static void strike() {
    if (im::g_world) { im::g_world->strike(); }
}
