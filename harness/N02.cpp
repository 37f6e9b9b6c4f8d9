#include "containers.hpp"
using namespace im;
using namespace cont;
namespace im {
const Prop PROP = {"N02",
    "queue, priority queue or map; each size/capacity zero, positive or (map) negative, each pointer null or valid, object and storage with arbitrary previous contents or used before; "
    "rejected calls compare the object's bytes, accepted ones are filled to capacity and drained against the model. Non-trivial: every case",
    300000, 4000000, 60000, 2500000, 512};

static void sameObject(Ctx& c, const char* what, const Buf& o, const Bytes& before) {
    if (o.copy() != before) { c.fail("%s: a rejected initialisation changed the container object", what); }
}
template <class U> static void used(Ctx& c, U& u) {  // some history before the initialisation under test
    unsigned k = (unsigned)c.below(6);
    for (unsigned i = 0; i < k; ++i) { u.enqueue(c); }
    for (unsigned i = 0; i < k / 2; ++i) { u.read(c, 0); }
}
static uint32_t usize(Ctx& c, size_t good) { return c.chance(1, 4) ? 0 : (uint32_t)good; }
static int32_t ssize(Ctx& c, size_t good) {
    if (!c.chance(1, 4)) { return (int32_t)good; }
    return c.chance(1, 3) ? 0 : c.pick({-1, -2, INT32_MIN, INT32_MIN + 1, -255, -256, -65536, -(int32_t)good});
}
void runCase(Ctx& c) {
    c.nontrivial();
    size_t cap = 1 + c.size(c.chance(1, 10) ? 300 : 12), es = 1 + c.size(c.chance(1, 10) ? 300 : 8);
    unsigned kind = (unsigned)c.below(3);
    if (kind == 0) {
        Buf obj(c, sizeof(Queue_t), 0), st(c, cap * es);
        c.fill(obj.p, obj.n);
        c.fill(st.p, st.n);
        QueueUT u(c, (Queue_t*)obj.p, st.p, cap, es);
        if (c.flag()) { u.init(c); used(c, u); c.label("used before"); }
        uint32_t C = usize(c, cap), E = usize(c, es);
        uint8_t* S = c.chance(1, 4) ? nullptr : st.p;
        bool want = C && E && S;
        auto before = obj.copy();
        NOTE(c, "queue init capacity %u, element size %u, %s", C, E, S ? "storage" : "null");
        bool got = Queue_init(u.q, C, E, S);
        checkGuards(c, "init");
        c.label(got ? "queue accepted" : "queue rejected");
        if (got != want) { c.fail("queue init with capacity %u, element size %u and %s returned %d", C, E, S ? "storage" : "null storage", got); }
        if (!got) { sameObject(c, "queue", obj, before); u.init(c); }
        u.model.clear();
        u.status(c, "init");
        u.read(c, 1);
        u.read(c, 2);
        u.read(c, 0);
        for (size_t i = 0; i <= cap; ++i) { u.enqueue(c); u.status(c, "enqueue"); }
        for (size_t i = 0; i <= cap; ++i) { u.read(c, 0); }
        u.status(c, "draining");
    } else if (kind == 1) {
        Buf obj(c, sizeof(PriorityQueue_t), 0), st(c, cap * es), ps(c, cap * 4, 0);
        c.fill(obj.p, obj.n);
        c.fill(st.p, st.n);
        c.fill(ps.p, ps.n);
        PqUT u(c, (PriorityQueue_t*)obj.p, (uint32_t*)ps.p, st.p, cap, es);
        if (c.flag()) {
            u.init(c);
            unsigned k = (unsigned)c.below(6);
            for (unsigned i = 0; i < k; ++i) { u.enqueue(c, u.priority(c)); }
            for (unsigned i = 0; i < k / 2; ++i) { u.dequeue(c); }
            c.label("used before");
        }
        uint32_t C = usize(c, cap), E = usize(c, es);
        PriorityQueueItem_t it = {u.prio, st.p};
        PriorityQueueItem_t* I = c.chance(1, 4) ? nullptr : &it;
        PriorityQueue_t* Q = c.chance(1, 5) ? nullptr : u.q;
        bool want = C && E && I && Q;
        auto before = obj.copy();
        NOTE(c, "priority queue init capacity %u, element size %u, %s, %s", C, E, I ? "storage" : "null storage", Q ? "object" : "null object");
        bool got = PriorityQueue_init(Q, C, E, I);
        checkGuards(c, "init");
        c.label(got ? "priority queue accepted" : "priority queue rejected");
        if (got != want) { c.fail("priority queue init with capacity %u, element size %u, %s, %s returned %d", C, E, I ? "storage" : "null storage", Q ? "object" : "null object", got); }
        if (it.priority != u.prio || it.element != st.p) { c.fail("priority queue init modified the item descriptor"); }
        if (!got) { sameObject(c, "priority queue", obj, before); u.init(c); }
        u.model.clear();
        u.status(c, "init");
        u.dequeue(c);
        for (size_t i = 0; i < cap; ++i) { u.enqueue(c, u.priority(c)); u.status(c, "enqueue"); }
        u.enqueue(c, 0);
        for (size_t i = 0; i <= cap; ++i) { u.dequeue(c); }
        u.status(c, "draining");
    } else {
        size_t vs = 1 + c.size(8);
        Buf obj(c, sizeof(Map_t), 0), kb(c, cap * es), vb(c, cap * vs);
        c.fill(obj.p, obj.n);
        c.fill(kb.p, kb.n);
        c.fill(vb.p, vb.n);
        MapUT u(c, (Map_t*)obj.p, kb.p, vb.p, es, vs, cap);
        if (c.flag()) {
            u.init(c);
            unsigned k = (unsigned)c.below(6);
            for (unsigned i = 0; i < k; ++i) { u.insert(c); }
            c.label("used before");
        }
        int32_t K = ssize(c, es), V = ssize(c, vs), C = ssize(c, cap);
        uint8_t* kp = c.chance(1, 6) ? nullptr : kb.p;
        uint8_t* vp = c.chance(1, 6) ? nullptr : vb.p;
        bool want = K > 0 && V > 0 && C > 0 && kp && vp;
        auto before = obj.copy();
        NOTE(c, "map init key size %d, value size %d, capacity %d, %s, %s", K, V, C, kp ? "keys" : "null keys", vp ? "values" : "null values");
        bool got = Map_init(u.m, kp, vp, K, V, C);
        checkGuards(c, "init");
        c.label(got ? "map accepted" : "map rejected");
        if (got != want) { c.fail("map init with key size %d, value size %d, capacity %d, %s, %s returned %d", K, V, C, kp ? "keys" : "null keys", vp ? "values" : "null values", got); }
        if (!got) { sameObject(c, "map", obj, before); u.init(c); }
        u.model.clear();
        // nothing may be found yet, neither old keys nor what the storage holds
        for (auto& k : std::vector<Bytes>(u.pool)) { u.get(c, k); }
        for (size_t s = 0; s < std::min<size_t>(cap, 8); ++s) {
            Bytes k(kb.p + s * es, kb.p + (s + 1) * es);
            u.get(c, k);
        }
        for (size_t i = 0; i < cap + 4; ++i) { u.insert(c); }
        for (size_t i = 0; i < u.pool.size() && i < 40; ++i) { u.get(c, u.pool[i]); }
    }
    checkGuards(c, "use after init");
}
}  // namespace im
