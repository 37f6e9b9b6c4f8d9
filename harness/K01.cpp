#include <sys/mman.h>
#include "containers.hpp"
#include "ops.hpp"
using namespace im;
using namespace ops;
namespace im {
const Prop PROP = {"K01",
    "any stateless operation with every input it declares const - text, message, table, key, nonce, digits, JSON text - in memory that cannot be written, and container and task-table histories of up to 40 steps "
    "where new elements, keys, values, items and tasks lie in such memory and Queue_front/rear/full/empty, PriorityQueue_empty, Map_getValue and Scheduler_run see object, storage and table there too; "
    "a write ends the process; results are compared with those of the same call on ordinary memory, or with the model. Non-trivial: at least one input of at least one byte, or one element stored",
    150000, 3000000, 40000, 2000000, 2048};

static void romInit() {
    Rom& m = rom();
    if (m.w) { return; }
    m.size = 2u << 20;
    int fd = memfd_create("rom", 0);
    if (fd < 0 || ftruncate(fd, (off_t)m.size) != 0) { perror("memfd"); _exit(3); }
    void* w = mmap((void*)0x300000000000ull, m.size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    void* r = mmap((void*)0x310000000000ull, m.size, PROT_READ, MAP_SHARED, fd, 0);
    if (w == MAP_FAILED || r == MAP_FAILED) { perror("mmap"); _exit(3); }
    m.w = (uint8_t*)w;
    m.r = (uint8_t*)r;
}
static uint8_t* place(size_t n, size_t align) {
    Rom& m = rom();
    (void)align;
    return m.place(n, 0);
}
template <class T> static const T* frozen(T* p) { return rom().ro(p); }
// a private copy the library may read only
template <class T> static T* frozenCopy(const T& v) {
    T* p = (T*)place(sizeof(T), 16);
    memcpy((void*)p, &v, sizeof(T));
    return rom().ro(p);
}
static Bytes elementIn(Ctx& c, size_t n, uint32_t seq) {
    Bytes b(n);
    cont::element(c, b.data(), n, seq);
    return b;
}

static void queue(Ctx& c) {
    size_t cap = 1 + c.mostly(6, 50), es = 1 + c.size(40);
    Queue_t* q = (Queue_t*)place(sizeof(Queue_t), 16);
    uint8_t* store = place(cap * es, 16);
    if (!Queue_init(q, (uint32_t)cap, (uint32_t)es, store)) { c.fail("queue initialisation failed"); }
    std::deque<Bytes> model;
    Buf out(c, es);
    size_t n = 1 + c.mostly(40, 160);
    for (size_t i = 0; i < n; ++i) {
        if (c.flag()) {
            Bytes b = elementIn(c, es, (uint32_t)i + 1);
            In e(c, b.data(), es);
            bool ok = Queue_enqueue(q, e.p);
            NOTE(c, "enqueue %s -> %d", hex(b.data(), es, 8).c_str(), ok);
            if (ok != (model.size() < cap)) { c.fail("enqueue of an element in read-only memory returned %d with %zu of %zu", ok, model.size(), cap); }
            if (ok) { model.push_back(b); c.nontrivial(); }
        } else if (c.flag()) {
            bool ok = Queue_dequeue(q, out.p);
            NOTE(c, "dequeue -> %d", ok);
            if (ok != !model.empty() || (ok && memcmp(out.p, model.front().data(), es) != 0)) { c.fail("dequeue returned %d with %zu elements, or another element", ok, model.size()); }
            if (ok) { model.pop_front(); }
        } else {
            Queue_t o = *q;
            o.buffer = rom().ro(q->buffer);
            const Queue_t* f = frozenCopy(o);
            bool full = Queue_full(f), empty = Queue_empty(f), front = Queue_front(f, out.p);
            NOTE(c, "observe a read-only queue of %zu", model.size());
            if (full != (model.size() == cap) || empty != model.empty() || front != !model.empty()) { c.fail("a read-only queue with %zu of %zu elements: full %d, empty %d, front %d", model.size(), cap, full, empty, front); }
            if (front && memcmp(out.p, model.front().data(), es) != 0) { c.fail("the front of a read-only queue is %s, expected %s", hex(out.p, es).c_str(), hex(model.front().data(), es).c_str()); }
            bool rear = Queue_rear(f, out.p);
            if (rear != !model.empty() || (rear && memcmp(out.p, model.back().data(), es) != 0)) { c.fail("the rear of a read-only queue: %d %s", rear, hex(out.p, es).c_str()); }
        }
    }
}
static void prioQueue(Ctx& c) {
    size_t cap = 1 + c.mostly(6, 50), es = 1 + c.size(40);
    PriorityQueue_t* q = (PriorityQueue_t*)place(sizeof(PriorityQueue_t), 16);
    uint32_t* prio = (uint32_t*)place(cap * 4, 16);
    uint8_t* store = place(cap * es, 16);
    PriorityQueueItem_t st = {prio, store};
    if (!PriorityQueue_init(q, (uint32_t)cap, (uint32_t)es, frozenCopy(st))) { c.fail("priority queue initialisation failed"); }
    struct E { uint32_t p; Bytes b; };
    std::vector<E> model;
    Buf out(c, es);
    size_t n = 1 + c.mostly(40, 160);
    for (size_t i = 0; i < n; ++i) {
        if (c.chance(2, 3)) {
            Bytes b = elementIn(c, es, (uint32_t)i + 1);
            In e(c, b.data(), es);
            uint32_t p = (uint32_t)c.below(5);
            uint32_t* pp = frozenCopy(p);
            PriorityQueueItem_t it = {pp, e.p};
            size_t low = 0;
            for (size_t k = 1; k < model.size(); ++k) { if (model[k].p < model[low].p) { low = k; } }
            bool want = model.size() < cap || model[low].p < p;
            bool ok = PriorityQueue_enqueue(q, frozenCopy(it));
            NOTE(c, "enqueue priority %u -> %d", p, ok);
            if (ok != want) { c.fail("enqueue of a read-only item returned %d with %zu of %zu", ok, model.size(), cap); }
            if (ok) {
                if (model.size() == cap) { model.erase(model.begin() + (long)low); }
                model.push_back({p, b});
                c.nontrivial();
            }
        } else if (c.flag()) {
            size_t hi = 0;
            for (size_t k = 1; k < model.size(); ++k) { if (model[k].p > model[hi].p) { hi = k; } }
            bool ok = PriorityQueue_dequeue(q, out.p);
            NOTE(c, "dequeue -> %d", ok);
            if (ok != !model.empty() || (ok && memcmp(out.p, model[hi].b.data(), es) != 0)) { c.fail("dequeue returned %d with %zu elements, or another element", ok, model.size()); }
            if (ok) { model.erase(model.begin() + (long)hi); }
        } else {
            PriorityQueue_t o = *q;
            o.buffer = rom().ro(q->buffer);
            o.priority_array = rom().ro(q->priority_array);
            if (PriorityQueue_empty(frozenCopy(o)) != model.empty()) { c.fail("a read-only priority queue with %zu elements: empty is wrong", model.size()); }
        }
    }
}
static void map(Ctx& c) {
    size_t cap = 1 + c.mostly(6, 50), ks = 1 + c.size(20), vs = 1 + c.size(40);
    Map_t* m = (Map_t*)place(sizeof(Map_t), 16);
    uint8_t *keys = place(cap * ks, 16), *vals = place(cap * vs, 16);
    if (!Map_init(m, keys, vals, (int32_t)ks, (int32_t)vs, (int32_t)cap)) { c.fail("map initialisation failed"); }
    std::map<Bytes, Bytes> model;
    Buf out(c, vs);
    size_t n = 1 + c.mostly(40, 160);
    for (size_t i = 0; i < n; ++i) {
        Bytes k = elementIn(c, ks, (uint32_t)c.mostly(8, 40));
        In key(c, k.data(), ks);
        if (c.flag()) {
            Bytes v = elementIn(c, vs, (uint32_t)i + 100);
            In val(c, v.data(), vs);
            bool want = model.count(k) || model.size() < cap, ok = Map_insert(m, key.p, val.p);
            NOTE(c, "insert -> %d", ok);
            if (ok != want) { c.fail("insert of a read-only key and value returned %d with %zu of %zu", ok, model.size(), cap); }
            if (ok) { model[k] = v; c.nontrivial(); }
        } else {
            Map_t o = *m;
            o.keys = rom().ro(m->keys);
            o.values = rom().ro(m->values);
            auto it = model.find(k);
            bool ok = Map_getValue(frozenCopy(o), key.p, out.p);
            NOTE(c, "look up in a read-only map -> %d", ok);
            if (ok != (it != model.end()) || (ok && memcmp(out.p, it->second.data(), vs) != 0)) { c.fail("lookup in a read-only map of %zu returned %d, or another value", model.size(), ok); }
        }
    }
}
static std::vector<int>* g_log = nullptr;
template <int N> static void romTask() { g_log->push_back(N); }
static void tasks(Ctx& c) {
    static void (*const F[])(void) = {romTask<0>, romTask<1>, romTask<2>, romTask<3>, romTask<4>, romTask<5>, romTask<6>, romTask<7>};
    uint32_t n = 1 + (uint32_t)c.below(8);
    SchedulerTask_t* t = (SchedulerTask_t*)place(n * sizeof(SchedulerTask_t), 16);
    Scheduler_init(t, n);
    std::vector<int> want, log;
    uint32_t used = 0;
    size_t steps = 1 + c.below(20);
    for (size_t i = 0; i < steps; ++i) {
        if (c.flag()) {
            SchedulerTask_t x;
            memset((void*)&x, 0, sizeof x);
            x.function = F[used % 8];
            x.active = !c.chance(1, 4);
            bool ok = Scheduler_addTask(t, n, frozenCopy(x));
            NOTE(c, "add a task -> %d", ok);
            if (ok != (used < n)) { c.fail("adding a read-only task returned %d with %u of %u slots used", ok, used, n); }
            if (ok) {
                if (x.active) { want.push_back((int)(used % 8)); }
                ++used;
                c.nontrivial();
            }
        } else {
            log.clear();
            g_log = &log;
            Scheduler_run(frozen(t), n);
            NOTE(c, "run a read-only table of %u tasks", used);
            if (log != want) { c.fail("a run over a read-only table made %zu calls, expected %zu, or others", log.size(), want.size()); }
        }
    }
}

void runCase(Ctx& c) {
    romInit();
    rom().top = 0;
    rom().on = false;
    nested() = nullptr;
    unsigned what = (unsigned)c.below(8);
    if (what >= 4) {
        Op o = make(c);
        NOTE(c, "%s of %zu bytes", NAMES[o.kind], o.a.size());
        c.label(NAMES[o.kind]);
        Bytes want = run(c, o);
        rom().on = true;
        Bytes got = run(c, o);
        rom().on = false;
        if (got != want) { c.fail("%s with its inputs in read-only memory gave %s, expected %s", NAMES[o.kind], hex(got.data(), got.size()).c_str(), hex(want.data(), want.size()).c_str()); }
        if (!o.a.empty()) { c.nontrivial(); }
        return;
    }
    rom().on = true;
    static const char* const N[] = {"queue", "priority queue", "map", "task table"};
    c.label(N[what]);
    NOTE(c, "%s:", N[what]);
    switch (what) {
        case 0: queue(c); break;
        case 1: prioQueue(c); break;
        case 2: map(c); break;
        default: tasks(c);
    }
    rom().on = false;
}
uint64_t enumCount(bool) { return KINDS; }
// long inputs of every kind
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    romInit();
    c.label("enum:repeated and long inputs");
    c.nontrivial();
    nested() = nullptr;
    unsigned n = thorough ? 2000 : 300;
    for (unsigned k = 0; k < n; ++k) {
        arenaReset();
        rom().top = 0;
        rom().on = false;
        Op o = make(c, (int)i);
        if (i == 0 || i == 2 || i == 3 || i == 7) {  // lengths matter here only
            o.a.resize(k < 40 ? 1000 + 977 * k : o.a.size() + k);
            if (i == 0) { o.cap = (o.a.size() + 2) / 3 * 4 + 1; }
        }
        Bytes want = run(c, o);
        rom().on = true;
        Bytes got = run(c, o);
        rom().on = false;
        if (got != want) { c.fail("%s with its inputs in read-only memory gave another result", NAMES[o.kind]); }
        c.distinctKey(i << 32 | k);
    }
    c.evals(n);
}
}  // namespace im
