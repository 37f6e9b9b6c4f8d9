// Reference models of the containers and drivers that compare every operation
// of the real container with its model.
#pragma once
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <vector>
#include "engine.hpp"
#include "lib.hpp"

namespace cont {
using namespace im;
typedef std::vector<uint8_t> Bytes;

// element content: unique by sequence number where the size allows, else drawn
inline void element(Ctx& c, uint8_t* p, size_t n, uint32_t seq) {
    if (c.chance(1, 4)) {
        c.fill(p, n);
        return;
    }
    uint32_t v = seq * 2654435761u + 1;
    for (size_t i = 0; i < n; ++i) {
        p[i] = (uint8_t)(v >> (8 * (i % 4))) ^ (uint8_t)(i * 31);
        if (i % 4 == 3) { v = v * 1664525u + 1013904223u; }
    }
}
inline size_t capacity(Ctx& c) {
    return 1 + (c.chance(1, 600) ? c.size(5000) : c.chance(1, 12) ? c.size(300) : c.chance(1, 3) ? c.size(40) : c.below(6));
}
inline size_t elemSize(Ctx& c) {
    return 1 + (c.chance(1, 600) ? c.size(4000) : c.chance(1, 12) ? c.size(300) : c.chance(1, 3) ? c.size(40) : c.below(8));
}

// ---- FIFO -----------------------------------------------------------------------
struct QueueUT {
    Queue_t* q;
    uint8_t* store;
    size_t cap, es;
    std::deque<Bytes> model;
    Buf elem, out;
    uint32_t seq = 0;
    const char* tag = "queue";

    QueueUT(Ctx& c, Queue_t* obj, uint8_t* st, size_t cap_, size_t es_) : q(obj), store(st), cap(cap_), es(es_), elem(c, es_), out(c, es_) {}
    void init(Ctx& c) {
        if (!Queue_init(q, (uint32_t)cap, (uint32_t)es, store)) { c.fail("%s: initialisation with capacity %zu, element size %zu failed", tag, cap, es); }
        model.clear();
    }
    void status(Ctx& c, const char* when) {
        bool f = Queue_full(q), e = Queue_empty(q);
        if (f != (model.size() == cap)) { c.fail("%s after %s: full is %d with %zu of %zu elements", tag, when, f, model.size(), cap); }
        if (e != model.empty()) { c.fail("%s after %s: empty is %d with %zu of %zu elements", tag, when, e, model.size(), cap); }
    }
    bool enqueue(Ctx& c) {
        element(c, elem.p, es, ++seq);
        Bytes b = elem.copy();
        bool ok = Queue_enqueue(q, elem.p);
        expectSame(c, "element handed to enqueue", elem, b);
        bool want = model.size() < cap;
        NOTE(c, "%s enqueue %s -> %d", tag, hex(b.data(), es, 4).c_str(), ok);
        if (ok != want) { c.fail("%s: enqueue returned %d with %zu of %zu elements", tag, ok, model.size(), cap); }
        if (ok) { model.push_back(b); }
        return ok;
    }
    void read(Ctx& c, int op) {  // 0 dequeue, 1 front, 2 rear
        static const char* N[] = {"dequeue", "front", "rear"};
        out.set((uint8_t)(0xA0 + op));
        Bytes before = out.copy();
        bool ok = op == 0 ? Queue_dequeue(q, out.p) : op == 1 ? Queue_front(q, out.p) : Queue_rear(q, out.p);
        bool want = !model.empty();
        NOTE(c, "%s %s -> %d %s", tag, N[op], ok, hex(out.p, es, 4).c_str());
        if (ok != want) { c.fail("%s: %s returned %d with %zu of %zu elements", tag, N[op], ok, model.size(), cap); }
        const Bytes& exp = !ok ? before : op == 2 ? model.back() : model.front();
        if (memcmp(out.p, exp.data(), es) != 0) {
            c.fail("%s (capacity %zu, element size %zu, %zu stored): %s delivered %s, expected %s", tag, cap, es, model.size(), ok ? N[op] : "a failed read",
                   hex(out.p, es, 16).c_str(), hex(exp.data(), es, 16).c_str());
        }
        if (ok && op == 0) { model.pop_front(); }
    }
    void nulls(Ctx& c) {
        element(c, elem.p, es, ++seq);
        out.set(0x77);
        if (Queue_enqueue(nullptr, elem.p) || Queue_enqueue(q, nullptr) || Queue_dequeue(nullptr, out.p) || Queue_dequeue(q, nullptr) || Queue_front(nullptr, out.p) ||
            Queue_front(q, nullptr) || Queue_rear(nullptr, out.p) || Queue_rear(q, nullptr)) {
            c.fail("%s: an operation with a null argument succeeded", tag);
        }
        for (size_t i = 0; i < es; ++i) {
            if (out[i] != 0x77) { c.fail("%s: an operation with a null argument wrote the output", tag); }
        }
    }
};

// ---- priority queue -----------------------------------------------------------------
struct PqUT {
    PriorityQueue_t* q;
    uint32_t* prio;
    uint8_t* store;
    size_t cap, es;
    struct E { uint32_t p; Bytes b; };
    std::vector<E> model;  // insertion order
    Buf elem, out, pr;
    uint32_t seq = 0, base = 0;
    unsigned style = 0;
    const char* tag = "priority queue";
    uint64_t evictions = 0, refusals = 0, ties = 0;
    bool fast = false;

    PqUT(Ctx& c, PriorityQueue_t* obj, uint32_t* ps, uint8_t* st, size_t cap_, size_t es_)
        : q(obj), prio(ps), store(st), cap(cap_), es(es_), elem(c, es_), out(c, es_), pr(c, 4, 0) {
        style = (unsigned)c.below(5);
        base = c.u32();
    }
    uint32_t priority(Ctx& c) {
        switch (style) {
            case 0: return base + (uint32_t)c.below(3);
            case 1: return (uint32_t)c.below(4);
            case 2: return c.u32();
            case 3: return c.pick({0u, 1u, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFFFEu, 0xFFFFFFFFu, 255u, 256u, 65535u, 65536u});
            default: return base + (uint32_t)c.below(40);
        }
    }
    void init(Ctx& c) {
        PriorityQueueItem_t it = {prio, store};
        if (!PriorityQueue_init(q, (uint32_t)cap, (uint32_t)es, &it)) { c.fail("%s: initialisation with capacity %zu, element size %zu failed", tag, cap, es); }
        model.clear();
    }
    void status(Ctx& c, const char* when) {
        bool e = PriorityQueue_empty(q);
        if (e != model.empty()) { c.fail("%s after %s: empty is %d with %zu elements", tag, when, e, model.size()); }
    }
    bool enqueue(Ctx& c, uint32_t p) {
        element(c, elem.p, es, ++seq);
        Bytes b = elem.copy();
        memcpy(pr.p, &p, 4);
        PriorityQueueItem_t it = {(uint32_t*)pr.p, elem.p};
        bool ok = PriorityQueue_enqueue(q, &it);
        expectSame(c, "element handed to enqueue", elem, b);
        if (memcmp(pr.p, &p, 4) != 0 || it.priority != (uint32_t*)pr.p || it.element != elem.p) { c.fail("%s: enqueue modified the item it was given", tag); }
        bool want = true;
        size_t low = 0;
        if (model.size() == cap) {
            for (size_t i = 1; i < cap; ++i) {
                if (model[i].p < model[low].p) { low = i; }
            }
            want = p > model[low].p;
        }
        NOTE(c, "%s enqueue prio %x elem %s -> %d", tag, p, hex(b.data(), es, 4).c_str(), ok);
        if (ok != want) { c.fail("%s: enqueue of priority %x with %zu of %zu elements (lowest %x) returned %d", tag, p, model.size(), cap, model.empty() ? 0 : model[low].p, ok); }
        if (!fast) { for (auto& e : model) { ties += e.p == p; } }
        if (ok) {
            if (model.size() == cap) {
                model.erase(model.begin() + (long)low);
                ++evictions;
            }
            model.push_back({p, b});
        } else {
            ++refusals;
        }
        return ok;
    }
    void dequeue(Ctx& c) {
        out.set(0xA7);
        bool ok = PriorityQueue_dequeue(q, out.p);
        NOTE(c, "%s dequeue -> %d %s", tag, ok, hex(out.p, es, 4).c_str());
        if (ok == model.empty()) { c.fail("%s: dequeue returned %d with %zu elements", tag, ok, model.size()); }
        if (!ok) {
            for (size_t i = 0; i < es; ++i) {
                if (out[i] != 0xA7) { c.fail("%s: a failed dequeue wrote the output", tag); }
            }
            return;
        }
        size_t hi = 0;
        for (size_t i = 1; i < model.size(); ++i) {
            if (model[i].p > model[hi].p) { hi = i; }
        }
        if (memcmp(out.p, model[hi].b.data(), es) != 0) {
            std::string who = "no stored element";
            for (size_t i = 0; i < model.size(); ++i) {
                if (memcmp(out.p, model[i].b.data(), es) == 0) { who = "element " + std::to_string(i) + " of priority " + std::to_string(model[i].p); break; }
            }
            c.fail("%s (capacity %zu, element size %zu, %zu stored): dequeue delivered %s (%s), expected element %zu of priority %u: %s", tag, cap, es, model.size(),
                   hex(out.p, es, 16).c_str(), who.c_str(), hi, model[hi].p, hex(model[hi].b.data(), es, 16).c_str());
        }
        model.erase(model.begin() + (long)hi);
    }
};

// ---- map -------------------------------------------------------------------------------
struct MapUT {
    Map_t* m;
    uint8_t *keys, *vals;
    size_t ks, vs, cap;
    std::map<Bytes, Bytes> model;
    std::vector<Bytes> pool;  // keys used so far (inserted or asked for)
    Buf key, val, out;
    uint32_t seq = 0;
    const char* tag = "map";
    uint64_t overwrites = 0, refusals = 0;

    MapUT(Ctx& c, Map_t* obj, uint8_t* k, uint8_t* v, size_t ks_, size_t vs_, size_t cap_)
        : m(obj), keys(k), vals(v), ks(ks_), vs(vs_), cap(cap_), key(c, ks_), val(c, vs_), out(c, vs_) {}
    void init(Ctx& c) {
        if (!Map_init(m, keys, vals, (int32_t)ks, (int32_t)vs, (int32_t)cap)) { c.fail("%s: initialisation with sizes %zu, %zu, capacity %zu failed", tag, ks, vs, cap); }
        model.clear();
    }
    Bytes makeKey(Ctx& c) {
        Bytes k(ks);
        unsigned t = (unsigned)c.below(8);
        if (!pool.empty() && t < 4) { return pool[c.below(pool.size())]; }
        if (!pool.empty() && t < 6) {  // differs from a known key in one byte
            k = pool[c.below(pool.size())];
            size_t at = c.pick({(size_t)0, ks - 1, ks / 2, (size_t)c.size(ks - 1)});
            k[at] = (uint8_t)(k[at] ^ c.pick({1, 0x80, 0xFF, 0x20}));
        } else {
            element(c, k.data(), ks, ++seq);
        }
        if (pool.size() < 6000) { pool.push_back(k); }
        return k;
    }
    void insert(Ctx& c) { insertKey(c, makeKey(c)); }
    void insertKey(Ctx& c, const Bytes& k) {
        memcpy(key.p, k.data(), ks);
        element(c, val.p, vs, ++seq);
        Bytes v = val.copy();
        bool known = model.count(k) != 0;
        bool want = known || model.size() < cap;
        bool ok = Map_insert(m, key.p, val.p);
        NOTE(c, "%s insert %s=%s -> %d", tag, hex(k.data(), ks, 6).c_str(), hex(v.data(), vs, 4).c_str(), ok);
        if (ok != want) {
            c.fail("%s: insert of %s key %s returned %d with %zu of %zu keys stored", tag, known ? "existing" : "new", hex(k.data(), ks, 24).c_str(), ok, model.size(), cap);
        }
        expectSame(c, "key handed to insert", key, k);
        expectSame(c, "value handed to insert", val, v);
        if (ok) { overwrites += known; model[k] = v; } else { ++refusals; }
    }
    void nulls(Ctx& c) {
        element(c, key.p, ks, ++seq);
        out.set(0x77);
        if (Map_insert(nullptr, key.p, val.p) || Map_getValue(nullptr, key.p, out.p)) { c.fail("%s: an operation on a null map succeeded", tag); }
        for (size_t i = 0; i < vs; ++i) {
            if (out[i] != 0x77) { c.fail("%s: a lookup in a null map wrote the output", tag); }
        }
    }
    void get(Ctx& c, const Bytes& k) {
        memcpy(key.p, k.data(), ks);
        out.set(0x9C);
        auto it = model.find(k);
        bool ok = Map_getValue(m, key.p, out.p);
        NOTE(c, "%s get %s -> %d %s", tag, hex(k.data(), ks, 6).c_str(), ok, hex(out.p, vs, 4).c_str());
        if (ok != (it != model.end())) { c.fail("%s: lookup of key %s returned %d; it %s inserted (%zu of %zu stored)", tag, hex(k.data(), ks, 24).c_str(), ok, ok ? "was never" : "was", model.size(), cap); }
        expectSame(c, "key handed to lookup", key, k);
        if (ok && memcmp(out.p, it->second.data(), vs) != 0) {
            c.fail("%s: lookup of key %s delivered %s, expected %s", tag, hex(k.data(), ks, 24).c_str(), hex(out.p, vs, 16).c_str(), hex(it->second.data(), vs, 16).c_str());
        }
        if (!ok) {
            for (size_t i = 0; i < vs; ++i) {
                if (out[i] != 0x9C) { c.fail("%s: a failed lookup wrote the output", tag); }
            }
        }
    }
};

// ---- scheduler ----------------------------------------------------------------------------
struct Calls {
    std::vector<int> log;
    SchedulerTask_t* table = nullptr;
    uint32_t count = 0;
    int selfAction = 0;  // 1: deactivate own slot, 2: release own slot
};
inline Calls& calls() {
    static Calls c;
    return c;
}
void taskBody(int id);
template <int N> void task() { taskBody(N); }
typedef void (*TaskFn)(void);
template <int... I> inline TaskFn pickTask(int i, std::integer_sequence<int, I...>) {
    static const TaskFn F[] = {task<I>...};
    return F[i];
}
static const int NTASKS = 320;
inline TaskFn taskFn(int i) { return pickTask(i, std::make_integer_sequence<int, NTASKS>{}); }
inline void taskBody(int id) {
    Calls& k = calls();
    k.log.push_back(id);
    if (k.log.size() > 100000) { return; }
    if (k.selfAction && k.table) {
        TaskFn f = taskFn(id);
        for (uint32_t i = 0; i < k.count; ++i) {
            if (k.table[i].function == f && k.table[i].active) {
                if (k.selfAction == 1) { k.table[i].active = false; } else { k.table[i].function = nullptr; }
                break;
            }
        }
    }
}
struct SchedUT {
    SchedulerTask_t* t;
    uint32_t total, n;  // slots in the table, slots the calls are told about
    struct S { int id; bool active; };
    std::vector<S> model;  // id -1: empty
    Buf item;
    const char* tag = "task table";
    bool judgeInit = false;  // an initialised slot is inactive as well as empty
    uint64_t ran = 0, refused = 0, reused = 0;
    SchedUT(Ctx& c, SchedulerTask_t* tab, uint32_t total_, uint32_t n_) : t(tab), total(total_), n(n_), item(c, sizeof(SchedulerTask_t), 0) {}
    // the caller owns the table: give every slot a known content first
    void dirty(Ctx& c) {
        model.clear();
        for (uint32_t i = 0; i < total; ++i) {
            int id = (int)c.below(NTASKS);
            bool a = c.flag();
            t[i].function = taskFn(id);
            t[i].active = a;
            model.push_back({id, a});
        }
    }
    void compare(Ctx& c, const char* when) {
        for (uint32_t i = 0; i < total; ++i) {
            TaskFn f = model[i].id < 0 ? nullptr : taskFn(model[i].id);
            if (t[i].function != f) { c.fail("%s after %s: slot %u of %u (%u in use) holds the wrong function", tag, when, i, total, n); }
            if (model[i].id >= 0 && t[i].active != model[i].active) { c.fail("%s after %s: slot %u of %u (%u in use) has activity %d, expected %d", tag, when, i, total, n, t[i].active, model[i].active); }
        }
    }
    void init(Ctx& c) {
        Scheduler_init(t, n);
        NOTE(c, "%s init %u", tag, n);
        for (uint32_t i = 0; i < n; ++i) { model[i] = {-1, false}; }
        compare(c, "init");
        for (uint32_t i = 0; judgeInit && i < n; ++i) {
            if (t[i].active) { c.fail("slot %u of %u is active after initialisation", i, n); }
        }
    }
    void add(Ctx& c) {
        int id = (int)c.below(NTASKS);
        bool act = !c.chance(1, 3);
        SchedulerTask_t* nt = (SchedulerTask_t*)item.p;
        nt->function = taskFn(id);
        nt->active = act;
        uint32_t slot = 0;
        while (slot < n && model[slot].id >= 0) { ++slot; }
        bool ok = Scheduler_addTask(t, n, nt);
        NOTE(c, "%s add task %d active %d -> %d", tag, id, act, ok);
        if (nt->function != taskFn(id) || nt->active != act) { c.fail("%s: the task handed to add was modified", tag); }
        if (ok != (slot < n)) { c.fail("%s: add returned %d; %s among %u slots", tag, ok, slot < n ? "a slot is empty" : "no slot is empty", n); }
        if (ok) { model[slot] = {id, act}; } else { ++refused; }
        compare(c, "add");
    }
    void release(Ctx& c) {
        releaseSlot(c, (uint32_t)c.below(n));
    }
    void releaseSlot(Ctx& c, uint32_t i) {
        if (model[i].id >= 0) { ++reused; }
        t[i].function = nullptr;
        model[i].id = -1;
        NOTE(c, "%s slot %u released", tag, i);
    }
    void toggle(Ctx& c) {
        uint32_t i = (uint32_t)c.below(n);
        t[i].active = !t[i].active;
        model[i].active = t[i].active;
        NOTE(c, "%s slot %u active %d", tag, i, t[i].active);
    }
    void run(Ctx& c, int selfAction) {
        Calls& k = calls();
        k.log.clear();
        k.table = t;
        k.count = n;
        std::vector<int> want;
        bool dup = false;
        std::vector<char> seen(NTASKS, 0);
        for (uint32_t i = 0; i < n; ++i) {
            if (model[i].id >= 0 && model[i].active) {
                want.push_back(model[i].id);
                dup |= seen[model[i].id]++ != 0;
            }
        }
        k.selfAction = dup ? 0 : selfAction;
        Scheduler_run(t, n);
        bool acted = k.selfAction != 0;
        if (acted) {
            for (uint32_t i = 0; i < n; ++i) {
                if (model[i].id >= 0 && model[i].active) {
                    if (selfAction == 1) { model[i].active = false; } else { model[i].id = -1; }
                }
            }
        }
        k.selfAction = 0;
        k.table = nullptr;
        NOTE(c, "%s run -> %zu calls%s", tag, k.log.size(), acted ? " (tasks switch themselves off)" : "");
        ran += want.size();
        if (k.log != want) {
            size_t i = 0;
            while (i < k.log.size() && i < want.size() && k.log[i] == want[i]) { ++i; }
            c.fail("%s of %u slots: a run made %zu calls, expected %zu; call %zu is task %d, expected %d", tag, n, k.log.size(), want.size(), i,
                   i < k.log.size() ? k.log[i] : -1, i < want.size() ? want[i] : -1);
        }
        compare(c, "run");
    }
};
}  // namespace cont
