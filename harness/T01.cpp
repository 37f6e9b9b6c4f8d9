#include "endurance.hpp"
using namespace im;
using namespace cont;
namespace im {
const Prop PROP = {"T01",
    "histories of up to 60 steps (add, run, release a slot, switch activity, re-initialise, runs whose tasks switch themselves off) on tables of 1..700 slots with the count "
    "given equal to or below the table size; calls recorded through 320 distinct task functions; tables of up to 70000 slots enumerated. 70000 (thorough 2^32) runs enumerated. Non-trivial: at least one task ran and a slot was released, inactive or an add refused",
    150000, 2500000, 40000, 1500000, 1024};

void runCase(Ctx& c) {
    uint32_t total = 1 + (uint32_t)(c.chance(1, 12) ? c.size(700) : c.size(c.flag() ? 6 : 40));
    uint32_t n = c.chance(1, 3) ? (uint32_t)c.size(total) : total;
    Buf tab(c, total * sizeof(SchedulerTask_t), 0);
    tab.set(c.byte());
    SchedUT u(c, (SchedulerTask_t*)tab.p, total, n);
    u.judgeInit = true;
    u.dirty(c);
    NOTE(c, "table of %u slots, count %u", total, n);
    u.init(c);
    checkGuards(c, "init");
    if (n == 0) {
        u.add(c);
        u.run(c, 0);
        checkGuards(c, "count 0");
        c.label("count 0");
        return;
    }
    bool off = false;
    unsigned steps = (unsigned)c.size(60);
    for (unsigned i = 0; i < steps; ++i) {
        switch (c.below(10)) {
            case 0: case 1: case 2: u.add(c); break;
            case 3: case 4: u.run(c, 0); break;
            case 5: u.release(c); break;
            case 6: u.toggle(c); off = true; break;
            case 7: { size_t k = c.size(n + 1); for (size_t j = 0; j < k; ++j) { u.add(c); } break; }
            case 8: u.run(c, (int)c.below(3)); break;
            default: if (c.chance(1, 6)) { u.init(c); } else { u.run(c, 0); u.release(c); u.add(c); }
        }
        checkGuards(c, "a step");
    }
    u.run(c, 0);
    checkGuards(c, "run");
    c.label(n < 8 ? "slots:1..7" : n < 256 ? "slots:8..255" : "slots:256+");
    if (n < total) { c.label("count below table size"); }
    if (u.refused) { c.label("add refused"); }
    if (u.reused) { c.label("slot released"); }
    if (u.ran && (u.refused || u.reused || off)) { c.nontrivial(); }
}

// large tables: every slot kept by its owner, then one released far out
static const uint32_t BIG[][2] = {{70000, 70000}, {66000, 65536}, {65537, 65537}, {33000, 32769}, {300, 256}, {300, 257}, {260, 255}, {66000, 256}};
static const uint64_t NBIG = sizeof(BIG) / sizeof(BIG[0]);
// 70000 (in the thorough tier also 2^32) runs of one table
static uint64_t g_runs;
static void counting() { ++g_runs; }
static void longRun(Ctx& c, uint64_t k) {
    uint64_t n = rounds(k);
    if (!n) { return; }
    start(c, k);
    Buf tab(c, 3 * sizeof(SchedulerTask_t), 0);
    SchedulerTask_t* t = (SchedulerTask_t*)tab.p;
    SchedulerTask_t a = {}, b = {};
    Scheduler_init(t, 3);
    a.function = b.function = counting;
    b.active = true;
    if (!Scheduler_addTask(t, 3, &a) || !Scheduler_addTask(t, 3, &b)) { c.fail("adding tasks failed"); }
    g_runs = 0;
    for (uint64_t i = 0; i < n; ++i) {
        if (i % (1 << 20) == 0) { alive(); }
        Scheduler_run(t, 3);
        if (g_runs != i + 1) { c.fail("run %llu made %llu calls of the one active task", (unsigned long long)i, (unsigned long long)(g_runs - i)); }
    }
    checkGuards(c, "a long history");
    c.evals(1000);
}
uint64_t enumCount(bool thorough) { return NBIG + (thorough ? 2 : 1); }
void enumCase(Ctx& c, uint64_t i, bool) {
    if (i >= NBIG) { longRun(c, i - NBIG); return; }
    uint32_t total = BIG[i][0], n = BIG[i][1];
    c.label("enum:large tables");
    c.nontrivial();
    c.distinctKey(7ull << 40 | i);
    Buf tab(c, total * sizeof(SchedulerTask_t), 0);
    SchedUT u(c, (SchedulerTask_t*)tab.p, total, n);
    u.judgeInit = true;
    u.dirty(c);
    NOTE(c, "table of %u slots, count %u", total, n);
    u.run(c, 0);
    u.add(c);
    for (uint32_t s : {n - 1, n / 2, 255u, 256u, 254u, n - 2}) {
        if (s < n) { u.releaseSlot(c, s); }
        u.run(c, 0);
        if (s % 2 == 0) { u.add(c); }
    }
    for (int k = 0; k < 5; ++k) { u.add(c); }
    u.run(c, 0);
    u.init(c);
    u.run(c, 0);
    for (int k = 0; k < 3; ++k) { u.add(c); }
    u.run(c, 0);
    checkGuards(c, "large table");
    c.evals(30);
}
}  // namespace im
