// A task table whose tasks call a hook: runs of different tables can nest.
#pragma once
#include "containers.hpp"
#include "ops.hpp"
namespace nest {
using namespace im;
// tasks that call a hook
inline std::function<void(int)>& onTask() {
    static std::function<void(int)> f;
    return f;
}
template <int N> void hookTask() { onTask()(N); }
template <int... I> inline cont::TaskFn pickHook(int i, std::integer_sequence<int, I...>) {
    static const cont::TaskFn F[] = {hookTask<I>...};
    return F[i];
}
inline cont::TaskFn hookFn(int i) { return pickHook(i, std::make_integer_sequence<int, 24>{}); }

struct Table {
    Buf t;
    std::vector<int> want;  // ids a run calls
    uint32_t n = 0;
    SchedulerTask_t* tab() const { return (SchedulerTask_t*)t.p; }
    Table(Ctx& c, int base) {
        n = 1 + (uint32_t)c.below(12);
        t = Buf(c, n * sizeof(SchedulerTask_t), 0);
        Scheduler_init(tab(), n);
        for (uint32_t i = 0; i < n; ++i) {
            SchedulerTask_t x;
            x.function = hookFn(base + (int)i);
            x.active = !c.chance(1, 4);
            if (!Scheduler_addTask(tab(), n, &x)) { c.fail("adding task %u of %u failed", i, n); }
            if (x.active) { want.push_back(base + (int)i); }
        }
        if (c.chance(1, 3)) {
            uint32_t i = (uint32_t)c.below(n);
            tab()[i].function = nullptr;
            for (size_t k = 0; k < want.size(); ++k) {
                if (want[k] == base + (int)i) { want.erase(want.begin() + (long)k); break; }
            }
        }
    }
};
// one run of the table; each(id) happens inside every task
template <class F> void runTable(Ctx& c, Table& t, const char* which, F each) {
    std::vector<int> log;
    auto before = t.t.copy();
    std::function<void(int)> saved;
    saved.swap(onTask());
    onTask() = [&](int id) {
        log.push_back(id);
        if (log.size() > 1000) { c.fail("the %s does not end", which); }
        each(id);
    };
    Scheduler_run(t.tab(), t.n);
    saved.swap(onTask());
    if (log != t.want) {
        size_t i = 0;
        while (i < log.size() && i < t.want.size() && log[i] == t.want[i]) { ++i; }
        c.fail("the %s made %zu calls, expected %zu; call %zu differs", which, log.size(), t.want.size(), i);
    }
    expectSame(c, "task table", t.t, before);
}
}  // namespace nest
