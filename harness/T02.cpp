#include <functional>
#include "containers.hpp"
using namespace im;
namespace im {
const Prop PROP = {"T02",
    "histories of up to 8 runs over tables of 1..40 (rarely 300) slots in which the k-th called task of a run performs up to 3 drawn changes to its own table - switch a slot on or off, "
    "empty or refill a slot, register a new task, rarely re-initialise - compared with a model that judges each slot at its turn. "
    "Non-trivial: some run's calls differ from what the table said when the run began",
    150000, 2500000, 40000, 1500000, 1024};

static const int IDS = 40;
struct Hook {
    std::function<void(int)> f;
};
static Hook& hook() {
    static Hook h;
    return h;
}
template <int N> void hookTask() { hook().f(N); }
template <int... I> static cont::TaskFn pickHook(int i, std::integer_sequence<int, I...>) {
    static const cont::TaskFn F[] = {hookTask<I>...};
    return F[i];
}
static cont::TaskFn fn(int i) { return pickHook(i, std::make_integer_sequence<int, IDS>{}); }

struct Change {
    int kind;  // 0 on, 1 off, 2 empty, 3 refill, 4 add, 5 init
    uint32_t slot;
    int id;
    bool active;
};
struct S {
    int id;
    bool active;
};
typedef std::vector<std::vector<Change>> Script;  // by call number

static bool perform(std::vector<S>& m, const Change& x) {  // on the model; result of an add
    switch (x.kind) {
        case 0: m[x.slot].active = true; break;
        case 1: m[x.slot].active = false; break;
        case 2: m[x.slot].id = -1; break;
        case 3: m[x.slot] = {x.id, x.active}; break;
        case 4:
            for (S& s : m) {
                if (s.id < 0) {
                    s = {x.id, x.active};
                    return true;
                }
            }
            return false;
        default:
            for (S& s : m) { s = {-1, false}; }
    }
    return true;
}

void runCase(Ctx& c) {
    hook().f = nullptr;
    uint32_t n = 1 + (uint32_t)(c.chance(1, 40) ? c.size(299) : c.chance(1, 4) ? c.size(39) : c.below(8));
    Buf tab(c, n * sizeof(SchedulerTask_t), 0), item(c, sizeof(SchedulerTask_t), 0);
    SchedulerTask_t* t = (SchedulerTask_t*)tab.p;
    SchedulerTask_t* nt = (SchedulerTask_t*)item.p;
    Scheduler_init(t, n);
    std::vector<S> model(n, {-1, false});
    auto real = [&](const Change& x) {
        switch (x.kind) {
            case 0: t[x.slot].active = true; return true;
            case 1: t[x.slot].active = false; return true;
            case 2: t[x.slot].function = nullptr; return true;
            case 3: t[x.slot].function = fn(x.id); t[x.slot].active = x.active; return true;
            case 4: nt->function = fn(x.id); nt->active = x.active; return Scheduler_addTask(t, n, nt);
            default: Scheduler_init(t, n); return true;
        }
    };
    auto compare = [&](const char* when) {
        for (uint32_t i = 0; i < n; ++i) {
            cont::TaskFn f = model[i].id < 0 ? nullptr : fn(model[i].id);
            if (t[i].function != f) { c.fail("after %s: slot %u of %u holds the wrong function", when, i, n); }
            if (model[i].id >= 0 && t[i].active != model[i].active) { c.fail("after %s: slot %u of %u has activity %d, expected %d", when, i, n, t[i].active, model[i].active); }
        }
        checkGuards(c, when);
    };
    size_t fill = c.flag() ? n : c.size(n);
    for (size_t i = 0; i < fill; ++i) {
        Change x = {4, 0, (int)c.below(IDS), !c.chance(1, 4)};
        if (real(x) != perform(model, x)) { c.fail("registering task %zu of %u failed", i, n); }
    }
    compare("registration");
    bool surprising = false;
    size_t runs = 1 + c.below(c.chance(1, 4) ? 8 : 3);
    for (size_t r = 0; r < runs; ++r) {
        if (c.chance(1, 3)) {  // the owner changes something between runs
            Change x = {(int)c.below(5), (uint32_t)c.below(n), (int)c.below(IDS), c.flag()};
            if (real(x) != perform(model, x)) { c.fail("an add between runs was not what the table allows"); }
        }
        size_t busy = c.chance(1, 4) ? 1 + c.below(n) : 1 + c.below(3), from = c.flag() ? 0 : c.below(n);
        Script script(from + busy);
        uint32_t turn = 0;
        for (size_t k = from; k < script.size(); ++k) {
            size_t m = 1 + c.below(3);
            for (size_t i = 0; i < m; ++i) {
                int kind = c.chance(1, 40) ? 5 : (int)c.below(5);
                // near the slot whose turn it is, if all are active
                uint32_t slot = c.chance(2, 3) ? (uint32_t)((k + c.below(4) + n - 1) % n) : (uint32_t)c.below(n);
                script[k].push_back({kind, slot, (int)c.below(IDS), !c.chance(1, 4)});
            }
        }
        (void)turn;
        std::vector<int> plain, want;
        std::vector<char> addResults;
        for (uint32_t i = 0; i < n; ++i) { if (model[i].id >= 0 && model[i].active) { plain.push_back(model[i].id); } }
        for (uint32_t i = 0; i < n; ++i) {
            if (model[i].id >= 0 && model[i].active) {
                size_t call = want.size();
                want.push_back(model[i].id);
                if (call < script.size()) {
                    for (const Change& x : script[call]) {
                        bool ok = perform(model, x);
                        if (x.kind == 4) { addResults.push_back(ok); }
                    }
                }
            }
        }
        std::vector<int> log;
        std::vector<char> adds;
        hook().f = [&](int id) {
            size_t call = log.size();
            log.push_back(id);
            if (log.size() > 2 * n + 10) { c.fail("a run over %u slots does not end", n); }
            if (call < script.size()) {
                for (const Change& x : script[call]) {
                    static const char* K[] = {"on", "off", "empty", "refill", "add", "init"};
                    NOTE(c, "call %zu (task %d): %s slot %u task %d active %d", call, id, K[x.kind], x.slot, x.id, x.active);
                    bool ok = real(x);
                    if (x.kind == 4) { adds.push_back(ok); }
                }
            }
        };
        NOTE(c, "run %zu of a table of %u", r, n);
        Scheduler_run(t, n);
        hook().f = nullptr;
        if (log != want) {
            size_t i = 0;
            while (i < log.size() && i < want.size() && log[i] == want[i]) { ++i; }
            c.fail("run %zu of %u slots whose tasks change the table made %zu calls, expected %zu; call %zu is task %d, expected %d", r, n, log.size(), want.size(), i,
                   i < log.size() ? log[i] : -1, i < want.size() ? want[i] : -1);
        }
        if (adds != addResults) { c.fail("registering a task from a task of run %zu succeeded or failed unexpectedly", r); }
        compare("a run");
        if (want != plain) { surprising = true; }
    }
    c.label(n < 8 ? "slots:1..7" : n < 41 ? "slots:8..40" : "slots:41+");
    if (surprising) {
        c.label("changes took effect within a run");
        c.nontrivial();
    }
}
}  // namespace im
