#include "ops.hpp"
using namespace im;
using namespace ops;
namespace im {
const Prop PROP = {"H01",
    "histories of 2..40 calls over the whole stateless interface (Base64, named and parameterised CRCs, table generators, "
    "ciphers, conversions, (de)serialisation, JSON building and lookup, sorting, bit operations), valid and invalid arguments mixed; "
    "then up to as many calls from the history are repeated in another order, each in freshly placed buffers with other stale content "
    "or (half of the histories) in the memory other calls used before, "
    "and must give the same results and leave input-only arguments unchanged. Non-trivial: at least 6 calls, "
    "of at least 3 kinds, and at least 3 repetitions after other calls",
    100000, 2500000, 30000, 1000000, 4096};

void runCase(Ctx& c) {
    size_t n = 2 + c.below(c.chance(1, 4) ? 39 : 11);
    std::vector<Op> ops;
    bool reuse = c.flag();  // every call finds its buffers where earlier calls had theirs
    unsigned seen = 0;
    for (size_t i = 0; i < n; ++i) {
        // often the same kind again with other arguments: neighbouring state
        Op o = make(c);
        NOTE(c, "#%zu %s(%zu bytes)", i, NAMES[o.kind], o.a.size());
        if (reuse) { arenaReset(); }
        o.result = run(c, o);
        seen |= 1u << o.kind;
        c.label(NAMES[o.kind]);
        ops.push_back(o);
    }
    size_t again = 1 + c.below(n);
    for (size_t i = 0; i < again; ++i) {
        size_t k = c.below(n);
        NOTE(c, "repeat #%zu", k);
        if (reuse) { arenaReset(); }
        Bytes r = run(c, ops[k]);
        if (r != ops[k].result) {
            c.fail("repeating %s (call %zu of the history) gave %s, the first time %s", NAMES[ops[k].kind], k, hex(r.data(), r.size()).c_str(),
                   hex(ops[k].result.data(), ops[k].result.size()).c_str());
        }
    }
    if (n >= 6 && __builtin_popcount(seen) >= 3 && again >= 3) { c.nontrivial(); }
}
}  // namespace im
