#include "pq_common.hpp"
#include "endurance.hpp"
namespace im {
const Prop PROP = {"P01",
    "histories of up to 50 steps (enqueue, dequeue, runs of them, fill, drain, re-initialisation) on a priority queue of capacity 1..1200 and element size 1..4001, "
    "priorities from few-valued (ties) to full 32-bit; each result compared with a model, queue drained at the end; queues beyond 2^16 elements or bytes enumerated. "
    "Storage of more than 2^32 bytes and 2^32 operations enumerated. Non-trivial: more than two removals and at least one tie",
    120000, 2000000, 40000, 1500000, 2048};
uint64_t enumCount(bool) { return PQ_NBIG + 3; }
void enumCase(Ctx& c, uint64_t i, bool) {
    if (i < PQ_NBIG) { pqBig(c, i, false); } else if (i == PQ_NBIG) { cont::bigPriority(c, 0, false); } else { cont::longPriority(c, i - PQ_NBIG - 1, false); }
}
void runCase(Ctx& c) { pqHistory(c, false); }
}  // namespace im
