#include "pq_common.hpp"
#include "endurance.hpp"
namespace im {
const Prop PROP = {"P02",
    "histories as for P01 that fill the queue and keep inserting (capacity mostly 1..8, up to 1200), priorities equal to, below and above the stored ones; contents drained at the end; queues beyond 2^16 elements or bytes enumerated. "
    "Storage of more than 2^32 bytes and 70000 (thorough 2^32) operations enumerated. Non-trivial: at least one eviction or refusal and elements left to drain",
    120000, 2000000, 40000, 1500000, 2048};
uint64_t enumCount(bool thorough) { return PQ_NBIG + 1 + (thorough ? 2 : 1); }
void enumCase(Ctx& c, uint64_t i, bool) {
    if (i < PQ_NBIG) { pqBig(c, i, true); } else if (i == PQ_NBIG) { cont::bigPriority(c, 0, true); } else { cont::longPriority(c, i - PQ_NBIG - 1, true); }
}
void runCase(Ctx& c) { pqHistory(c, true); }
}  // namespace im
