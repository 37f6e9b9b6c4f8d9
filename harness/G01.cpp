// The same calls on this machine and on four others: their results must be the same bytes.
//   i386    32-bit words, little-endian                 wasm32  32-bit words, plain char unsigned, typed function pointers
//   be64    64-bit words, big-endian, char unsigned     be32    32-bit words, big-endian, char unsigned
// check.py builds the servers (port/); one that cannot be built or started here is left out, and the evidence says so.
#define IM_M(n) {n, n ": not here"}
#define IM_MACHINES IM_M("i386"), IM_M("wasm32"), IM_M("be64"), IM_M("be32")
#include "machines.hpp"
namespace im {
const Prop PROP = {"G01",
    "one call, or a history of up to 120 operations on a container, of one of 18 kinds, with data of up to 300 and at times 5000 bytes at any address, encoded as bytes and carried out on this machine and on "
    "i386, wasm32 (unsigned char) and big-endian 64-bit and 32-bit machines (PowerPC code whose loads, stores and constants are byte-swapped); return values and all memory written must be the same "
    "bytes on each. Non-trivial: at least 8 bytes of data or 4 operations",
    600000, 6000000, 1500, 100000, 1024};
}  // namespace im
