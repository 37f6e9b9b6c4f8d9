// The same calls by the library built otherwise: their results must be the same bytes.  check.py has the options of each build;
// one that cannot be built here is left out, and the evidence says so.
#define IM_M(n) {n, n ": not here"}
#define IM_MACHINES IM_M("gcc-O3-lto"), IM_M("gcc-Os-c11"), IM_M("gcc-O1-c17"), IM_M("clang-O3-c11"), IM_M("clang-Oz-gnu17"), IM_M("clang-O2-gnu99")
#include "machines.hpp"
namespace im {
const Prop PROP = {"O01",
    "one call, or a history of up to 120 operations on a container, of one of 18 kinds, with data of up to 300 and at times 5000 bytes at any address, encoded as bytes and carried out by this build and by six "
    "others (gcc and clang; C99, C11 and C17; -O1 to -O3, -Os, -Oz; link-time optimisation; with and without NDEBUG, short enums, unsigned char, wrapping arithmetic, strict aliasing); return values and all memory written must be the same "
    "bytes in each. Non-trivial: at least 8 bytes of data or 4 operations",
    600000, 6000000, 1500, 100000, 1024};
}  // namespace im
