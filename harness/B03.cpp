#include <algorithm>
#include "engine.hpp"
#include "lib.hpp"
#include "refs.hpp"
using namespace im;
namespace im {
const Prop PROP = {"B03",
    "arbitrary input bytes (random, alphabet with stray padding, valid text mutated or cut) of 0..3000 (rarely 100000) bytes "
    "x output capacities from 0 up, round the implied output size. Non-trivial: input not empty",
    500000, 8000000, 100000, 5000000, 4096};

static void one(Ctx& c, size_t L) {
    Buf in(c, L);
    switch (c.below(4)) {
        case 0:
            c.fill(in.p, L);
            c.label("in:bytes");
            break;
        case 1: {
            static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/====\n -_";
            c.fillRandom(in.p, L);
            for (size_t i = 0; i < L; ++i) { in[i] = (uint8_t)A[in[i] % (sizeof(A) - 1)]; }
            c.label("in:alphabet");
            break;
        }
        default: {
            std::vector<uint8_t> d(L);
            c.fillRandom(d.data(), L);
            std::string t = ref::base64(d.data(), L * 3 / 4);
            t.resize(L, '=');
            unsigned k = (unsigned)c.below(4);
            while (k-- && L) { t[c.size(L - 1)] = (char)c.byte(); }
            memcpy(in.p, t.data(), L);
            if (L && c.chance(1, 3)) {
                unsigned e = 1 + (unsigned)c.below(4);
                for (unsigned i = 0; i < e && i < L; ++i) { in[L - 1 - i] = '='; }
            }
            c.label("in:mutated text");
        }
    }
    size_t full = L / 4 * 3 + 3, cap = 0;
    switch (c.below(4)) {
        case 0: cap = full - c.below(std::min<size_t>(full, 6)); break;
        case 1: cap = c.size(full + 4); break;
        case 2: cap = c.below(4); break;
        default: cap = full + c.size(100); break;
    }
    Buf out(c, cap);
    out.set(c.byte());
    c.label(L % 4 == 0 ? "len%4:0" : L % 4 == 1 ? "len%4:1" : L % 4 == 2 ? "len%4:2" : "len%4:3");
    if (L) { c.nontrivial(); }
    NOTE(c, "decode %s (%zu chars) into capacity %zu", quoted(in.p, L, 60).c_str(), L, cap);
    auto before = in.copy();
    int32_t rc = Base64_decode((const char*)in.p, L, out.p, cap);
    c.label(rc == 0 ? "accepted" : "rejected");
    checkGuards(c, "Base64_decode");
    expectSame(c, "input", in, before);
}
void runCase(Ctx& c) { one(c, c.chance(1, 1000) ? c.size(100000) : c.chance(1, 12) ? c.size(3000) : c.size(100)); }
uint64_t enumCount(bool thorough) { return thorough ? 400 : 40; }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.label("enum:around and beyond 65536 characters");
    c.distinctKey(i);
    one(c, bigSize(c, i / 2 % 16));
}
}  // namespace im
