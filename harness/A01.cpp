#include "engine.hpp"
#include "lib.hpp"
#include "sort_common.hpp"
using namespace im;
namespace im {
const Prop PROP = {"A01",
    "calls of every function of the library (one of 26 kinds, and histories of up to 50 operations on a container or task table) with arguments of up to 300 and often of thousands of bytes, elements or operations at any alignment (enumerated: up to 300000; all bit positions, "
    "counts and widths; sorts of 2^30 and 2^31 - 1 elements), valid or not, on builds in which signed overflow, shift counts outside the word, division by zero, misaligned access and "
    "fixed array bounds trap. Non-trivial: at least 300 bytes, elements or operations, or an argument outside the valid range",
    300000, 6000000, 30000, 1000000, 1024};
static void start() {}
template <class F> static void call(Ctx&, const char*, F f) { f(); }
}  // namespace im
#include "calls.hpp"
namespace im {
void runCase(Ctx& c) {
    unsigned kind = (unsigned)c.below(KINDS);
    size_t n = c.chance(1, 8) ? 300 + c.size(9700) : c.size(300);
    one(c, kind, n);
}
static const uint64_t BIG = 3;
uint64_t enumCount(bool thorough) { return KINDS * BIG + 1 + (thorough ? 8 : 3); }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.nontrivial();
    if (i < KINDS * BIG) {
        c.label("enum:sizes round and beyond 65536");
        for (unsigned r = 0; r < 4; ++r) {
            arenaReset();
            one(c, (unsigned)(i % KINDS), r == 3 ? 3000 + c.below(3000) : bigSize(c, i / KINDS + r * 3));
            c.distinctKey(i << 8 | r);
        }
        c.evals(4);
        return;
    }
    i -= KINDS * BIG;
    if (i == 0) {
        c.label("enum:every bit position, width, count, exponent and table of digits");
        uint64_t cnt = 0;
        for (uint32_t w : {0u, 1u, 0x80000000u, 0xFFFFFFFFu, 0x7FFFFFFFu, 0x12345678u}) {
            for (unsigned k = 0; k < 256; ++k, ++cnt) {
                bool b;
                uint32_t r;
                BitManipulation_bitSet(w, (uint8_t)k, &b);
                BitManipulation_setBit(w, (uint8_t)k, &r);
                BitManipulation_clearBit(w, (uint8_t)k, &r);
                BitManipulation_toggleBit(w, (uint8_t)k, &r);
                {
                    BitManipulation_reflect(w, (uint8_t)k);
                    BitManipulation_rotl32(w, k);
                    BitManipulation_rotl32(w, k * 0x01010101u);
                }
                Utils_quickUint32Pow10((uint8_t)k, &r);
                Utils_isAlpha((char)k);
                std::string s(k ? k : 1, (char)('0' + k % 10));
                Buf t(c, s.data(), s.size());
                Utils_stringToUint32(t.c_str(), (uint8_t)t.n, &r);
                char m[2] = {(char)(k ? k : 1), 0};
                CaesarCipher_encrypt(m, (uint8_t)w);
                m[0] = (char)(k ? k : 1);
                CaesarCipher_decrypt(m, (uint8_t)w);
                c.distinctKey((uint64_t)w << 16 | k);
                arenaReset();
            }
        }
        c.evals(cnt);
        return;
    }
    static const uint64_t K[] = {0, 5, 2, 7, 1, 3, 4, 6};
    srt::giantSort(c, K[i - 1]);
}
}  // namespace im
