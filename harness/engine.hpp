// Choice-sequence property-testing engine.
//
// A case is a function of a byte stream.  The stream comes from a seeded PRNG
// (random search), a replay file, a shrinking candidate or libFuzzer.  All bias
// (boundary values, constants seen in the source, ...) sits in the *producer*
// of the bytes; decoding is pure, so a recorded stream replays on its own.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define IM_ASAN 1
#endif
#endif
#ifdef IM_ASAN
#include <sanitizer/asan_interface.h>
#endif

namespace im {

struct Rng {  // splitmix64
    uint64_t s = 0;
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

enum Kind { UNIFORM, SIZE, WORD, BYTE };

class Ctx;

struct Prop {
    const char* id;
    const char* rule;          // how cases are made, what makes one non-trivial
    uint64_t quick, thorough;  // random cases
    uint64_t fuzzQuick, fuzzThorough;  // libFuzzer runs (per job)
    uint32_t maxLen;           // libFuzzer -max_len
};

class Ctx {
public:
    // ---- drawing -------------------------------------------------------
    uint64_t draw(int nbytes, uint64_t max, Kind k);
    bool chance(unsigned num, unsigned den) {  // simplest choice: false
        uint64_t v = draw(1, 255, UNIFORM);
        bool r = v >= 256 - (256 * num) / den;
        return r;
    }
    size_t mostly(size_t usual, size_t rarely) { return (size_t)below(chance(1, 6) ? rarely : usual); }
    bool flag() { return draw(1, 1, UNIFORM) != 0; }
    uint64_t below(uint64_t n) {  // uniform in [0,n)
        if (n <= 1) { return 0; }
        return draw(n <= 256 ? 1 : n <= 65536 ? 2 : n <= 0x1000000 ? 3 : 4, n - 1, UNIFORM);
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    uint64_t size(uint64_t max) {  // biased to small values, boundaries, source constants
        if (max == 0) { return 0; }
        return draw(max < 256 ? 1 : max < 65536 ? 2 : max < 0x1000000 ? 3 : 4, max, SIZE);
    }
    uint64_t sizeRange(uint64_t lo, uint64_t hi) { return lo + size(hi - lo); }
    uint8_t byte() { return (uint8_t)draw(1, 255, BYTE); }
    uint16_t u16() { return (uint16_t)draw(2, 65535, WORD); }
    uint32_t u32() { return (uint32_t)draw(4, 0xFFFFFFFFull, WORD); }
    uint32_t u32uniform() { return (uint32_t)draw(4, 0xFFFFFFFFull, UNIFORM); }
    template <class T> T pick(std::initializer_list<T> l) { return l.begin()[below(l.size())]; }
    // fill memory with one of several content styles
    void fill(uint8_t* p, size_t n);
    // PRNG expansion of a drawn seed: cheap content for big buffers
    void fillRandom(uint8_t* p, size_t n);

    // ---- reporting -----------------------------------------------------
    void label(const char* l) { labels.push_back(l); }
    void nontrivial() { nontriv = true; }
    void evals(uint64_t n) { evaluations += n; }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void mix(uint64_t v) {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0x100000001B3ull;
        h ^= h >> 29;
    }
    void distinctKey(uint64_t v) { extra.push_back(v); }  // enumerated stage: one per sub-case

    // ---- internals -----------------------------------------------------
    bool random = false;
    bool tracing = false;
    Rng rng;
    const uint8_t* in = nullptr;
    size_t inN = 0, pos = 0;
    uint64_t h = 0xcbf29ce484222325ull;
    bool nontriv = false;
    uint64_t evaluations = 0;
    std::vector<const char*> labels;
    std::vector<uint64_t> extra;
    std::string trace;
    void reset();
};

extern const Prop PROP;          // defined by the harness
void runCase(Ctx& c);            // defined by the harness
// enumerated stage (optional): enumCount batches
uint64_t enumCount(bool thorough);
void enumCase(Ctx& c, uint64_t i, bool thorough);

// ---- guarded buffers -------------------------------------------------------
// Every byte handed to the library lies between red zones inside one arena.
struct Buf {
    uint8_t* p = nullptr;
    size_t n = 0;
    Buf() {}
    // align: offset of the first byte from an 8-byte boundary (0 = red zone
    // immediately before the data is caught on reads as well)
    Buf(Ctx& c, size_t n, unsigned off);
    Buf(Ctx& c, size_t n);  // offset drawn
    Buf(Ctx& c, const void* src, size_t n) : Buf(c, n) {
        if (n) { memcpy(p, src, n); }
    }
    uint8_t& operator[](size_t i) const { return p[i]; }
    char* c_str() const { return (char*)p; }
    std::vector<uint8_t> copy() const { return std::vector<uint8_t>(p, p + n); }
    void set(uint8_t v) const {
        if (n) { memset(p, v, n); }
    }
};
// check the canaries of every live buffer
void checkGuards(Ctx& c, const char* what);
bool inArena(const void* p);
void alive();  // long case, still progressing: restart the CPU-time limit
extern void (*tickHook)();  // called first in the timer's signal handler
void patience(unsigned seconds);  // CPU time the calls of this case may take without alive()
void arenaReset();

// compare a buffer with its expected content
void expectBytes(Ctx& c, const char* what, const uint8_t* got, const uint8_t* want, size_t n);
inline void expectSame(Ctx& c, const char* what, const Buf& b, const std::vector<uint8_t>& want) {
    if (b.n != want.size()) { c.fail("%s: harness size mismatch", what); }
    if (b.n) { expectBytes(c, what, b.p, want.data(), b.n); }
}
// sizes round and beyond 2^16, for enumerated cases k = 0, 1, 2, ...
inline size_t bigSize(Ctx& c, uint64_t k) {
    static const size_t B[] = {65535, 65536, 65537, 65539, 66000, 131072, 131075, 200001};
    return k < 8 ? B[k] : 65536 + c.below(300000);
}
// size bytes of untouched zero pages, so that sizes beyond 2^32 cost nothing; null when refused
uint8_t* sparse(size_t size);
void sparseFree(uint8_t* p, size_t size);
std::string hex(const void* p, size_t n, size_t max = 48);
std::string quoted(const void* p, size_t n, size_t max = 80);

}  // namespace im

// lazily formatted notes
#define NOTE(c, ...) do { if ((c).tracing) { (c).note(__VA_ARGS__); } } while (0)
