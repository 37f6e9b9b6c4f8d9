// Arguments of more than 2^31 or 2^32 bytes, for enumerated cases.  Not under
// AddressSanitizer: its shadow memory would have to be filled as well.
#pragma once
#include <fcntl.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <unistd.h>
#include "engine.hpp"
#include "refs.hpp"

#if defined(IM_ASAN) || defined(IM_NO_GIANTS)
static const bool GIANTS = false;
#else
static const bool GIANTS = true;
#endif

// Room for n more bytes of touched memory, for as long as this object lives.
// At most three giants of a check touch memory at a time.
struct Room {
    bool ok = false;
    int fd = -1;
    Room(im::Ctx& c, uint64_t n) {
        if (!GIANTS) { return; }
        for (unsigned k = 0;; ++k) {
            char name[] = "giant.lock0";
            name[10] = (char)('0' + k % 3);
            fd = open(name, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
            if (fd < 0 || flock(fd, LOCK_EX | LOCK_NB) == 0) { break; }
            close(fd);
            if (k % 3 == 2) { usleep(200000); }
            im::alive();
        }
        uint64_t avail = ~0ull;
        if (FILE* f = fopen("/proc/meminfo", "r")) {
            char line[200];
            unsigned long long kb;
            while (fgets(line, sizeof line, f)) {
                if (sscanf(line, "MemAvailable: %llu", &kb) == 1) { avail = kb << 10; }
            }
            fclose(f);
        }
        ok = avail > 3 * n + (2ull << 30) || (fd >= 0 && avail > n + (8ull << 30));
        if (!ok) { c.label("giant case skipped: memory"); }
    }
    ~Room() {
        if (fd >= 0) { close(fd); }
    }
    explicit operator bool() const { return ok; }
    Room(const Room&) = delete;
    Room& operator=(const Room&) = delete;
};

// n bytes that all read `value` and take memory only where written, between inaccessible pages
struct Giant {
    uint8_t* p = nullptr;
    size_t n = 0, total = 0;
    uint8_t* base = nullptr;
    Giant(size_t size, uint8_t value) : n(size) {
        if (!GIANTS) { return; }
        const size_t T = 16u << 20, G = T;
        size_t body = (n + 4095) & ~(size_t)4095;
        total = body + 2 * G;
        void* m = mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { return; }
        base = (uint8_t*)m;
        uint8_t* lo = base + G;
        bool ok = true;
        if (value == 0) {
            ok = mprotect(lo, body, PROT_READ | PROT_WRITE) == 0;
        } else {
            int fd = memfd_create("tile", 0);
            ok = fd >= 0 && ftruncate(fd, (off_t)T) == 0;
            if (ok) {
                void* t = mmap(nullptr, T, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                ok = t != MAP_FAILED;
                if (ok) {
                    memset(t, value, T);
                    munmap(t, T);
                }
            }
            for (size_t at = 0; ok && at < body; at += T) {
                size_t len = body - at < T ? body - at : T;
                ok = mmap(lo + at, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) != MAP_FAILED;
            }
            if (fd >= 0) { close(fd); }
        }
        if (!ok) { release(); return; }
        p = lo + (body - n);  // the byte beyond the last is inaccessible
    }
    ~Giant() { release(); }
    void release() {
        if (base) { munmap(base, total); }
        base = p = nullptr;
    }
    Giant(const Giant&) = delete;
    Giant& operator=(const Giant&) = delete;
};

// every byte of p[from..to) is value
inline void expectAll(im::Ctx& c, const char* what, const uint8_t* p, size_t from, size_t to, uint8_t value) {
    uint64_t w = 0x0101010101010101ull * value;
    size_t i = from;
    while (i < to) {
        uint64_t x;
        if (to - i >= 64) {
            uint64_t d = 0;
            for (unsigned k = 0; k < 8; ++k) {
                memcpy(&x, p + i + 8 * k, 8);
                d |= x ^ w;
            }
            if (d == 0) {
                i += 64;
                if ((i & 0xFFFFFC0) == 0) { im::alive(); }
                continue;
            }
        }
        for (unsigned k = 0; k < 64 && i < to; ++k, ++i) {
            if (p[i] != value) { c.fail("%s: byte %zu is %02x, expected %02x", what, i, p[i], value); }
        }
    }
    im::alive();
}

// Distinct ascending places in [0, n): the ends, round powers of two, and random ones
inline std::vector<size_t> places(im::Ctx& c, size_t n, unsigned random) {
    std::vector<size_t> v;
    auto add = [&](uint64_t x) {
        if (x < n) { v.push_back((size_t)x); }
    };
    for (uint64_t k = 0; k < 3; ++k) {
        add(k);
        add(n - 1 - k);
    }
    for (unsigned s : {8, 16, 24, 30, 31, 32}) {
        add((1ull << s) - 1);
        add(1ull << s);
        add((1ull << s) + 1 + c.below(50));
    }
    for (unsigned i = 0; i < random; ++i) { add(((uint64_t)c.u32uniform() << 8 | c.byte()) % n); }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}

// A sparse message: zero bytes but for marks at some places
struct SparseMessage {
    Giant g;
    std::vector<size_t> at;
    SparseMessage(im::Ctx& c, size_t n) : g(n, 0) {
        if (!g.p) { return; }
        at = places(c, n, 12);
        for (size_t a : at) { g.p[a] = (uint8_t)(1 + c.below(255)); }
    }
    // register of a CRC after bytes [from, to)
    uint32_t crc(unsigned w, uint32_t poly, bool refin, uint32_t reg, size_t from, size_t to) const {
        size_t pos = from;
        for (size_t a : at) {
            if (a < from || a >= to) { continue; }
            reg = ref::crcZeros(w, poly, reg, a - pos);
            reg = ref::crcRegister(w, poly, refin, reg, g.p + a, 1);
            pos = a + 1;
        }
        return ref::crcZeros(w, poly, reg, to - pos);
    }
    // only the marks differ from zero
    void expectUnchanged(im::Ctx& c, const std::vector<uint8_t>& marks) const {
        size_t pos = 0;
        for (size_t i = 0; i < at.size(); ++i) {
            if (g.p[at[i]] != marks[i]) { c.fail("the message was changed at byte %zu", at[i]); }
            if (at[i] - pos > 8192) {
                expectAll(c, "message", g.p, pos, pos + 4096, 0);
                expectAll(c, "message", g.p, at[i] - 4096, at[i], 0);
            }
            pos = at[i] + 1;
        }
    }
    std::vector<uint8_t> marks() const {
        std::vector<uint8_t> v;
        for (size_t a : at) { v.push_back(g.p[a]); }
        return v;
    }
};
