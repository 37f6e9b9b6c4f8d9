#include "engine.hpp"
#ifdef IM_ASAN
#include <sanitizer/common_interface_defs.h>
#endif

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>

namespace im {

__attribute__((weak)) uint64_t enumCount(bool) { return 0; }
__attribute__((weak)) void enumCase(Ctx&, uint64_t, bool) {}

// ---- progress record (shared with the driver / the shrinking parent) --------
struct Progress {
    uint64_t magic, mode, idx, recN, overflow, evals;
    char msg[2048];
};
static const size_t REC_OFF = 4096;
static const size_t REC_CAP = (1u << 20) - REC_OFF;
static Progress* g_prog = nullptr;
static uint8_t* g_rec = nullptr;
static bool g_fuzz = false;
static Ctx* g_ctx = nullptr;  // the running case, for its trace when the process dies
[[maybe_unused]] static void deathNote() {
    if (g_ctx && g_ctx->tracing) {
        fprintf(stderr, "CASE: %s\n", g_ctx->trace.c_str());
        fflush(stderr);
    }
}

static void mapProgress(const char* path) {
    int fd = -1;
    int flags = MAP_SHARED | MAP_ANONYMOUS;
    if (path) {
        fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, REC_OFF + REC_CAP) != 0) { perror(path); _exit(3); }
        flags = MAP_SHARED;
    }
    void* m = mmap(nullptr, REC_OFF + REC_CAP, PROT_READ | PROT_WRITE, flags, fd, 0);
    if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
    g_prog = (Progress*)m;
    g_rec = (uint8_t*)m + REC_OFF;
    g_prog->magic = 0x494D5052;
}

// ---- constants seen in the library source (producer bias only) --------------
static std::vector<uint64_t> g_consts;
[[maybe_unused]] static void loadConsts() {
    const char* f = getenv("IM_CONSTS");
    if (!f) { return; }
    FILE* fp = fopen(f, "r");
    if (!fp) { return; }
    unsigned long long v;
    while (fscanf(fp, "%llu", &v) == 1) { g_consts.push_back(v); }
    fclose(fp);
}

// ---- drawing -----------------------------------------------------------------
static const uint32_t BOUND[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129,
                                 191, 192, 193, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 767, 768, 769, 1000, 1023, 1024, 1025, 2047, 2048,
                                 2049, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537
                                };

static uint64_t produce(Rng& r, uint64_t max, Kind k) {
    uint64_t t = r.below(100);
    auto clip = [&](uint64_t v) { return v <= max ? v : (max == UINT64_MAX ? v : v % (max + 1)); };
    switch (k) {
        case UNIFORM:
            return max == UINT64_MAX ? r.next() : r.below(max + 1);
        case BYTE: {
            if (t < 80) { return r.below(max + 1); }
            if (t < 92 || g_consts.empty()) {
                static const uint8_t B[] = {0, 1, 0x7F, 0x80, 0x81, 0xFF, 0xFE, ' ', '"', ':', ',', '{', '}', '=', '0', '9', 'A', 'Z', 'a', 'z', '@', '[', '`', '/', '\\', '\t', '\n'};
                return clip(B[r.below(sizeof(B))]);
            }
            return clip(g_consts[r.below(g_consts.size())] & 0xFF);
        }
        case SIZE: {
            int bits = 64 - __builtin_clzll(max | 1);
            if (t < 40) {  // log-uniform
                uint64_t b = r.below(bits + 1);
                return clip(b ? r.below(1ull << b) : 0);
            }
            if (t < 65) { return clip(r.below(24)); }
            if (t < 82) {
                size_t n = 0;
                while (n < sizeof(BOUND) / sizeof(BOUND[0]) && BOUND[n] <= max) { ++n; }
                return BOUND[r.below(n)];
            }
            if (t < 86) { return max - r.below(std::min<uint64_t>(max, 3) + 1); }
            if (t < 94 && !g_consts.empty()) {
                uint64_t v = g_consts[r.below(g_consts.size())] + r.below(3) - 1;
                if (v <= max) { return v; }
            }
            return clip(r.below(300));
        }
        case WORD: {
            int bits = 64 - __builtin_clzll(max | 1);
            if (t < 35) { return clip(r.next()); }
            if (t < 50) { return clip((1ull << r.below(bits)) + r.below(3) - 1); }
            if (t < 57) { return max - r.below(std::min<uint64_t>(max, 4) + 1); }
            if (t < 60) { return 0; }
            if (t < 74 && !g_consts.empty()) { return clip(g_consts[r.below(g_consts.size())] + (r.below(4) ? 0 : r.below(3) - 1)); }
            if (t < 88) { return clip(r.below(300)); }
            if (t < 94) { return clip((r.next() & 0xFF) * 0x0101010101010101ull); }
            return clip(r.next() & r.next() & r.next());  // sparse bits
        }
    }
    return 0;
}

static inline void record(uint8_t b) {
    if (g_prog->recN < REC_CAP) {
        g_rec[g_prog->recN++] = b;
    } else {
        g_prog->overflow = 1;
    }
}

uint64_t Ctx::draw(int nbytes, uint64_t max, Kind k) {
    uint64_t v = 0;
    if (random) {
        v = produce(rng, max, k);
        for (int i = 0; i < nbytes; ++i) { record((uint8_t)(v >> (8 * i))); }
    } else {
        for (int i = 0; i < nbytes; ++i) {
            uint8_t b = pos < inN ? in[pos] : 0;
            ++pos;
            v |= (uint64_t)b << (8 * i);
        }
        if (v > max) { v %= (max + 1); }
    }
    mix(v);
    return v;
}

void Ctx::fillRandom(uint8_t* p, size_t n) {
    Rng r;
    r.s = u32uniform();
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t v = r.next();
        memcpy(p + i, &v, 8);
    }
    for (; i < n; ++i) { p[i] = (uint8_t)r.next(); }
}

void Ctx::fill(uint8_t* p, size_t n) {
    if (n == 0) { return; }
    uint64_t style = draw(1, 9, UNIFORM);
    switch (style) {
        case 0:
            memset(p, 0, n);
            break;
        case 1:
        case 2:
        case 3:
            if (n <= 400) {
                for (size_t i = 0; i < n; ++i) { p[i] = byte(); }
                break;
            }
            [[fallthrough]];
        case 4:
        case 5:
            fillRandom(p, n);
            break;
        case 6:
            memset(p, byte(), n);
            break;
        case 7: {
            uint8_t a = byte(), b = byte();
            fillRandom(p, n);
            for (size_t i = 0; i < n; ++i) { p[i] = (p[i] & 1) ? a : b; }
            break;
        }
        case 8: {
            uint8_t a = byte(), s = byte();
            for (size_t i = 0; i < n; ++i, a = (uint8_t)(a + s)) { p[i] = a; }
            break;
        }
        default: {
            memset(p, byte(), n);
            unsigned k = 1 + (unsigned)below(4);
            while (k--) {
                size_t at = size(n - 1);
                p[at] = byte();
            }
        }
    }
}

void Ctx::reset() {
    pos = 0;
    h = 0xcbf29ce484222325ull;
    nontriv = false;
    evaluations = 0;
    labels.clear();
    extra.clear();
    trace.clear();
    if (g_prog) { g_prog->recN = 0; g_prog->overflow = 0; }
}

void Ctx::note(const char* fmt, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (trace.size() < 6000) {
        if (!trace.empty()) { trace += "; "; }
        trace += b;
    }
}

void Ctx::fail(const char* fmt, ...) {
    char b[1800];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (g_prog) { snprintf(g_prog->msg, sizeof g_prog->msg, "%s", b); }
    fprintf(stderr, "FAIL: %s\n", b);
    deathNote();
    if (g_fuzz) { abort(); }
    _exit(77);
}

// ---- arena ---------------------------------------------------------------------
static uint8_t* g_arena = nullptr;
static const size_t ARENA = 256u << 20;
static const size_t LEAD = 1u << 20;  // room before the first buffer
static size_t g_top = LEAD, g_high = LEAD;
static const size_t RZ = 64;
struct Slot { uint8_t* lo; uint8_t* p; size_t n; uint8_t* hi; };
static std::vector<Slot> g_slots;

static inline uint8_t canary(const uint8_t* a) { return (uint8_t)(0xC5 ^ ((uintptr_t)a * 29)); }

static void arenaInit() {
    g_arena = (uint8_t*)mmap((void*)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_arena == MAP_FAILED) { perror("arena"); _exit(3); }
#ifdef IM_ASAN
    __asan_poison_memory_region(g_arena, ARENA);
#endif
    g_slots.reserve(256);
}

void arenaReset() {
#ifdef IM_ASAN
    if (g_top > LEAD) { __asan_poison_memory_region(g_arena + LEAD, g_top - LEAD); }
#endif
    g_top = LEAD;
    g_slots.clear();
}

uint8_t* sparse(size_t size) {
    size_t pages = (size + 4095) & ~(size_t)4095;
    void* m = mmap(nullptr, pages + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { return nullptr; }
    if (mprotect((uint8_t*)m + 4096, pages, PROT_READ | PROT_WRITE) != 0) {
        munmap(m, pages + 8192);
        return nullptr;
    }
    return (uint8_t*)m + 4096;
}
void sparseFree(uint8_t* p, size_t size) { munmap(p - 4096, ((size + 4095) & ~(size_t)4095) + 8192); }
bool inArena(const void* p) { return (uint8_t*)p >= g_arena && (uint8_t*)p < g_arena + ARENA; }

Buf::Buf(Ctx& c, size_t len, unsigned off) {
    (void)c;
    size_t need = RZ + 8 + ((len + 7) & ~(size_t)7) + RZ + 16;
    if (g_top + need + LEAD > ARENA) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
    uint8_t* lo = g_arena + g_top;
    p = lo + RZ + (off & 7);
    n = len;
    uint8_t* hi = g_arena + ((g_top + need) & ~(size_t)15);
#ifdef IM_ASAN
    // the first granule becomes addressable as a whole: bytes before p in it carry a canary
    __asan_unpoison_memory_region(lo + RZ, (off & 7) + len);
    for (uint8_t* a = lo + RZ; a < p; ++a) { if (len) { *a = canary(a); } }
#else
    for (uint8_t* a = lo; a < p; ++a) { *a = canary(a); }
    for (uint8_t* a = p + n; a < hi; ++a) { *a = canary(a); }
#endif
    g_slots.push_back({lo, p, n, hi});
    g_top = (size_t)(hi - g_arena);
    if (g_top > g_high) { g_high = g_top; }
}

Buf::Buf(Ctx& c, size_t len) {
    unsigned o = (unsigned)c.draw(1, 15, UNIFORM);
    *this = Buf(c, len, o < 8 ? 0 : o - 8);
}

void checkGuards(Ctx& c, const char* what) {
    for (const Slot& s : g_slots) {
#ifdef IM_ASAN
        if (s.n == 0) { continue; }
        for (uint8_t* a = s.lo + RZ; a < s.p; ++a) {
            if (*a != canary(a)) { c.fail("%s: byte %td before a %zu-byte buffer was overwritten", what, s.p - a, s.n); }
        }
#else
        for (uint8_t* a = s.lo; a < s.p; ++a) {
            if (*a != canary(a)) { c.fail("%s: byte %td before a %zu-byte buffer was overwritten", what, s.p - a, s.n); }
        }
        for (uint8_t* a = s.p + s.n; a < s.hi; ++a) {
            if (*a != canary(a)) { c.fail("%s: byte %td after the end of a %zu-byte buffer was overwritten", what, a - (s.p + s.n), s.n); }
        }
#endif
    }
}

std::string hex(const void* p, size_t n, size_t max) {
    std::string s;
    char b[4];
    for (size_t i = 0; i < n && i < max; ++i) {
        snprintf(b, sizeof b, "%02x", ((const uint8_t*)p)[i]);
        s += b;
    }
    if (n > max) { s += "...(" + std::to_string(n) + " bytes)"; }
    return s;
}

std::string quoted(const void* p, size_t n, size_t max) {
    std::string s = "'";
    char b[8];
    for (size_t i = 0; i < n && i < max; ++i) {
        uint8_t ch = ((const uint8_t*)p)[i];
        if (ch >= 32 && ch < 127 && ch != '\\' && ch != '\'') {
            s += (char)ch;
        } else {
            snprintf(b, sizeof b, "\\x%02x", ch);
            s += b;
        }
    }
    s += "'";
    if (n > max) { s += "...(" + std::to_string(n) + " bytes)"; }
    return s;
}

void expectBytes(Ctx& c, const char* what, const uint8_t* got, const uint8_t* want, size_t n) {
    if (n && memcmp(got, want, n) != 0) {
        size_t i = 0;
        while (got[i] == want[i]) { ++i; }
        size_t from = i >= 4 ? i - 4 : 0, m = std::min<size_t>(n - from, 16);
        c.fail("%s: byte %zu of %zu is %02x, expected %02x (got ..%s, expected ..%s)", what, i, n, got[i], want[i],
               hex(got + from, m).c_str(), hex(want + from, m).c_str());
    }
}

// ---- execution -------------------------------------------------------------------
static volatile uint64_t g_ticks = 0;
static volatile uint64_t g_done = 0;
static volatile uint64_t g_alive = 0;
void alive() { ++g_alive; }
static volatile unsigned g_patience = 0;
void patience(unsigned seconds) {
    g_patience = seconds;
    ++g_alive;
}
static uint64_t g_lastDone = 0, g_stuck = 0;
static unsigned g_hangTicks = 20;
void (*tickHook)() = nullptr;
static void onTick(int) {
    if (tickHook) { tickHook(); }  // before anything that makes a system call, the return included
    ++g_ticks;
    if (g_done + g_alive != g_lastDone) {
        g_lastDone = g_done + g_alive;
        g_stuck = 0;
    } else if (++g_stuck >= g_hangTicks + g_patience) {
        static const char m[] = "FAIL: the case used more than the CPU-time limit (no termination)\n";
        if (g_prog) { memcpy(g_prog->msg, m + 6, sizeof m - 6); }
        ssize_t r = write(2, m, sizeof m - 1);
        (void)r;
        if (g_fuzz) { abort(); }
        _exit(79);
    }
}
static void startTimer() {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onTick;
    sa.sa_flags = SA_RESTART;
#ifndef IM_ASAN
    static uint8_t stack[65536];  // keep the handler off the stack of the code under test
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = stack;
    ss.ss_size = sizeof stack;
    if (sigaltstack(&ss, nullptr) == 0) { sa.sa_flags |= SA_ONSTACK; }
#endif
    sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval t = {{1, 0}, {1, 0}};
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

static uint64_t caseSeed(uint64_t seed, uint64_t idx, uint64_t salt) {
    Rng r;
    r.s = seed * 0xD1342543DE82EF95ull + salt;
    for (const char* p = PROP.id; *p; ++p) { r.s = r.next() ^ (uint64_t)(uint8_t)*p; }
    r.s ^= idx * 0x9E3779B97F4A7C15ull + 0x1234567;
    return r.next();
}

static void exec(Ctx& c) {
    g_ctx = &c;
    arenaReset();
    runCase(c);
    checkGuards(c, "after the case");
    ++g_done;
    g_patience = 0;
}
[[maybe_unused]] static void execRandom(Ctx& c, uint64_t seed, uint64_t idx) {
    c.reset();
    c.random = true;
    c.rng.s = caseSeed(seed, idx, 1);
    g_prog->mode = 1;
    g_prog->idx = idx;
    exec(c);
}
[[maybe_unused]] static void execEnum(Ctx& c, uint64_t seed, uint64_t idx, bool thorough) {
    c.reset();
    c.random = true;
    c.rng.s = caseSeed(seed, idx, 2);
    g_prog->mode = 2;
    g_prog->idx = idx;
    arenaReset();
    enumCase(c, idx, thorough);
    checkGuards(c, "after the case");
    ++g_done;
    g_patience = 0;
}
static void execBytes(Ctx& c, const uint8_t* p, size_t n) {
    c.reset();
    c.random = false;
    c.in = p;
    c.inN = n;
    exec(c);
}

struct Stats {
    uint64_t cases = 0, evals = 0, nontriv = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_map<const void*, uint64_t> fast;
    std::vector<uint64_t> hashes;
    void add(const Ctx& c) {
        ++cases;
        evals += c.evaluations ? c.evaluations : 1;
        if (!c.extra.empty()) {
            nontriv += c.extra.size();
            hashes.insert(hashes.end(), c.extra.begin(), c.extra.end());
        } else if (c.nontriv) {
            ++nontriv;
            hashes.push_back(c.h);
        }
        if (hashes.size() > 4000000) { compact(); }
        for (const char* l : c.labels) { ++fast[(const void*)l]; }
    }
    void compact() {
        std::sort(hashes.begin(), hashes.end());
        hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
    }
    static std::string esc(const std::string& s) {
        std::string o;
        char b[8];
        for (unsigned char ch : s) {
            if (ch == '"' || ch == '\\') {
                o += '\\';
                o += (char)ch;
            } else if (ch < 32 || ch > 126) {
                snprintf(b, sizeof b, "\\u%04x", ch);
                o += b;
            } else {
                o += (char)ch;
            }
        }
        return o;
    }
    void write(const char* path, const std::vector<std::string>& samples) {
        compact();
        for (auto& f : fast) { labels[(const char*)f.first] += f.second; }
        FILE* fp = fopen(path, "w");
        if (!fp) { perror(path); _exit(3); }
        fprintf(fp, "{\"cases\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"labels\":{", (unsigned long long)cases,
                (unsigned long long)evals, (unsigned long long)nontriv, hashes.size());
        bool first = true;
        for (auto& l : labels) {
            fprintf(fp, "%s\"%s\":%llu", first ? "" : ",", esc(l.first).c_str(), (unsigned long long)l.second);
            first = false;
        }
        fprintf(fp, "},\"samples\":[");
        first = true;
        for (auto& s : samples) {
            fprintf(fp, "%s\"%s\"", first ? "" : ",", esc(s).c_str());
            first = false;
        }
        fprintf(fp, "]}\n");
        fclose(fp);
        std::string hp = std::string(path) + ".h";
        fp = fopen(hp.c_str(), "wb");
        if (fp) {
            fwrite(hashes.data(), 8, hashes.size(), fp);
            fclose(fp);
        }
    }
};

[[maybe_unused]] static std::vector<uint8_t> readFile(const char* path) {
    std::vector<uint8_t> v;
    FILE* fp = fopen(path, "rb");
    if (!fp) { perror(path); _exit(3); }
    uint8_t b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, fp)) > 0) { v.insert(v.end(), b, b + n); }
    fclose(fp);
    return v;
}
[[maybe_unused]] static void writeFile(const char* path, const std::vector<uint8_t>& v) {
    FILE* fp = fopen(path, "wb");
    if (!fp) { perror(path); _exit(3); }
    if (!v.empty()) { fwrite(v.data(), 1, v.size(), fp); }
    fclose(fp);
}

#ifndef IM_FUZZ
static double nowWall() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

// does this candidate fail?  run it in a child
static bool failsInChild(const std::vector<uint8_t>& v) {
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 2);
        dup2(dn, 1);
        g_hangTicks = 6;
        startTimer();
        Ctx c;
        execBytes(c, v.data(), v.size());
        _exit(0);
    }
    int st = 0;
    if (pid < 0 || waitpid(pid, &st, 0) < 0) { return false; }
    if (WIFSIGNALED(st)) { return WTERMSIG(st) != SIGKILL; }
    int code = WEXITSTATUS(st);
    return code == 77 || code == 78;
}

static int shrink(const char* inPath, const char* outPath, double budget) {
    std::vector<uint8_t> best = readFile(inPath);
    double end = nowWall() + budget;
    if (!failsInChild(best)) { return 1; }
    auto attempt = [&](const std::vector<uint8_t>& cand) {
        if (nowWall() > end) { return false; }
        if (!failsInChild(cand)) { return false; }
        best = cand;
        return true;
    };
    // truncate
    for (size_t cut = best.size() / 2; cut >= 1 && nowWall() < end; cut /= 2) {
        while (best.size() >= cut) {
            std::vector<uint8_t> cand(best.begin(), best.end() - (long)cut);
            if (!attempt(cand)) { break; }
        }
    }
    bool progress = true;
    while (progress && nowWall() < end) {
        progress = false;
        for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && nowWall() < end; len /= 2) {  // delete blocks
            for (size_t i = 0; i + len <= best.size() && nowWall() < end;) {
                std::vector<uint8_t> cand(best);
                cand.erase(cand.begin() + (long)i, cand.begin() + (long)(i + len));
                if (attempt(cand)) { progress = true; } else { i += len; }
            }
            for (size_t i = 0; i + len <= best.size() && nowWall() < end; i += len) {  // zero blocks
                bool any = false;
                for (size_t j = i; j < i + len; ++j) { any |= best[j] != 0; }
                if (!any) { continue; }
                std::vector<uint8_t> cand(best);
                std::fill(cand.begin() + (long)i, cand.begin() + (long)(i + len), 0);
                if (attempt(cand)) { progress = true; }
            }
        }
        for (size_t i = 0; i < best.size() && nowWall() < end; ++i) {  // lower single bytes
            for (uint8_t nv : {(uint8_t)1, (uint8_t)(best[i] / 2), (uint8_t)(best[i] - 1)}) {
                if (best[i] > nv) {
                    std::vector<uint8_t> cand(best);
                    cand[i] = nv;
                    if (attempt(cand)) { progress = true; break; }
                }
            }
        }
    }
    writeFile(outPath, best);
    return 0;
}

static int mainImpl(int argc, char** argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> o;
    for (int i = 2; i + 1 < argc; i += 2) { o[argv[i]] = argv[i + 1]; }
    auto num = [&](const char* k, uint64_t d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
    uint64_t seed = num("--seed", 1);
    bool thorough = num("--thorough", 0) != 0;
    if (mode == "info") {
        printf("{\"id\":\"%s\",\"rule\":\"%s\",\"quick\":%llu,\"thorough\":%llu,\"fuzz_quick\":%llu,\"fuzz_thorough\":%llu,\"max_len\":%u,\"enum_quick\":%llu,\"enum_thorough\":%llu}\n",
               PROP.id, Stats::esc(PROP.rule).c_str(), (unsigned long long)PROP.quick, (unsigned long long)PROP.thorough,
               (unsigned long long)PROP.fuzzQuick, (unsigned long long)PROP.fuzzThorough, PROP.maxLen,
               (unsigned long long)enumCount(false), (unsigned long long)enumCount(true));
        return 0;
    }
    if (mode == "merge") {  // merge <hash files...>
        std::vector<uint64_t> all;
        for (int i = 2; i < argc; ++i) {
            std::vector<uint8_t> v = readFile(argv[i]);
            size_t n = all.size();
            all.resize(n + v.size() / 8);
            memcpy(all.data() + n, v.data(), v.size() / 8 * 8);
            std::sort(all.begin() + (long)n, all.end());
            std::inplace_merge(all.begin(), all.begin() + (long)n, all.end());
            all.erase(std::unique(all.begin(), all.end()), all.end());
        }
        printf("%zu\n", all.size());
        return 0;
    }
    arenaInit();
    loadConsts();
    mapProgress(o.count("--progress") ? o["--progress"].c_str() : nullptr);
    Ctx c;
    if (mode == "run" || mode == "enum") {
        startTimer();
        uint64_t a = num("--start", 0), b = num("--end", 0), k = num("--stride", 1);
        Stats st;
        std::vector<uint64_t> want;
        std::unordered_set<std::string> seenLabels;
        for (uint64_t i = a; i < b; i += k) {
            if (mode == "run") { execRandom(c, seed, i); } else { execEnum(c, seed, i, thorough); }
            st.add(c);
            g_prog->evals = st.evals;
            if (c.nontriv && want.size() < 4) {
                std::string l;
                for (const char* x : c.labels) { l += x; }
                if (seenLabels.insert(l).second) { want.push_back(i); }
            }
        }
        std::vector<std::string> samples;
        if (num("--samples", 0)) {
            for (uint64_t i : want) {
                c.tracing = true;
                if (mode == "run") { execRandom(c, seed, i); } else { execEnum(c, seed, i, thorough); }
                c.tracing = false;
                std::string l = "case " + std::to_string(i) + ": " + c.trace;
                samples.push_back(l.substr(0, 700));
            }
        }
        if (o.count("--stats")) { st.write(o["--stats"].c_str(), samples); }
        return 0;
    }
    if (mode == "corpus") {  // write the choice bytes of random cases as fuzzing seeds
        startTimer();
        uint64_t n = num("--count", 64), maxn = num("--max", 4096);
        for (uint64_t i = 0; i < n; ++i) {
            execRandom(c, seed ^ 0x5EED, i);
            if (g_prog->recN <= maxn && !g_prog->overflow) {
                writeFile((o["--dir"] + "/s" + std::to_string(i)).c_str(), std::vector<uint8_t>(g_rec, g_rec + g_prog->recN));
            }
        }
        return 0;
    }
    if (mode == "replay") {  // kind bytes|gen|enum|range
        startTimer();
        c.tracing = true;
        g_ctx = &c;
#ifdef IM_ASAN
        __sanitizer_set_death_callback(deathNote);
#else
        for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
            signal(sg, [](int n) { deathNote(); signal(n, SIG_DFL); raise(n); });
        }
#endif
        std::string kind = o["--kind"];
        if (kind == "bytes") {
            std::vector<uint8_t> v = readFile(o["--in"].c_str());
            execBytes(c, v.data(), v.size());
        } else if (kind == "gen") {
            execRandom(c, seed, num("--start", 0));
        } else if (kind == "enum") {
            execEnum(c, seed, num("--start", 0), thorough);
        } else {
            c.tracing = false;
            uint64_t end = num("--end", 0);
            for (uint64_t i = num("--start", 0); i <= end; i += num("--stride", 1)) {
                if (i == end) { c.tracing = true; }
                if (kind == "enumrange") { execEnum(c, seed, i, thorough); } else { execRandom(c, seed, i); }
            }
        }
        printf("held: %s\n", c.trace.c_str());
        return 0;
    }
    if (mode == "shrink") { return shrink(o["--in"].c_str(), o["--out"].c_str(), (double)num("--budget", 20)); }
    fprintf(stderr, "usage\n");
    return 3;
}
#endif

}  // namespace im

#ifdef IM_ASAN
extern "C" const char* __asan_default_options() {
    return "exitcode=78:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:print_summary=1:symbolize=1:allow_user_poisoning=1";
}
#endif

#ifdef IM_FUZZ
static im::Stats* g_fs = nullptr;
static void dumpFuzzStats() {
    const char* p = getenv("IM_FUZZ_STATS");
    if (p && g_fs) { g_fs->write(p, {}); }
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    im::g_fuzz = true;
    im::arenaInit();
    im::mapProgress(nullptr);
    g_fs = new im::Stats();
    atexit(dumpFuzzStats);
    im::startTimer();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t n) {
    static im::Ctx c;
    im::execBytes(c, data, n);
    g_fs->add(c);
    return 0;
}
#else
int main(int argc, char** argv) { return im::mainImpl(argc, argv); }
#endif
