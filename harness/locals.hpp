// Local variables of the library that nobody has written: in the build with -fsanitize=kernel-memory (see check.py)
// the compiler reports every local coming into being, and asks here, at every load and store, where the "not written"
// bits of those bytes are kept. It propagates them through arithmetic, and reports where a decision, an address or an
// argument depends on them. Here they are kept for the stack only; of the rest touch.hpp keeps track per byte.
#pragma once
#include <sys/mman.h>
namespace im {
static const uintptr_t SPAN = 64u << 20;  // of the stack
static uintptr_t stackTop() {
    static uintptr_t top = 0;
    if (!top) {
        FILE* f = fopen("/proc/self/maps", "r");
        uintptr_t here = (uintptr_t)__builtin_frame_address(0);
        unsigned long lo, hi;
        char line[512];
        while (f && fgets(line, sizeof line, f)) {
            if (sscanf(line, "%lx-%lx", &lo, &hi) == 2 && lo <= here && here < hi) { top = hi; }
        }
        if (f) { fclose(f); }
    }
    return top;
}
static uint8_t* g_bits = nullptr;            // of the SPAN bytes below stackTop()
static uintptr_t g_lowest = ~(uintptr_t)0, g_highest = 0;  // where there may be some
static bool ours(uintptr_t a, size_t n) { return g_bits && a + n <= stackTop() && a >= stackTop() - SPAN; }
static uint8_t* bits(uintptr_t a) { return g_bits + (a - (stackTop() - SPAN)); }
static struct { uint8_t state[4096]; } g_tls;     // of arguments and results on their way
alignas(64) static uint8_t g_none[1 << 16], g_origin[1 << 16];
static size_t g_stored = 0;                  // bytes of the last store to other memory whose bits are in g_none
static uintptr_t g_storedAt = 0;

static void localsBegin() {
    uintptr_t here = g_frame;  // the harness may have locals of its own below
    if (g_lowest < g_highest && g_lowest < here) {
        memset(bits(g_lowest), 0, std::min(g_highest, here) - g_lowest);
        g_lowest = here;  // above are those of calls under way, or of earlier calls from there
    }
    if (g_lowest >= g_highest) {
        g_lowest = ~(uintptr_t)0;
        g_highest = 0;
    }
    memset(&g_tls, 0, sizeof g_tls);
}
static void localBad(const char* what) { bad(what, 0, 1, 0); }
// a value that no byte of was written, stored in memory of the caller
static void localsStored() {
    if (!g_stored) { return; }
    size_t n = g_stored, k = 0;
    g_stored = 0;
    while (k < n && g_none[k] == 0xFF) { ++k; }
    if (k == n) { localBad("hands out"); }
    memset(g_none, 0, n);
}
static void localsEnd() {
    localsStored();
    if (g_tls.state[800]) { localBad("returns"); }  // the bits of what the last function returned
}
static void localPoison(uintptr_t a, size_t n) {
    if (!g_bits) {
        void* p = mmap(nullptr, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { return; }
        g_bits = (uint8_t*)p;
    }
    if (!g_in || !ours(a, n)) { return; }
    memset(bits(a), 0xFF, n);
    g_lowest = std::min(g_lowest, a);
    g_highest = std::max(g_highest, a + n);
}
static void localWritten(uintptr_t a, size_t n) {
    if (g_in && ours(a, n)) { memset(bits(a), 0, n); }
}
static void localRead(uintptr_t a, size_t n) {
    if (g_in && ours(a, n) && a < g_frame && memchr(bits(a), 0xFF, n)) { localBad("reads"); }
}
static void localCopied(uintptr_t d, uintptr_t s, size_t n) {
    if (!g_in || !ours(d, n)) { return; }
    if (ours(s, n) && s < g_frame) {
        memmove(bits(d), bits(s), n);
        g_lowest = std::min(g_lowest, d);
        g_highest = std::max(g_highest, d + n);
    } else {
        memset(bits(d), 0, n);
    }
}
struct Where { void *bits, *origin; };
static Where toLoad(uintptr_t a, size_t n) {
    localsStored();
    if (g_in) {
        if (ours(a, n) && a < g_frame) { return {bits(a), g_origin}; }
        readAt(a, n, 0);
    }
    return {g_none, g_origin};
}
static Where toStore(uintptr_t a, size_t n) {
    localsStored();
    if (g_in) {
        if (ours(a, n) && a < g_frame) { return {bits(a), g_origin}; }
        writeAt(a, n, 0);
        if (n <= 8) { g_stored = n; }
    }
    return {n <= 8 ? g_none : g_origin, g_origin};
}
}  // namespace im
extern "C" {
#define IM_META(n) \
    im::Where __msan_metadata_ptr_for_load_##n(void* p) { return im::toLoad((uintptr_t)p, n); } \
    im::Where __msan_metadata_ptr_for_store_##n(void* p) { return im::toStore((uintptr_t)p, n); }
IM_META(1)
IM_META(2)
IM_META(4)
IM_META(8)
im::Where __msan_metadata_ptr_for_load_n(void* p, uint64_t n) { return im::toLoad((uintptr_t)p, n); }
im::Where __msan_metadata_ptr_for_store_n(void* p, uint64_t n) { return im::toStore((uintptr_t)p, n); }
void* __msan_get_context_state() { return &im::g_tls; }
void __msan_poison_alloca(void* p, uint64_t n, const char*) { im::localPoison((uintptr_t)p, n); }
void __msan_unpoison_alloca(void*, uint64_t) {}
uint32_t __msan_chain_origin(uint32_t o) { return o; }
void __msan_warning(uint32_t) { if (im::g_in) { im::localBad("decides by"); } }
void __msan_instrument_asm_store(void* p, uint64_t n) { im::localWritten((uintptr_t)p, n); }
void* __msan_memcpy(void* d, const void* s, uint64_t n) { IM_COPY(d, s, n); return memmove(d, s, n); }
void* __msan_memmove(void* d, const void* s, uint64_t n) { IM_COPY(d, s, n); return memmove(d, s, n); }
void* __msan_memset(void* d, int v, uint64_t n) { IM_WRITE(d, n); return memset(d, v, n); }
}
