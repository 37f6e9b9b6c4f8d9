// The same calls and histories, encoded as bytes, carried out here and by servers (port/) built otherwise: IM_MACHINES.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include "engine.hpp"
#include "lib.hpp"
#ifndef NULL_PTR
#define NULL_PTR nullptr
#endif
extern "C" {
#include "port/crcs.h"
}
using namespace im;
namespace im {
#include "port/port.h"

struct Machine {
    const char *name, *missing;
    bool tried = false, there = false;
    int to = -1, from = -1;
    pid_t pid = 0;
};
static Machine MACHINES[] = {IM_MACHINES};
enum { MACHINE_COUNT = sizeof MACHINES / sizeof *MACHINES };

static bool sendAll(int f, const uint8_t* p, size_t n) {
    while (n > 0) {
        ssize_t k = write(f, p, n);
        if (k < 0 && errno == EINTR) { continue; }
        if (k <= 0) { return false; }
        p += k;
        n -= (size_t)k;
    }
    return true;
}
static bool getAll(int f, uint8_t* p, size_t n) {
    while (n > 0) {
        pollfd w = {f, POLLIN, 0};
        int e = poll(&w, 1, 100000);
        if (e < 0 && errno == EINTR) { continue; }
        if (e <= 0) { return false; }
        ssize_t k = read(f, p, n);
        if (k < 0 && errno == EINTR) { continue; }
        if (k <= 0) { return false; }
        p += k;
        n -= (size_t)k;
    }
    return true;
}
static bool ask(Machine& m, const std::vector<uint8_t>& q) {
    uint8_t h[4] = {(uint8_t)q.size(), (uint8_t)(q.size() >> 8), (uint8_t)(q.size() >> 16), 0};
    return sendAll(m.to, h, 4) && sendAll(m.to, q.data(), q.size());
}
static bool answer(Machine& m, std::vector<uint8_t>& r) {
    uint8_t h[4];
    if (!getAll(m.from, h, 4)) { return false; }
    r.resize(h[0] | h[1] << 8 | h[2] << 16);
    return getAll(m.from, r.data(), r.size());
}
static void start(Machine& m) {
    const char* d = getenv("IM_PORT");
    std::string f = std::string(d ? d : "/nonexistent") + "/" + m.name;
    m.tried = true;
    if (m.to >= 0) { close(m.to); close(m.from); m.to = m.from = -1; }
    m.there = false;
    if (access(f.c_str(), R_OK) != 0) { return; }
    signal(SIGPIPE, SIG_IGN);
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) != 0 || pipe2(b, O_CLOEXEC) != 0) { return; }
    std::string js = f + ".js", wasm = f;
    const char* native[] = {f.c_str(), nullptr};
    const char* node[] = {"node", js.c_str(), wasm.c_str(), nullptr};
    bool isWasm = !strcmp(m.name, "wasm32");
    m.pid = fork();
    if (m.pid == 0) {
        dup2(a[0], 0);
        dup2(b[1], 1);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2);
        if (isWasm) { execvp("node", (char**)node); } else { execv(f.c_str(), (char**)native); }
        _exit(127);
    }
    close(a[0]);
    close(b[1]);
    m.to = a[1];
    m.from = b[0];
    std::vector<uint8_t> r;
    m.there = m.pid > 0 && ask(m, {11}) && answer(m, r) && !r.empty();
}

static std::vector<uint8_t> g_q;
static void p8(uint32_t v) { g_q.push_back((uint8_t)v); }
static void p16(uint32_t v) { p8(v); p8(v >> 8); }
static void p32(uint32_t v) { p16(v); p16(v >> 16); }
static void pbytes(const uint8_t* p, size_t n) { g_q.insert(g_q.end(), p, p + n); }
static void ptext(Ctx& c, const std::vector<uint8_t>& s) { p16((uint32_t)s.size()); p8(c.byte()); pbytes(s.data(), s.size()); }  // length, address, content
static std::vector<uint8_t> bytes(Ctx& c, size_t n) { std::vector<uint8_t> v(n); if (n) { c.fill(v.data(), n); } return v; }
static std::vector<uint8_t> from(Ctx& c, size_t n, const char* set, size_t k) {
    std::vector<uint8_t> v(n);
    for (auto& x : v) { x = c.chance(1, 24) ? c.byte() : (uint8_t)set[c.below(k)]; }
    return v;
}
static std::vector<uint8_t> word(Ctx& c, size_t n) { return from(c, n, "ab\\ c\"\xe9:", 8); }
static size_t cap(Ctx& c, size_t need) { return c.chance(3, 4) ? need + c.below(4) : c.below(need + 2); }

static unsigned capacity(Ctx& c) { return (unsigned)c.below(c.chance(1, 2) ? 10 : 64); }

static void request(Ctx& c, unsigned kind, size_t n) {
    static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_.,";
    static const char JSON[] = "{}\"\"\"\"::,,ab k\t\n\r\\[]1\xe9";
    g_q.clear();
    p8(kind);
    switch (kind) {
        case 0: { ptext(c, bytes(c, n)); p16((uint32_t)cap(c, n / 3 * 4 + 5)); p8(c.byte()); break; }
        case 1: { ptext(c, c.chance(3, 4) ? from(c, n, B64, sizeof B64 - 1) : bytes(c, n)); p16((uint32_t)cap(c, n / 4 * 3 + 3)); p8(c.byte()); break; }
        case 2: { ptext(c, bytes(c, n)); p8((uint32_t)c.below(45)); p8(c.byte()); p32(c.u32()); break; }
        case 3: case 4: case 5: { ptext(c, bytes(c, n)); p32(c.u32()); p32(c.u32()); p32(c.u32()); p8(c.byte()); break; }
        case 6: {
            p8(c.byte());
            p8(c.byte());
            auto k = bytes(c, 44);
            pbytes(k.data(), 44);
            p32(c.u32());
            ptext(c, bytes(c, n));
            p8(c.byte());
            break;
        }
        case 7: { p8(c.byte()); p8(c.byte()); ptext(c, c.chance(1, 2) ? from(c, n, "azAZmM .{[@`", 12) : bytes(c, n)); break; }
        case 8: { p8(c.byte()); ptext(c, from(c, n, "azAZmM .{[@`", 12)); ptext(c, from(c, c.chance(1, 16) ? c.below(n + 2) : n, "azAZmMbY", 8)); break; }
        case 9: {
            size_t k = c.chance(1, 3) ? 10 : c.below(14);
            auto s = from(c, k, "0123456789", 10);
            if (k == 10 && c.chance(2, 3)) { memcpy(s.data(), "4294967295", 10); size_t cut = c.below(10); for (size_t i = cut; i < 10; ++i) { s[i] = (uint8_t)('0' + c.below(10)); } }
            ptext(c, s);
            break;
        }
        case 10: { p32(c.u32()); ptext(c, bytes(c, n)); for (int i = 0; i < 16; ++i) { p8(c.byte()); } break; }
        case 11: { p32(c.u32()); p8(c.chance(1, 4) ? c.byte() : (uint32_t)c.below(34)); p32(c.u32()); break; }
        case 12: {
            p16((uint32_t)(c.chance(1, 4) ? c.below(40) : n + 40));
            p8(c.byte());
            unsigned k = 1 + (unsigned)c.below(8);
            p8(k);
            for (unsigned i = 0; i < k; ++i) { ptext(c, word(c, c.below(8))); ptext(c, word(c, c.below(2 + n / 8))); }
            p8(3);
            for (unsigned i = 0; i < 3; ++i) { ptext(c, word(c, c.below(4))); p16((uint32_t)c.below(20)); p8(c.byte()); }
            break;
        }
        case 13: {
            std::vector<uint8_t> k = word(c, c.below(4)), t;
            while (t.size() < n) {
                if (c.chance(1, 4)) { t.push_back('"'); t.insert(t.end(), k.begin(), k.end()); t.push_back('"'); t.push_back(':'); t.push_back('"'); t.push_back('v'); t.push_back('"'); }
                else { t.push_back((uint8_t)JSON[c.below(sizeof JSON - 1)]); }
            }
            ptext(c, t);
            ptext(c, k);
            p16((uint32_t)c.below(12));
            p8(c.byte());
            break;
        }
        case 14: { p8(c.byte()); p8((uint32_t)c.below(c.chance(1, 2) ? 8 : 64)); p8(c.byte()); ptext(c, bytes(c, std::min<size_t>(n, 2000))); break; }
        case 15: {
            unsigned cap = capacity(c);
            p8(cap);
            p8((uint32_t)c.below(c.chance(1, 2) ? 9 : 64));
            p8(c.byte());
            p8(c.byte());
            unsigned first = c.chance(1, 2) ? (unsigned)c.below(cap + 3) : 0;
            for (unsigned i = 0; i < first; ++i) { p8(c.byte() & 0xF8u); }
            for (size_t i = 0, m = std::min<size_t>(n, 60); i < m; ++i) { p8(c.byte()); }
            break;
        }
        case 16: {
            unsigned cap = capacity(c);
            p8(cap);
            p8((uint32_t)c.below(c.chance(1, 2) ? 9 : 64));
            p8(c.byte());
            p8(c.byte());
            unsigned first = c.chance(1, 2) ? (unsigned)c.below(cap + 3) : 0;
            for (size_t i = 0, m = first + std::min<size_t>(n, 60); i < m; ++i) {
                uint8_t o = c.byte();
                if (i < first) { o &= 0xFC; }
                p8(o);
                if ((o & 3) < 2 && (o & 4)) { p32(c.u32()); }
            }
            break;
        }
        default: {
            unsigned cap = capacity(c), different = cap + 1 + (unsigned)c.below(4);
            p8(cap);
            p8((uint32_t)c.below(c.chance(1, 2) ? 9 : 64));
            p8((uint32_t)c.below(c.chance(1, 2) ? 9 : 64));
            p8(c.chance(1, 2) ? (uint32_t)c.below(9) : (uint32_t)c.below(40));
            p8(c.byte());
            p8(c.byte());
            p8(c.byte());
            unsigned first = c.chance(1, 2) ? (unsigned)c.below(cap + 3) : 0, style = (unsigned)c.below(5), base = c.byte(), task = c.chance(1, 4) ? 5 : 0;
            for (size_t i = 0, m = first + std::min<size_t>(n, 60); i < m; ++i) {
                uint32_t o = c.byte();
                if (style < 4) { o = (o & ~24u) | style << 3; }
                if (i < first) { o = (o & ~7u) | task; }
                p8(o);
                if ((o & 7) < 5) { p8(i < first ? base + (uint32_t)i : base + (uint32_t)c.below(different)); }
            }
            break;
        }
    }
}
static void compare(Ctx& c, unsigned kind) {
    static uint8_t outbuf[PORT_MAX];
    uint32_t n = port(g_q.data(), (uint32_t)g_q.size(), outbuf);
    std::vector<uint8_t> r;
    NOTE(c, "%s, request of %zu bytes: %s", PORT_NAMES[kind], g_q.size(), hex(g_q.data(), g_q.size(), 96).c_str());
    bool asked[MACHINE_COUNT] = {};
    for (int i = 0; i < MACHINE_COUNT; ++i) {
        Machine& m = MACHINES[i];
        if (!m.tried) { start(m); }
        c.label(m.there ? m.name : m.missing);
        asked[i] = m.there && ask(m, g_q);
    }
    for (int i = 0; i < MACHINE_COUNT; ++i) {
        Machine& m = MACHINES[i];
        if (!m.there) { continue; }
        if (!asked[i] || !answer(m, r)) {
            start(m);  // once more, alone
            if (!m.there) { continue; }
            if (!ask(m, g_q) || !answer(m, r)) { m.tried = false; c.fail("%s on %s: the program ended or gave no answer in 100 s", PORT_NAMES[kind], m.name); }
        }
        size_t at = 0;
        while (at < r.size() && at < n && r[at] == outbuf[at]) { ++at; }
        if (at < r.size() || at < n) {
            for (int k = i + 1; k < MACHINE_COUNT; ++k) { MACHINES[k].tried = false; }
            c.fail("%s on %s: byte %zu of the results (%zu bytes) differs: %s, here (%u bytes) %s", PORT_NAMES[kind], m.name, at, r.size(), hex(r.data() + std::min(at, r.size()), r.size() - std::min(at, r.size()), 16).c_str(), n,
                   hex(outbuf + std::min<size_t>(at, n), n - std::min<size_t>(at, n), 16).c_str());
        }
    }
}
void runCase(Ctx& c) {
    unsigned kind = (unsigned)c.below(PORT_KINDS);
    size_t n = c.chance(1, 24) ? 300 + c.size(4700) : c.size(300);
    c.label(PORT_NAMES[kind]);
    request(c, kind, n);
    if (g_q.size() >= 12) { c.nontrivial(); }
    compare(c, kind);
    c.evals(1);
}
uint64_t enumCount(bool thorough) { return PORT_KINDS * (thorough ? 8 : 2); }
void enumCase(Ctx& c, uint64_t i, bool) {
    c.label("enum:data of 0 to 130 bytes");
    unsigned kind = (unsigned)(i % PORT_KINDS), r = 0;
    for (size_t n = 0; n <= 130; ++n) {
        request(c, kind, n);
        if (kind == 2) { g_q[4 + n] = (uint8_t)(n % 45); }
        if (kind == 10) { g_q[1] = (uint8_t)(2 * n + i / PORT_KINDS); }
        compare(c, kind);
        c.distinctKey(i << 8 | r);
        ++r;
    }
    c.evals(r);
}
}  // namespace im
