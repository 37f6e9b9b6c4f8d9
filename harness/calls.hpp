// One call (or a few) of any function of the library, with arguments of about a given size.  The harness that
// includes this defines  template <class F> void call(Ctx&, const char* name, F f)  first, and void start();
// with IM_TOUCH also give, take, known, unknown and effort, which say what the next calls may read and write.
#pragma once
#include "crcvars.hpp"
#include "engine.hpp"
namespace im {
#ifndef IM_MANY
#define IM_MANY 0
#endif
#ifndef IM_TOUCH
static void give(const void*, size_t) {}        // may be read
static void take(void*, size_t) {}              // may be written, holds nothing yet
static void known(const void*, size_t) {}       // holds something: may be read
static void unknown(const void*, size_t) {}     // holds nothing
static void effort(uint64_t) {}                 // bytes, elements or comparisons the next call has to go through
#endif
static void give(const Buf& b) { give(b.p, b.n); }
static void take(const Buf& b) { take(b.p, b.n); }
static void change(void* p, size_t n) { take(p, n); known(p, n); }
static void change(const Buf& b) { change(b.p, b.n); }
static bool byFirst(void* a, void* b) { return *(uint8_t*)a > *(uint8_t*)b; }
static bool byTwo(void* a, void* b) { uint16_t x, y; memcpy(&x, a, 2); memcpy(&y, b, 2); return x > y; }
static void task() {}
#ifndef IM_TOUCH
template <class F> static void quiet(F f) { f(); }  // a call that is not judged, but whose effect on memory counts
#endif

static const unsigned KINDS = 30;
static const char* const NAMES[KINDS] = {"Base64_encode", "Base64_decode", "a named CRC", "a CRC engine", "a CRC table calculator", "Caesar cipher", "Vernam cipher", "Chacha20_crypt", "Utils_stringToUint32",
    "Json_findByKey", "Json_addData", "BubbleSort_sort", "HeapSort_sort", "InsertionSort_sort", "SelectionSort_sort", "a queue operation", "a priority queue operation", "a map operation",
    "a scheduler operation", "a blob operation", "Utils_swapElements", "a fixed-width conversion", "a bit operation", "a character predicate", "Json_startString or endString", "an initialisation",
    "a queue in use", "a priority queue in use", "a map in use", "a task table in use"};
static void text(Buf& b, size_t n) {  // no NUL before n - 1
    for (size_t i = 0; i < n; ++i) { if (!b[i] || b[i] == '"') { b[i] = 'x'; } }
    b[n - 1] = 0;
}
static std::string word(Ctx& c, size_t n, char usual) {  // neither NUL nor quote
    std::string t(n, usual);
    if (n && c.flag()) {
        c.fill((uint8_t*)&t[0], n);
        for (auto& x : t) { if (!x || x == '"') { x = usual; } }
    }
    return t;
}
static uint32_t priority(uint32_t style, uint32_t w) {
    static const uint32_t EDGES[5] = {0, UINT32_MAX, 0x80000000u, 0x7FFFFFFFu, 1};
    switch (style) {
        case 0: return w;
        case 1: return UINT32_MAX;  // all the same
        case 2: return EDGES[w % 5];
        case 3: return w * 0x9E3779B1u;
        default: return 0;
    }
}
// histories of drawn operations, on containers of up to about n bytes
static void inUse(Ctx& c, unsigned kind, size_t n) {
    const char* N = NAMES[26 + kind];
    size_t es = 1 + c.size(std::min<size_t>(n, 80)), ks = 1 + c.size(std::min<size_t>(n, 20)), cap = 1 + (c.chance(1, 4) ? c.below(n / es + 1) : c.below(8)), steps = 1 + c.below(50);
    Buf obj(c, std::max({sizeof(Queue_t), sizeof(PriorityQueue_t), sizeof(Map_t)}), 0), st(c, es * cap), e(c, es), out(c, es), ar(c, 4 * cap, 0), kst(c, ks * cap), k(c, ks), t(c, (cap + 1) * sizeof(SchedulerTask_t), 0);
    PriorityQueueItem_t items = {(uint32_t*)ar.p, st.p}, it;
    uint32_t prio = 0, cnt = (uint32_t)cap, style = (uint32_t)c.below(4);
    it.element = e.p;
    it.priority = &prio;
    c.fill(e.p, es);
    c.fill(k.p, ks);
    take(obj);
    take(st);
    take(ar);
    take(kst);
    take(t);
    give(e);
    give(k);
    give(&items, sizeof items);
    give(&it, sizeof it);
    give(&prio, sizeof prio);
    Queue_t* q = (Queue_t*)obj.p;
    PriorityQueue_t* p = (PriorityQueue_t*)obj.p;
    Map_t* m = (Map_t*)obj.p;
    SchedulerTask_t* tab = (SchedulerTask_t*)t.p;
    effort(kind == 0 ? 3 * es : kind == 1 ? cap * (es + 8) : kind == 2 ? cap * (ks + 8) + es : cap * sizeof(SchedulerTask_t));
    auto init = [&] {
        switch (kind) {
            case 0: call(c, N, [&] { Queue_init(q, (uint32_t)cap, (uint32_t)es, st.p); }); break;
            case 1: call(c, N, [&] { PriorityQueue_init(p, (uint32_t)cap, (uint32_t)es, &items); }); break;
            case 2: call(c, N, [&] { Map_init(m, kst.p, st.p, (int32_t)ks, (int32_t)es, (int32_t)cap); }); break;
            default: call(c, N, [&] { Scheduler_init(tab, cnt); });
        }
    };
    init();
    for (size_t i = 0; i < steps; ++i) {
        uint32_t w = c.byte();
        take(out);
        if (w == 255) {
            unknown(obj.p, obj.n);
            unknown(st.p, st.n);
            unknown(ar.p, ar.n);
            unknown(kst.p, kst.n);
            unknown(t.p, t.n);
            init();
            continue;
        }
        unsigned op = w % 16;
        w /= 16;
        NOTE(c, "operation %u", op);
        e[0] = (uint8_t)i;
        switch (kind) {
            case 0:
                call(c, N, [&] {
                    if (op < 6) { Queue_enqueue(q, op == 5 ? nullptr : e.p); } else if (op < 11) { Queue_dequeue(q, op == 6 ? nullptr : out.p); } else if (op == 11) { Queue_front(q, out.p); } else if (op < 14) { Queue_rear(q, out.p); } else if (op == 14) { Queue_full(q); } else { Queue_empty(q); }
                });
                break;
            case 1:
                prio = priority(style, (uint32_t)w);
                call(c, N, [&] {
                    if (op < 9) { PriorityQueue_enqueue(p, &it); } else if (op < 14) { PriorityQueue_dequeue(p, out.p); } else { PriorityQueue_empty(p); }
                });
                break;
            case 2:
                k[c.below(ks)] = (uint8_t)w;
                call(c, N, [&] {
                    if (op < 9) { Map_insert(m, k.p, e.p); } else { Map_getValue(m, k.p, out.p); }
                });
                break;
            default: {
                SchedulerTask_t x;
                x.function = task;
                x.active = w % 2;
                give(&x, sizeof x);
                if (op == 13) { tab[w % cnt].active = !tab[w % cnt].active; }
                if (op == 12) { tab[w % cnt].function = nullptr; tab[w % cnt].active = false; }
                call(c, N, [&] {
                    if (op < 8) { Scheduler_addTask(tab, cnt, &x); } else { Scheduler_run(tab, cnt); }
                });
            }
        }
    }
    checkGuards(c, N);
}
static void one(Ctx& c, unsigned kind, size_t n) {
    start();
    effort(0);
    const char* N = NAMES[kind];
    c.label(N);
    NOTE(c, "%s, size %zu", N, n);
    if (n >= 300) { c.nontrivial(); }
    if (kind >= 26) {
        inUse(c, kind - 26, n);
        return;
    }
    bool f = c.flag(), g = c.flag();
    uint32_t w = c.u32();
    switch (kind) {
        case 0: {
            Buf in(c, n), out(c, g ? (n + 2) / 3 * 4 + 1 + (c.chance(1, 4) ? c.size(200) : 0) : c.size(n));
            c.fill(in.p, n);
            give(in);
            take(out);
            effort(n);
            call(c, N, [&] { Base64_encode(in.c_str(), in.n, out.c_str(), out.n); });
            break;
        }
        case 1: {
            Buf in(c, n), out(c, g ? n + (c.chance(1, 4) ? c.size(200) : 0) : c.size(n));
            c.fill(in.p, n);
            if (f) { for (size_t i = 0; i < n; ++i) { in[i] = (uint8_t)"ABCxyz019+/-_"[in[i] % 13]; } }
            give(in);
            take(out);
            effort(n);
            call(c, N, [&] { Base64_decode(in.c_str(), in.n, out.p, out.n); });
            break;
        }
        case 2: {
            Buf in(c, n);
            c.fill(in.p, n);
            size_t v = c.below(NCRC);
            uint32_t last = w & ref::mask(CRCS[v].spec.width);
            give(in);
            give(&last, g ? 4 : 0);
            effort(n);
            call(c, CRCS[v].name, [&] { CRCS[v].call(in.p, (uint32_t)in.n, f, g ? &last : nullptr); });
            break;
        }
        case 3: {
            Buf in(c, n), tab(c, 1024, 0);
            c.fill(in.p, n);
            c.fill(tab.p, tab.n);
            bool h = c.flag();
            give(in);
            give(tab);
            effort(n);
            switch (c.below(3)) {
                case 0: call(c, N, [&] { Crc8Base(tab.p, in.p, (uint32_t)n, (uint8_t)w, (uint8_t)(w >> 8), f, g, h); }); break;
                case 1: call(c, N, [&] { Crc16Base((uint16_t*)tab.p, in.p, (uint32_t)n, (uint16_t)w, (uint16_t)(w >> 16), f, g, h); }); break;
                default: call(c, N, [&] { Crc32Base((uint32_t*)tab.p, in.p, (uint32_t)n, w, ~w, f, g, h); });
            }
            break;
        }
        case 4: {
            unsigned width = (unsigned)c.below(3);
            Buf tab(c, (size_t)256 << width, 0);
            take(tab);
            effort(256);
            switch (width) {
                case 0: call(c, N, [&] { Crc8Base_tableCalculator((uint8_t)w, tab.p); }); break;
                case 1: call(c, N, [&] { Crc16Base_tableCalculator((uint16_t)w, (uint16_t*)tab.p); }); break;
                default: call(c, N, [&] { Crc32Base_tableCalculator(w, (uint32_t*)tab.p); });
            }
            break;
        }
        case 5: {
            Buf m(c, n + 1);
            c.fill(m.p, m.n);
            text(m, m.n);
            change(m);
            effort(n);
            call(c, N, [&] { if (f) { CaesarCipher_encrypt(m.c_str(), (uint8_t)w); } else { CaesarCipher_decrypt(m.c_str(), (uint8_t)w); } });
            break;
        }
        case 6: {
            Buf m(c, n + 1), k(c, n + c.below(3));
            c.fill(m.p, m.n);
            text(m, m.n);
            c.fill(k.p, k.n);
            change(m);
            give(k);
            effort(n);
            call(c, N, [&] { if (f) { VernamCipher_encrypt(m.c_str(), k.c_str(), (int32_t)k.n); } else { VernamCipher_decrypt(m.c_str(), k.c_str(), (int32_t)k.n); } });
            break;
        }
        case 7: {
            Buf in(c, n), out(c, n), k(c, 32), nonce(c, 12);
            c.fill(in.p, n);
            c.fill(k.p, 32);
            c.fill(nonce.p, 12);
            give(in);
            give(k);
            give(nonce);
            take(out);
            effort(n);
            call(c, N, [&] { Chacha20_crypt(in.p, (uint32_t)n, k.p, nonce.p, w, out.p); });
            break;
        }
        case 8: {
            Buf s(c, 1 + n % 255);
            for (size_t i = 0; i < s.n; ++i) { s[i] = (uint8_t)('0' + c.below(f ? 10 : 12)); }
            uint32_t v = 0;
            give(s);
            take(&v, sizeof v);
            effort(s.n);
            call(c, N, [&] { Utils_stringToUint32(s.c_str(), (uint8_t)s.n, &v); });
            break;
        }
        case 9: {
            size_t some = c.chance(1, 3) ? c.size(40) : f ? 1 + n / 3 : 1 + n % 9;
            std::string k = word(c, c.chance(1, 4) ? c.size(20) : some, 'k'), v = word(c, c.chance(1, 4) ? c.size(60) : some, 'v'), t = "{";
            static const char* const UNITS[] = {"\"a\" : \"bc\" ,", "\"", "\" ", " ", "\"k\"", "\"\":", ":", "{", "\"kk\" : "};
            std::string u = UNITS[c.below(9)];
            if (c.chance(1, 3)) { u = "\"" + k.substr(k.empty() ? 0 : 1) + (c.flag() ? "x\":\"" : "\",\"") + k + "\","; }
            bool mixed = n < 5000 && c.chance(1, 3);
            while (t.size() < n) {
                if (mixed) { u = UNITS[c.below(9)]; }
                t += u;
                if (g) { t += std::string(c.below(50), ' '); }
            }
            t += "\"" + (c.flag() ? k : k + 'x') + "\":\"" + v + "\"}";
            Buf text(c, t.data(), t.size()), key(c, k.c_str(), k.size() + 1), out(c, v.size() + 1 - (c.chance(1, 4) ? 1 : 0) + (c.chance(1, 4) ? c.size(60) : 0));
            give(text);
            give(key);
            take(out);
            if (t.size() > 4 && c.chance(1, 4)) {  // the text ends before its memory does
                size_t end = c.size(t.size() - 1);
                text[end] = 0;
                unknown(text.p + end + 1, text.n - end - 1);
            }
            effort(text.n + key.n + out.n);
            call(c, N, [&] { Json_findByKey(text.c_str(), text.n, key.c_str(), out.c_str(), out.n); });
            break;
        }
        case 10: {
            std::string k = word(c, c.size(n), 'k'), v = word(c, c.size(n), 'v');
            Buf t(c, g ? 30 + k.size() + v.size() : c.sizeRange(3, n + 3)), key(c, k.c_str(), k.size() + 1), val(c, v.c_str(), v.size() + 1);
            strcpy(t.c_str(), "{");
            take(t);
            known(t.p, 2);
            give(key);
            give(val);
            for (int i = 0; i < 3; ++i) {
                effort(strlen(t.c_str()) + key.n + val.n);
                call(c, N, [&] { Json_addData(t.c_str(), t.n, key.c_str(), val.c_str()); });
            }
            break;
        }
        case 11: case 12: case 13: case 14: {
            size_t es = kind == 13 ? 2 + w % 63 : f ? 2 + w % 7 : 2 + c.size(n), cnt = f || kind == 13 ? n : 2 + w % 6;
            if (kind != 12 && cnt > 400) { cnt = 400; }
            Buf a(c, cnt * es);
            if (a.n) { if (g) { c.fill(a.p, a.n); } else { for (size_t i = 0; i < cnt; ++i) { a[i * es] = (uint8_t)i; a[i * es + 1] = (uint8_t)(i >> 8); } } }
            auto cmp = f ? byTwo : byFirst;
            int32_t e = (int32_t)cnt, s = (int32_t)es;
            change(a);
            uint64_t log = 1;
            while (cnt >> log) { ++log; }
            effort((kind == 12 ? 4 * log : cnt) * cnt * (uint64_t)es);
            if (kind == 11) { call(c, N, [&] { BubbleSort_sort(a.p, e, s, cmp); }); }
            if (kind == 12) { call(c, N, [&] { HeapSort_sort(a.p, e, s, cmp); }); }
            if (kind == 13) { call(c, N, [&] { InsertionSort_sort(a.p, e, s, cmp); }); }
            if (kind == 14) { call(c, N, [&] { SelectionSort_sort(a.p, e, s, cmp); }); }
            break;
        }
        case 15: {
            size_t es = f ? 1 + n : 1 + n % 17, cap = f ? 1 + w % 4 : 1 + n;
            Buf obj(c, sizeof(Queue_t), 0), st(c, es * cap), e(c, es), out(c, es);
            Queue_t* q = (Queue_t*)obj.p;
            c.fill(e.p, es);
            take(obj);
            take(st);
            give(e);
            call(c, N, [&] { Queue_init(q, (uint32_t)cap, (uint32_t)es, st.p); });
            effort(3 * es);
            for (size_t i = 0, m = std::min<size_t>(cap + 2, IM_MANY ? 20000 : 12); i < m; ++i) { call(c, N, [&] { Queue_enqueue(q, e.p); Queue_full(q); Queue_empty(q); }); }
            effort(3 * es);
            for (int i = 0; i < 3; ++i) { take(out); call(c, N, [&] { Queue_front(q, out.p); Queue_rear(q, out.p); Queue_dequeue(q, out.p); }); }
            break;
        }
        case 16: {
            size_t es = f ? 1 + n : 1 + n % 17, cap = f ? 1 + w % 4 : 1 + n;
            Buf obj(c, sizeof(PriorityQueue_t), 0), ar(c, sizeof(uint32_t) * cap, 0), st(c, es * cap), e(c, es), out(c, es);
            PriorityQueue_t* q = (PriorityQueue_t*)obj.p;
            c.fill(e.p, es);
            PriorityQueueItem_t items = {(uint32_t*)ar.p, st.p}, it;
            uint32_t prio = 0, style = (uint32_t)c.below(5);
            take(obj);
            take(st);
            take(ar);
            give(e);
            give(&items, sizeof items);
            give(&it, sizeof it);
            give(&prio, sizeof prio);
            call(c, N, [&] { PriorityQueue_init(q, (uint32_t)cap, (uint32_t)es, &items); });
            it.element = e.p;
            it.priority = &prio;
            for (size_t i = 0, m = std::min<size_t>(cap + 2, IM_MANY ? 20000 : 400); i < m; ++i) {
                prio = priority(style, (uint32_t)(i * 7 % 5));
                effort((i + 1) * (es + 8));
                if (i < 6 || i + 6 > m) { call(c, N, [&] { PriorityQueue_enqueue(q, &it); PriorityQueue_empty(q); }); } else { quiet([&] { PriorityQueue_enqueue(q, &it); }); }
            }
            for (int i = 0; i < 3; ++i) { take(out); call(c, N, [&] { PriorityQueue_dequeue(q, out.p); }); }
            break;
        }
        case 17: {
            size_t ks = f ? 2 + n : 2 + n % 17, vs = g ? 1 + n : 1 + n % 17, cap = f || g ? 1 + w % 4 : 1 + n % 5000;
            Buf obj(c, sizeof(Map_t), 0), kst(c, ks * cap), vst(c, vs * cap), k(c, ks), v(c, vs), out(c, vs);
            Map_t* m = (Map_t*)obj.p;
            c.fill(k.p, ks);
            c.fill(v.p, vs);
            take(obj);
            take(kst);
            take(vst);
            give(k);
            give(v);
            call(c, N, [&] { Map_init(m, kst.p, vst.p, (int32_t)ks, (int32_t)vs, (int32_t)cap); });
            size_t steps = std::min<size_t>(cap + 2, IM_MANY && (w & 7) == 0 ? 6000 : 400);
            for (size_t i = 0; i < steps; ++i) {
                k[0] = (uint8_t)i;
                k[1] = (uint8_t)(i >> 8);
                if (i < 6 || i + 6 > steps) { effort((i + 1) * (ks + 8) + vs); call(c, N, [&] { Map_insert(m, k.p, v.p); }); } else { quiet([&] { Map_insert(m, k.p, v.p); }); }
            }
            for (int i = 0; i < 3; ++i) { k[0] = c.byte(); take(out); effort((steps + 1) * (ks + 8) + vs); call(c, N, [&] { Map_getValue(m, k.p, out.p); }); }
            break;
        }
        case 18: {
            uint32_t cnt = (uint32_t)n;
            Buf t(c, cnt * sizeof(SchedulerTask_t), 0);
            SchedulerTask_t* tab = (SchedulerTask_t*)t.p;
            SchedulerTask_t x;
            x.function = task;
            x.active = f;
            take(t);
            give(&x, sizeof x);
            effort(cnt * sizeof x);
            call(c, N, [&] { Scheduler_init(tab, cnt); });
            for (int i = 0; i < 3; ++i) { call(c, N, [&] { Scheduler_addTask(tab, cnt, &x); }); }
            for (uint32_t i = 0; i < cnt; ++i) { if (i % 3) { tab[i].function = task; tab[i].active = i % 2; } }
            known(t.p, t.n);
            call(c, N, [&] { Scheduler_addTask(tab, cnt, &x); });
            call(c, N, [&] { Scheduler_run(tab, cnt); });
            break;
        }
        case 19: {
            Buf a(c, n), b(c, n);
            c.fill(a.p, n);
            uint32_t s = (uint32_t)n;
            unsigned way = (unsigned)c.below(4);
            give(a);
            take(b);
            effort(n);
            switch (way) {
                case 0: call(c, N, [&] { Utils_serializeBlobBE(b.p, a.p, s); }); break;
                case 1: call(c, N, [&] { Utils_serializeBlobLE(b.p, a.p, s); }); break;
                case 2: call(c, N, [&] { Utils_deserializeBlobBE(a.p, b.p, s); }); break;
                default: call(c, N, [&] { Utils_deserializeBlobLE(a.p, b.p, s); });
            }
            break;
        }
        case 20: {
            Buf a(c, n), b(c, n);
            c.fill(a.p, n);
            c.fill(b.p, n);
            change(a);
            change(b);
            effort(n);
            call(c, N, [&] { Utils_swapElements(a.p, f ? b.p : a.p, (uint32_t)n); });
            break;
        }
        case 21: {
            unsigned way = (unsigned)c.below(14);
            Buf a(c, way % 7 == 0 ? 1 : way % 7 < 3 ? 2 : way % 7 < 5 ? 3 : 4);
            if (way < 7) { take(a); } else { c.fill(a.p, a.n); give(a); }
            call(c, N, [&] {
                switch (way) {
                    case 0: Utils_serialize8(a.p, (uint8_t)w); break;
                    case 1: Utils_serialize16BE(a.p, (uint16_t)w); break;
                    case 2: Utils_serialize16LE(a.p, (uint16_t)w); break;
                    case 3: Utils_serialize24BE(a.p, w & 0xFFFFFF); break;
                    case 4: Utils_serialize24LE(a.p, w & 0xFFFFFF); break;
                    case 5: Utils_serialize32BE(a.p, w); break;
                    case 6: Utils_serialize32LE(a.p, w); break;
                    case 7: Utils_deserialize8(a.p); break;
                    case 8: Utils_deserialize16BE(a.p); break;
                    case 9: Utils_deserialize16LE(a.p); break;
                    case 10: Utils_deserialize24BE(a.p); break;
                    case 11: Utils_deserialize24LE(a.p); break;
                    case 12: Utils_deserialize32BE(a.p); break;
                    default: Utils_deserialize32LE(a.p);
                }
            });
            break;
        }
        case 22: {
            uint8_t k = c.byte();
            bool b;
            uint32_t r, r2, r3;
            take(&b, sizeof b);
            take(&r, sizeof r);
            take(&r2, sizeof r2);
            take(&r3, sizeof r3);
            call(c, N, [&] {
                BitManipulation_bitSet(w, k, &b); BitManipulation_setBit(w, k, &r); BitManipulation_clearBit(w, k, &r2); BitManipulation_toggleBit(w, k, &r3);
                BitManipulation_reflect(w, k); BitManipulation_rotl32(w, f ? k % 33 : w);
            });
            break;
        }
        case 23: {
            uint32_t r;
            take(&r, sizeof r);
            call(c, N, [&] { Utils_isUpperChar((char)w); Utils_isLowerChar((char)w); Utils_isAlpha((char)w); Utils_quickUint32Pow10((uint8_t)w, &r); });
            break;
        }
        case 24: {
            Buf t(c, n + 2);
            take(t);
            call(c, N, [&] { Json_startString(t.c_str(), f ? t.n : 1); });
            memset(t.p, 'x', n);
            t[n] = 0;
            known(t.p, n + 1);
            effort(n);
            call(c, N, [&] { Json_endString(t.c_str(), g ? t.n : n + 1); });
            break;
        }
        default: {
            Queue_t q;
            PriorityQueue_t p;
            Map_t m;
            uint8_t b[8];
            uint32_t a[2];
            uint32_t s = f ? (uint32_t)n : 0;
            PriorityQueueItem_t items = {g ? a : nullptr, b};
            take(&q, sizeof q);
            take(&p, sizeof p);
            take(&m, sizeof m);
            take(b, sizeof b);
            take(a, sizeof a);
            give(&items, sizeof items);
            call(c, N, [&] {
                Queue_init(&q, s, w, g ? b : nullptr);
                PriorityQueue_init(f ? &p : nullptr, s, w, &items);
                Map_init(&m, b, g ? b : nullptr, (int32_t)n, (int32_t)(w >> 1), (int32_t)s);
            });
        }
    }
    checkGuards(c, N);
}
}  // namespace im
