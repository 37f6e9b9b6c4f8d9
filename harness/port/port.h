/* One call, or one history of calls, of the library as bytes: port(request) gives a reply that holds all results.
   Plain C99 and C++: compiled for this machine into the harness and for other machines into the servers of G01.
   Nothing here depends on the machine: bytes are taken apart and put together by shifts. */
#define PORT_MAX 65536
static uint8_t port_arena[2 * PORT_MAX];
static struct { uint32_t at, n; } port_area[64];
static uint32_t port_areas, port_used, port_at, port_n, port_outn;
static const uint8_t* port_in;
static uint8_t* port_out;

static uint8_t r8(void) { return port_at < port_n ? port_in[port_at++] : 0; }
static uint32_t r16(void) { uint32_t v = r8(); return v | (uint32_t)r8() << 8; }
static uint32_t r32(void) { uint32_t v = r16(); return v | r16() << 16; }
static void w8(uint32_t v) { if (port_outn < PORT_MAX) { port_out[port_outn++] = (uint8_t)v; } }
static void w32(uint32_t v) { w8(v); w8(v >> 8); w8(v >> 16); w8(v >> 24); }
/* n bytes at any address (mod 8), 8 bytes of guard around */
static uint8_t* area(uint32_t n, uint8_t fill) {
    uint32_t off = r8() & 7, at, i;
    if (port_areas == 64 || port_used + n + 32 > sizeof port_arena) { n = 0; port_used = 0; port_areas = 0; }
    at = ((port_used + 7) & ~7u) + 8 + off;
    for (i = 0; i < 8; ++i) { port_arena[at - 8 + i] = 0xA5; port_arena[at + n + i] = 0xA5; }
    for (i = 0; i < n; ++i) { port_arena[at + i] = fill; }
    port_area[port_areas].at = at;
    port_area[port_areas++].n = n;
    port_used = at + n + 8;
    return port_arena + at;
}
static uint8_t* text(uint32_t extra, uint32_t* len) { /* u16 length, bytes; then extra bytes of zero */
    uint32_t n = r16(), i;
    uint8_t* p;
    if (n > PORT_MAX / 4) { n = PORT_MAX / 4; }
    p = area(n + extra, 0);
    for (i = 0; i < n; ++i) { p[i] = r8(); }
    *len = n;
    return p;
}
static void dump(void) {
    uint32_t i, k;
    for (i = 0; i < port_areas; ++i) {
        for (k = 0; k < port_area[i].n + 16; ++k) { w8(port_arena[port_area[i].at - 8 + k]); }
    }
}
static uint32_t port_calls;
static uint32_t port_size;
static bool cmpFirst(void* a, void* b) { return *(uint8_t*)a > *(uint8_t*)b; }
static bool cmpLess(void* a, void* b) { return *(uint8_t*)a < *(uint8_t*)b; }
static bool cmpAll(void* a, void* b) {
    uint32_t i;
    for (i = 0; i < port_size; ++i) { if (((uint8_t*)a)[i] != ((uint8_t*)b)[i]) { return ((uint8_t*)a)[i] > ((uint8_t*)b)[i]; } }
    return false;
}
static bool cmpLow(void* a, void* b) { return (((uint8_t*)a)[0] & 15) > (((uint8_t*)b)[0] & 15); }
static uint32_t port_ran;
static void taskA(void) { port_ran = port_ran * 5 + 1; }
static void taskB(void) { port_ran = port_ran * 5 + 2; }
static void taskC(void) { port_ran = port_ran * 5 + 3; }

#define CRC_F(T, F) if (v == which++) { if (!chain) { w32(F(p, n, fin, NULL)); } else { T l = (T)last; w32(F(p, n, fin, &l)); w32(l); } return; }
#define CRC_N(T, F) if (v == which++) { if (!chain) { w32(F(p, n, NULL)); } else { T l = (T)last; w32(F(p, n, &l)); w32(l); } return; }
static void namedCrc(uint32_t v, bool chain, bool fin, uint32_t last, const uint8_t* p, uint32_t n) {
    uint32_t which = 0;
#define PORT_CRC
#include "crcs.h"
#undef PORT_CRC
}
#define PORT_KINDS 18
static const char* const PORT_NAMES[PORT_KINDS] = {"Base64_encode", "Base64_decode", "a named CRC", "Crc8Base", "Crc16Base", "Crc32Base", "Chacha20_crypt", "a Caesar cipher", "a Vernam cipher",
    "Utils_stringToUint32", "a conversion of Utils", "a bit operation", "JSON text made", "Json_findByKey", "a sort", "a queue in use", "a priority queue in use", "a map in use"};

static uint32_t port(const uint8_t* in, uint32_t n, uint8_t* out) {
    uint32_t len, a, b, c, i;
    uint8_t *p, *q;
    port_in = in;
    port_n = n;
    port_at = 0;
    port_out = out;
    port_outn = port_areas = port_used = 0;
    switch (r8()) {
        case 0:
            p = text(0, &len);
            a = r16();
            q = area(a, 0xC3);
            w32((uint32_t)Base64_encode((const char*)p, len, (char*)q, a));
            break;
        case 1:
            p = text(0, &len);
            a = r16();
            q = area(a, 0xC3);
            w32((uint32_t)Base64_decode((const char*)p, len, q, a));
            break;
        case 2:
            p = text(0, &len);
            a = r8();
            b = r8();
            namedCrc(a, b & 1, (b & 2) != 0, r32(), p, len);
            break;
        case 3: case 4: case 5: {
            static uint8_t t8[256];
            static uint16_t t16[256];
            static uint32_t t32[256];
            uint32_t s, x, f;
            p = text(0, &len);
            s = r32();
            a = r32();
            x = r32();
            f = r8();
            for (i = 0; i < 256; ++i) { s = s * 1664525u + 1013904223u; t8[i] = (uint8_t)(s >> 24); t16[i] = (uint16_t)(s >> 16); t32[i] = s ^ s >> 15; }
            if (in[0] == 3) { w32(Crc8Base(t8, p, len, (uint8_t)a, (uint8_t)x, f & 1, (f & 2) != 0, (f & 4) != 0)); }
            if (in[0] == 4) { w32(Crc16Base(t16, p, len, (uint16_t)a, (uint16_t)x, f & 1, (f & 2) != 0, (f & 4) != 0)); }
            if (in[0] == 5) { w32(Crc32Base(t32, p, len, a, x, f & 1, (f & 2) != 0, (f & 4) != 0)); }
            break;
        }
        case 6: {
            uint8_t *k = area(32, 0), *nonce = area(12, 0);
            for (i = 0; i < 32; ++i) { k[i] = r8(); }
            for (i = 0; i < 12; ++i) { nonce[i] = r8(); }
            a = r32();
            p = text(0, &len);
            q = area(len, 0xC3);
            Chacha20_crypt(p, len, k, nonce, a, q);
            break;
        }
        case 7:
            a = r8();
            b = r8();
            p = text(1, &len);
            if (a & 1) { CaesarCipher_decrypt((char*)p, (uint8_t)b); } else { CaesarCipher_encrypt((char*)p, (uint8_t)b); }
            break;
        case 8:
            a = r8();
            p = text(1, &len);
            q = text(1, &b);
            w8(a & 1 ? VernamCipher_decrypt((char*)p, (const char*)q, (int32_t)b) : VernamCipher_encrypt((char*)p, (const char*)q, (int32_t)b));
            break;
        case 9: {
            uint32_t v = 0xC3C3C3C3u;
            p = text(0, &len);
            w8(Utils_stringToUint32((const char*)p, (uint8_t)len, &v));
            w32(v);
            break;
        }
        case 10: {
            uint32_t v = 0xC3C3C3C3u;
            a = r32();
            p = text(0, &len);
            q = area(len, 0xC3);
            Utils_serializeBlobBE(q, p, len);
            q = area(len, 0xC3);
            Utils_serializeBlobLE(q, p, len);
            q = area(len, 0xC3);
            Utils_deserializeBlobBE(p, q, len);
            q = area(len, 0xC3);
            Utils_deserializeBlobLE(p, q, len);
            Utils_swapElements(p, q, len);
            q = area(4, 0xC3);
            Utils_serialize8(q, (uint8_t)a);
            w8(Utils_deserialize8(q));
            q = area(4, 0xC3);
            Utils_serialize16BE(q, (uint16_t)a);
            w32(Utils_deserialize16BE(q));
            w32(Utils_deserialize16LE(q));
            q = area(4, 0xC3);
            Utils_serialize16LE(q, (uint16_t)a);
            q = area(4, 0xC3);
            Utils_serialize24BE(q, a);
            w32(Utils_deserialize24BE(q));
            w32(Utils_deserialize24LE(q));
            q = area(4, 0xC3);
            Utils_serialize24LE(q, a);
            q = area(4, 0xC3);
            Utils_serialize32BE(q, a);
            w32(Utils_deserialize32BE(q));
            w32(Utils_deserialize32LE(q));
            q = area(4, 0xC3);
            Utils_serialize32LE(q, a);
            w8(Utils_isAlpha((char)a));
            w8(Utils_isUpperChar((char)a));
            w8(Utils_isLowerChar((char)a));
            w8(Utils_quickUint32Pow10((uint8_t)(a >> 8), &v));
            w32(v);
            break;
        }
        case 11: {
            uint32_t v = 0xC3C3C3C3u;
            bool t = false;
            a = r32();
            b = r8();
            c = r32();
            w32(BitManipulation_reflect(a, (uint8_t)(b % 33)));
            w8(BitManipulation_bitSet(a, (uint8_t)b, &t));
            w8(t);
            w8(BitManipulation_setBit(a, (uint8_t)b, &v));
            w32(v);
            w8(BitManipulation_clearBit(a, (uint8_t)b, &v));
            w32(v);
            w8(BitManipulation_toggleBit(a, (uint8_t)b, &v));
            w32(v);
            w32(BitManipulation_rotl32(a, c));
            break;
        }
        case 12: {
            a = r16();
            p = area(a ? a : 1, 0xC3);
            if (!Json_startString((char*)p, a)) { w8(9); break; }
            for (b = r8() % 12; b > 0; --b) {
                uint8_t* k = text(1, &len);
                uint8_t* v = text(1, &len);
                w8(Json_addData((char*)p, a, (const char*)k, (const char*)v));
            }
            w8(Json_endString((char*)p, a));
            for (b = r8() % 4; b > 0; --b) {
                uint8_t* k = text(1, &len);
                c = r16();
                q = area(c, 0xC3);
                w8(Json_findByKey((const char*)p, a, (const char*)k, (char*)q, c));
            }
            break;
        }
        case 13: {
            uint8_t* k;
            p = text(1, &a);
            k = text(1, &len);
            c = r16();
            q = area(c, 0xC3);
            w8(Json_findByKey((const char*)p, a + 1, (const char*)k, (char*)q, c));
            break;
        }
        case 14: {
            bool (*cmp)(void*, void*);
            a = r8();
            port_size = 1 + r8() % 64;
            b = r8() & 3;
            cmp = b == 0 ? cmpFirst : b == 1 ? cmpLess : b == 2 ? cmpAll : cmpLow;
            p = text(0, &len);
            c = len / port_size;
            switch (a & 3) {
                case 0: BubbleSort_sort(p, (int32_t)c, (int32_t)port_size, cmp); break;
                case 1: HeapSort_sort(p, (int32_t)c, (int32_t)port_size, cmp); break;
                case 2: InsertionSort_sort(p, (int32_t)c, (int32_t)port_size, cmp); break;
                default: SelectionSort_sort(p, (int32_t)c, (int32_t)port_size, cmp); break;
            }
            break;
        }
        case 15: {
            Queue_t s;
            uint8_t e[64];
            a = r8() % 64;
            b = r8() % 64;
            p = area(a * b, 0xC3);
            q = area(b, 0xC3);
            if (!Queue_init(&s, a, b, p)) { w8(9); break; }
            while (port_at < port_n) {
                c = r8();
                for (i = 0; i < 64; ++i) { e[i] = (uint8_t)(c * 7 + i * i + port_at * 13); }
                switch (c & 7) {
                    case 0: case 1: case 2: w8(Queue_enqueue(&s, e)); break;
                    case 3: case 4: w8(Queue_dequeue(&s, q)); break;
                    case 5: w8(Queue_front(&s, q)); break;
                    case 6: w8(Queue_rear(&s, q)); break;
                    default: w8(Queue_full(&s)); w8(Queue_empty(&s)); break;
                }
                for (i = 0; i < b; ++i) { w8(q[i]); }
            }
            break;
        }
        case 16: {
            PriorityQueue_t s;
            PriorityQueueItem_t store, item;
            uint32_t prio[64], pr;
            uint8_t e[64];
            a = r8() % 64;
            b = r8() % 64;
            p = area(a * b, 0xC3);
            q = area(b, 0xC3);
            for (i = 0; i < 64; ++i) { prio[i] = 0xC3C3C3C3u; }
            store.priority = prio;
            store.element = p;
            item.priority = &pr;
            item.element = e;
            if (!PriorityQueue_init(&s, a, b, &store)) { w8(9); break; }
            while (port_at < port_n) {
                c = r8();
                for (i = 0; i < 64; ++i) { e[i] = (uint8_t)(c * 7 + i * i + port_at * 13); }
                switch (c & 3) {
                    case 0: case 1: pr = c & 4 ? r32() : c >> 3; w8(PriorityQueue_enqueue(&s, &item)); break;
                    case 2: w8(PriorityQueue_dequeue(&s, q)); break;
                    default: w8(PriorityQueue_empty(&s)); break;
                }
                for (i = 0; i < b; ++i) { w8(q[i]); }
            }
            break;
        }
        default: {
            Map_t s;
            SchedulerTask_t tasks[40], t;
            uint8_t k[64], e[64];
            uint32_t cap = r8() % 64, slots, v;
            a = r8() % 64;
            b = r8() % 64;
            slots = r8() % 40;
            p = area(a * cap, 0xC3);
            q = area(b * cap, 0xC3);
            Scheduler_init(tasks, slots);
            port_ran = 0;
            if (!Map_init(&s, p, q, (int32_t)a, (int32_t)b, (int32_t)cap)) { w8(9); break; }
            q = area(b, 0xC3);
            while (port_at < port_n) {
                c = r8();
                v = (c & 7) < 5 ? r8() : 0;
                for (i = 0; i < 64; ++i) { /* rising bytes, or keys apart in one byte: the last, the middle one, or one before a zero */
                    k[i] = (uint8_t)((c & 24) == 0 ? v + i : (c & 24) == 8 ? (i + 1 == a ? v : 0) : (c & 24) == 16 ? (i == a / 2 ? v : 0x80 * (i & 1)) : (i == 0 ? v >> 1 : i == 1 ? v & 1 : 0xFF));
                    e[i] = (uint8_t)(port_at * 7 + i * i);
                }
                switch (c & 7) {
                    case 0: case 1: case 2: w8(Map_insert(&s, k, e)); break;
                    case 3: case 4: w8(Map_getValue(&s, k, q)); break;
                    case 5:
                        t.function = c & 8 ? taskA : c & 16 ? taskB : taskC;
                        t.active = (c & 32) != 0;
                        w8(Scheduler_addTask(tasks, slots, &t));
                        break;
                    case 6: Scheduler_run(tasks, slots); w32(port_ran); break;
                    default: if (slots) { tasks[(c >> 3) % slots].active = !tasks[(c >> 3) % slots].active; } break;
                }
                for (i = 0; i < b; ++i) { w8(q[i]); }
            }
            break;
        }
    }
    dump();
    return port_outn;
}
