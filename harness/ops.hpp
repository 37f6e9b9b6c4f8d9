// The stateless operations as values: drawn once, run any number of times.
#pragma once
#include <algorithm>
#include <functional>
#include <unistd.h>
#include "crcvars.hpp"
#include "engine.hpp"
#include "lib.hpp"
namespace ops {
using namespace im;
typedef std::vector<uint8_t> Bytes;
struct Op {
    unsigned kind = 0;
    Bytes a, b, d;         // byte arguments
    uint32_t x = 0, y = 0, z = 0;
    size_t cap = 0;
    bool f = false, g = false, h = false;
    Bytes result;
};
static const unsigned KINDS = 18;
static const char* const NAMES[KINDS] = {"base64 encode", "base64 decode", "named CRC", "CRC engine", "CRC table", "Caesar", "Vernam", "ChaCha20",
                                         "string to integer", "serialise", "deserialise", "JSON lookup", "JSON build", "sort", "bit operation", "power of ten",
                                         "blob", "letters"
                                        };

// called on every comparison when set: callbacks that use the library themselves
inline std::function<void()>& nested() {
    static std::function<void()> f;
    return f;
}
inline void visit() {
    if (nested()) {
        std::function<void()> f;
        f.swap(nested());  // an inner comparison does not nest by itself
        f();
        f.swap(nested());
    }
}
inline bool cmpFirst(void* p, void* q) {
    visit();
    return *(uint8_t*)p > *(uint8_t*)q;
}
inline bool cmpFirstDesc(void* p, void* q) {
    visit();
    return *(uint8_t*)p < *(uint8_t*)q;
}

// Memory seen twice: the harness writes through w, the library gets the read-only view r.
struct Rom {
    uint8_t *w = nullptr, *r = nullptr;
    size_t size = 0, top = 0;
    bool on = false;
    uint8_t* place(size_t n, size_t off) {  // returns the writable address
        size_t at = ((top + 15) & ~(size_t)15) + off;
        if (at + n > size) { fprintf(stderr, "read-only memory exhausted\n"); _exit(3); }
        top = at + n;
        return w + at;
    }
    template <class T> T* ro(T* p) const { return (T*)((uint8_t*)p - w + r); }
};
inline Rom& rom() {
    static Rom m;
    return m;
}
// an argument the library may only read
struct In : Buf {
    In(Ctx& c, const void* src, size_t len) {
        if (!rom().on) {
            *(Buf*)this = Buf(c, src, len);
            return;
        }
        n = len;
        uint8_t* a = rom().place(len, (size_t)c.below(8));
        if (len) { memcpy(a, src, len); }
        p = rom().ro(a);
    }
};

inline Bytes bytes(Ctx& c, size_t max) {
    Bytes v(c.size(max));
    c.fill(v.data(), v.size());
    return v;
}
inline Bytes word(Ctx& c, const char* alphabet, size_t max) {
    size_t n = strlen(alphabet);
    Bytes v(c.below(max + 1));
    for (auto& x : v) { x = (uint8_t)alphabet[c.below(n)]; }
    return v;
}

inline Op make(Ctx& c, int kind = -1) {
    Op o;
    o.kind = kind >= 0 ? (unsigned)kind : (unsigned)c.below(KINDS);
    switch (o.kind) {
        case 0:
            o.a = bytes(c, 200);
            o.cap = c.flag() ? (o.a.size() + 2) / 3 * 4 + c.below(3) : c.size(300);
            break;
        case 1: {
            Bytes raw = bytes(c, 150);
            std::string t = ref::base64(raw.data(), raw.size());
            if (c.flag()) { while (!t.empty() && t.back() == '=') { t.pop_back(); } }
            o.a.assign(t.begin(), t.end());
            o.f = true;
            o.x = (uint32_t)raw.size();
            if (c.chance(1, 3) && !o.a.empty()) {
                o.a[c.size(o.a.size() - 1)] = c.byte();
                o.f = false;
            }
            o.cap = c.flag() ? raw.size() + c.below(3) : c.size(200);
            break;
        }
        case 2:
            o.x = (uint32_t)c.below(NCRC);
            o.a = bytes(c, 200);
            o.f = c.flag();
            o.g = c.flag();
            o.y = c.u32() & ref::mask(CRCS[o.x].spec.width);
            break;
        case 3:
            o.x = (uint32_t)c.below(3);
            o.y = c.u32();
            o.z = c.u32();
            o.cap = c.u32();
            o.a = bytes(c, 100);
            o.f = c.flag();
            o.g = c.flag();
            o.h = c.flag();
            break;
        case 4:
            o.x = (uint32_t)c.below(3);
            o.y = c.u32();
            break;
        case 5:
            o.a = bytes(c, 100);
            o.x = c.byte();
            o.f = c.flag();
            break;
        case 6: {
            o.a = bytes(c, 60);
            for (auto& v : o.a) { if (v == 0) { v = 'k'; } }
            o.b = o.a;
            if (!o.b.empty()) { c.fill(o.b.data(), o.b.size()); }
            if (c.chance(1, 4)) { o.b.push_back('x'); }
            o.f = c.flag();
            break;
        }
        case 7:
            o.a = bytes(c, 300);
            o.b.resize(32);
            c.fill(o.b.data(), 32);
            o.d.resize(12);
            c.fill(o.d.data(), 12);
            o.x = c.u32();
            break;
        case 8:
            o.a = c.flag() ? word(c, "0123456789", 11) : word(c, "0123456789 -+x", 6);
            if (o.a.empty()) { o.a.push_back('7'); }
            break;
        case 9:
            o.x = (uint32_t)c.below(7);
            o.y = c.u32();
            break;
        case 10:
            o.x = (uint32_t)c.below(7);
            o.a.resize(4);
            c.fill(o.a.data(), 4);
            break;
        case 11: {
            std::string t = "{";
            size_t m = c.below(5);
            for (size_t i = 0; i < m; ++i) {
                Bytes k = word(c, "abk", 3), v = word(c, "abk:, 12{}", 8);
                t += (i ? "," : "") + ("\"" + std::string(k.begin(), k.end())) + "\":\"" + std::string(v.begin(), v.end()) + "\"";
            }
            t += "}";
            o.a.assign(t.begin(), t.end());
            o.b = word(c, "abk", 3);
            o.cap = c.flag() ? 20 : c.below(12);
            break;
        }
        case 12:
            o.a = word(c, "abk01", 8);
            o.b = word(c, "abk01", 8);
            o.cap = c.size(60);
            o.f = c.flag();
            break;
        case 13:
            o.x = (uint32_t)c.below(4);
            o.y = 1 + (uint32_t)(c.chance(1, 6) ? c.below(64) : c.below(12));
            o.a = bytes(c, 20 * o.y);
            o.a.resize(o.a.size() / o.y * o.y);
            o.f = c.flag();
            break;
        case 14:
            o.x = (uint32_t)c.below(6);
            o.y = c.u32();
            o.z = (uint32_t)c.below(o.x < 4 ? 40 : 33);
            break;
        case 15:
            o.x = c.byte();
            break;
        case 16:
            o.x = (uint32_t)c.below(5);
            o.a = bytes(c, 60);
            o.b = o.a;
            if (!o.b.empty()) { c.fill(o.b.data(), o.b.size()); }
            break;
        default:
            o.x = c.byte();
    }
    return o;
}

inline Bytes run(Ctx& c, const Op& o) {
    Bytes r;
    uint8_t dirt = c.byte();
    auto put32 = [&](uint32_t v) { for (int i = 0; i < 4; ++i) { r.push_back((uint8_t)(v >> (8 * i))); } };
    auto putN = [&](const uint8_t* p, size_t n) { if (n) { r.insert(r.end(), p, p + n); } };
    auto cstr = [&](const Bytes& s) {  // NUL-terminated copy in its own buffer
        Bytes t(s);
        t.push_back(0);
        return Buf(c, t.data(), t.size());
    };
    auto cin = [&](const Bytes& s) {
        Bytes t(s);
        t.push_back(0);
        return In(c, t.data(), t.size());
    };
    auto cstrText = [](const Bytes& s) {
        Bytes t(s);
        for (auto& v : t) { if (v == 0) { v = '_'; } }
        return t;
    };
    switch (o.kind) {
        case 0: {
            In in(c, o.a.data(), o.a.size());
            Buf out(c, o.cap);
            out.set(dirt);
            int32_t rc = Base64_encode((char*)in.p, in.n, (char*)out.p, o.cap);
            put32((uint32_t)rc);
            if (rc == 0) { putN(out.p, std::min(o.cap, (o.a.size() + 2) / 3 * 4 + 1)); }
            expectSame(c, "Base64_encode input", in, o.a);
            break;
        }
        case 1: {
            In in(c, o.a.data(), o.a.size());
            Buf out(c, o.cap);
            out.set(dirt);
            int32_t rc = Base64_decode((char*)in.p, in.n, out.p, o.cap);
            put32((uint32_t)rc);
            if (rc == 0 && o.f) { putN(out.p, std::min<size_t>(o.cap, o.x)); }
            expectSame(c, "Base64_decode input", in, o.a);
            break;
        }
        case 2: {
            In in(c, o.a.data(), o.a.size());
            uint32_t last = o.y;
            uint32_t v = CRCS[o.x].call(in.p, (uint32_t)in.n, o.f, o.g ? &last : nullptr);
            put32(v);
            if (o.g && last != o.y) { c.fail("%s modified the caller's running value", CRCS[o.x].name); }
            expectSame(c, "CRC message", in, o.a);
            break;
        }
        case 3:
        case 4: {
            Buf tab(c, 256u << o.x, 0);
            tab.set(dirt);
            if (o.x == 0) { Crc8Base_tableCalculator((uint8_t)o.y, tab.p); }
            else if (o.x == 1) { Crc16Base_tableCalculator((uint16_t)o.y, (uint16_t*)tab.p); }
            else { Crc32Base_tableCalculator(o.y, (uint32_t*)tab.p); }
            if (o.kind == 4) {
                putN(tab.p, tab.n);
                break;
            }
            In in(c, o.a.data(), o.a.size());
            Bytes t0 = tab.copy();
            uint8_t* table = tab.p;
            if (rom().on) {
                uint8_t* a = rom().place(t0.size(), 0);
                memcpy(a, t0.data(), t0.size());
                table = rom().ro(a);
            }
            uint32_t n = (uint32_t)in.n, fx = (uint32_t)o.cap;
            if (o.x == 0) { put32(Crc8Base(table, in.p, n, (uint8_t)o.z, (uint8_t)fx, o.f, o.g, o.h)); }
            else if (o.x == 1) { put32(Crc16Base((uint16_t*)table, in.p, n, (uint16_t)o.z, (uint16_t)fx, o.f, o.g, o.h)); }
            else { put32(Crc32Base((uint32_t*)table, in.p, n, o.z, fx, o.f, o.g, o.h)); }
            expectSame(c, "CRC table", tab, t0);
            expectSame(c, "CRC message", in, o.a);
            break;
        }
        case 5: {
            Buf m = cstr(cstrText(o.a));
            if (o.f) { CaesarCipher_encrypt(m.c_str(), (uint8_t)o.x); } else { CaesarCipher_decrypt(m.c_str(), (uint8_t)o.x); }
            putN(m.p, m.n);
            break;
        }
        case 6: {
            Buf m = cstr(o.a);
            In k(c, o.b.data(), o.b.size());
            bool ok = o.f ? VernamCipher_encrypt(m.c_str(), k.c_str(), (int32_t)k.n) : VernamCipher_decrypt(m.c_str(), k.c_str(), (int32_t)k.n);
            r.push_back(ok);
            putN(m.p, m.n);
            expectSame(c, "Vernam key", k, o.b);
            break;
        }
        case 7: {
            In in(c, o.a.data(), o.a.size()), k(c, o.b.data(), 32), n(c, o.d.data(), 12);
            Buf out(c, o.a.size());
            out.set(dirt);
            Chacha20_crypt(in.p, (uint32_t)in.n, k.p, n.p, o.x, out.p);
            putN(out.p, out.n);
            expectSame(c, "plaintext", in, o.a);
            expectSame(c, "key", k, o.b);
            expectSame(c, "nonce", n, o.d);
            break;
        }
        case 8: {
            In s(c, o.a.data(), o.a.size());
            uint32_t v = dirt;
            bool ok = Utils_stringToUint32(s.c_str(), (uint8_t)s.n, &v);
            r.push_back(ok);
            if (ok) { put32(v); }
            expectSame(c, "digits", s, o.a);
            break;
        }
        case 9: {
            static const size_t W[] = {1, 2, 2, 3, 3, 4, 4};
            Buf b(c, W[o.x]);
            b.set(dirt);
            switch (o.x) {
                case 0: Utils_serialize8(b.p, (uint8_t)o.y); break;
                case 1: Utils_serialize16BE(b.p, (uint16_t)o.y); break;
                case 2: Utils_serialize16LE(b.p, (uint16_t)o.y); break;
                case 3: Utils_serialize24BE(b.p, o.y & 0xFFFFFF); break;
                case 4: Utils_serialize24LE(b.p, o.y & 0xFFFFFF); break;
                case 5: Utils_serialize32BE(b.p, o.y); break;
                default: Utils_serialize32LE(b.p, o.y);
            }
            putN(b.p, b.n);
            break;
        }
        case 10: {
            static const size_t W[] = {1, 2, 2, 3, 3, 4, 4};
            In b(c, o.a.data(), W[o.x]);
            Bytes t0 = b.copy();
            switch (o.x) {
                case 0: put32(Utils_deserialize8(b.p)); break;
                case 1: put32(Utils_deserialize16BE(b.p)); break;
                case 2: put32(Utils_deserialize16LE(b.p)); break;
                case 3: put32(Utils_deserialize24BE(b.p)); break;
                case 4: put32(Utils_deserialize24LE(b.p)); break;
                case 5: put32(Utils_deserialize32BE(b.p)); break;
                default: put32(Utils_deserialize32LE(b.p));
            }
            expectSame(c, "serialised bytes", b, t0);
            break;
        }
        case 11: {
            In t = cin(o.a), k = cin(o.b);
            Buf v(c, o.cap);
            v.set(dirt);
            Bytes t0 = t.copy(), k0 = k.copy();
            bool ok = Json_findByKey(t.c_str(), o.a.size(), k.c_str(), v.c_str(), o.cap);
            r.push_back(ok);
            if (ok) { putN(v.p, strnlen(v.c_str(), o.cap)); }
            expectSame(c, "JSON text", t, t0);
            expectSame(c, "JSON key", k, k0);
            break;
        }
        case 12: {
            Buf t(c, o.cap);
            In k = cin(o.a), v = cin(o.b);
            t.set(dirt);
            Bytes k0 = k.copy(), v0 = v.copy();
            bool ok = Json_startString(t.c_str(), o.cap);
            r.push_back(ok);
            if (ok) {
                r.push_back(Json_addData(t.c_str(), o.cap, k.c_str(), v.c_str()));
                if (o.f) { r.push_back(Json_addData(t.c_str(), o.cap, v.c_str(), k.c_str())); }
                r.push_back(Json_endString(t.c_str(), o.cap));
                putN(t.p, strnlen(t.c_str(), o.cap));
            }
            expectSame(c, "JSON key", k, k0);
            expectSame(c, "JSON value", v, v0);
            break;
        }
        case 13: {
            Buf m(c, o.a.data(), o.a.size());
            int32_t n = (int32_t)(o.a.size() / o.y);
            auto cmp = o.f ? cmpFirst : cmpFirstDesc;
            switch (o.x) {
                case 0: BubbleSort_sort(m.p, n, (int32_t)o.y, cmp); break;
                case 1: HeapSort_sort(m.p, n, (int32_t)o.y, cmp); break;
                case 2: InsertionSort_sort(m.p, n, (int32_t)o.y, cmp); break;
                default: SelectionSort_sort(m.p, n, (int32_t)o.y, cmp);
            }
            putN(m.p, m.n);
            break;
        }
        case 14: {
            uint32_t out = dirt;
            bool bit = dirt & 1, ok = true;
            switch (o.x) {
                case 0: ok = BitManipulation_bitSet(o.y, (uint8_t)o.z, &bit); out = bit; break;
                case 1: ok = BitManipulation_setBit(o.y, (uint8_t)o.z, &out); break;
                case 2: ok = BitManipulation_clearBit(o.y, (uint8_t)o.z, &out); break;
                case 3: ok = BitManipulation_toggleBit(o.y, (uint8_t)o.z, &out); break;
                case 4: out = BitManipulation_reflect(o.y, (uint8_t)o.z); break;
                default: out = BitManipulation_rotl32(o.y, o.z);
            }
            r.push_back(ok);
            if (ok) { put32(out); }
            break;
        }
        case 15: {
            uint32_t v = dirt;
            bool ok = Utils_quickUint32Pow10((uint8_t)o.x, &v);
            r.push_back(ok);
            if (ok) { put32(v); }
            break;
        }
        case 16: {
            Buf d(c, o.b.data(), o.b.size());
            Buf s = o.x < 4 ? (Buf)In(c, o.a.data(), o.a.size()) : Buf(c, o.a.data(), o.a.size());
            uint32_t n = (uint32_t)o.a.size();
            switch (o.x) {
                case 0: Utils_serializeBlobBE(d.p, s.p, n); break;
                case 1: Utils_serializeBlobLE(d.p, s.p, n); break;
                case 2: Utils_deserializeBlobBE(s.p, d.p, n); break;
                case 3: Utils_deserializeBlobLE(s.p, d.p, n); break;
                default: Utils_swapElements(s.p, d.p, n);
            }
            putN(s.p, s.n);
            putN(d.p, d.n);
            if (o.x < 4) { expectSame(c, "blob source", s, o.a); }
            break;
        }
        default:
            r.push_back(Utils_isUpperChar((char)o.x));
            r.push_back(Utils_isLowerChar((char)o.x));
            r.push_back(Utils_isAlpha((char)o.x));
    }
    checkGuards(c, NAMES[o.kind]);
    return r;
}

}  // namespace ops
