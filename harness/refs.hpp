// Independent reference models, written from the standards, bit by bit.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace ref {

// ---- Base64 (RFC 4648) -------------------------------------------------------
inline std::string base64(const uint8_t* p, size_t n) {
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string s;
    s.reserve((n + 2) / 3 * 4);
    // as a bit string: six bits at a time, most significant first
    unsigned acc = 0, bits = 0;
    for (size_t i = 0; i < n; ++i) {
        acc = (acc << 8 | p[i]) & 0xFFFF;
        bits += 8;
        while (bits >= 6) {
            s += A[(acc >> (bits - 6)) & 63];
            bits -= 6;
        }
    }
    if (bits) { s += A[(acc << (6 - bits)) & 63]; }
    while (s.size() % 4) { s += '='; }
    return s;
}

// ---- CRC by polynomial division, one bit at a time ---------------------------
struct CrcSpec {
    unsigned width;
    uint32_t poly, init, xorout;
    bool refin, refout;
};
inline uint32_t mask(unsigned w) { return w == 32 ? 0xFFFFFFFFu : ((1u << w) - 1); }
inline uint32_t reflect(uint32_t v, unsigned w) {
    uint32_t r = 0;
    for (unsigned i = 0; i < w; ++i) {
        if (v >> i & 1) { r |= 1u << (w - 1 - i); }
    }
    return r;
}
// the shift register after feeding a message
inline uint32_t crcRegister(unsigned w, uint32_t poly, bool refin, uint32_t reg, const uint8_t* p, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        for (unsigned k = 0; k < 8; ++k) {
            uint32_t in = refin ? (p[i] >> k) & 1u : (p[i] >> (7 - k)) & 1u;
            uint32_t top = (reg >> (w - 1)) & 1u;
            reg = (reg << 1) & mask(w);
            if (top ^ in) { reg ^= poly; }
        }
    }
    return reg & mask(w);
}
inline uint32_t crcFinal(const CrcSpec& s, uint32_t reg) { return (s.refout ? reflect(reg, s.width) : reg) ^ s.xorout; }
inline uint32_t crc(const CrcSpec& s, const uint8_t* p, size_t n) {
    return crcFinal(s, crcRegister(s.width, s.poly, s.refin, s.init, p, n));
}

// Same register, eight bits per step with a table computed bit by bit: for long
// messages (cross-checked against the bit-serial form in the harnesses).
struct CrcTable {
    uint32_t t[256];
    unsigned w;
    CrcTable(unsigned width, uint32_t poly) : w(width) {
        for (unsigned v = 0; v < 256; ++v) {
            uint8_t b = (uint8_t)v;
            t[v] = crcRegister(width, poly, false, 0, &b, 1);
        }
    }
    uint32_t run(bool refin, uint32_t reg, const uint8_t* p, size_t n) const {
        for (size_t i = 0; i < n; ++i) {
            uint8_t b = refin ? (uint8_t)reflect(p[i], 8) : p[i];
            uint8_t x = (uint8_t)(b ^ (reg >> (w - 8)));
            reg = (w == 8 ? 0 : (reg << 8)) & mask(w);
            reg ^= t[x];
        }
        return reg;
    }
};

// the register after z zero bytes more: repeated squaring of the linear map of one zero byte
inline uint32_t crcZeros(unsigned w, uint32_t poly, uint32_t reg, uint64_t z) {
    uint32_t m[32], sq[32];
    const uint8_t zero = 0;
    for (unsigned b = 0; b < w; ++b) { m[b] = crcRegister(w, poly, false, 1u << b, &zero, 1); }
    auto apply = [&](uint32_t v) {
        uint32_t r = 0;
        for (unsigned b = 0; b < w; ++b) {
            if (v >> b & 1) { r ^= m[b]; }
        }
        return r;
    };
    for (; z; z >>= 1) {
        if (z & 1) { reg = apply(reg); }
        for (unsigned b = 0; b < w; ++b) { sq[b] = apply(m[b]); }
        memcpy(m, sq, sizeof m);
    }
    return reg;
}

// ---- ChaCha20 (RFC 8439, 2.3 and 2.4) ------------------------------------------
inline uint32_t rol(uint32_t v, int n) { return v << n | v >> (32 - n); }
inline void chachaBlock(const uint8_t key[32], uint32_t counter, const uint8_t nonce[12], uint8_t out[64]) {
    uint32_t st[16], w[16];
    const char* sigma = "expand 32-byte k";
    auto le = [](const uint8_t* p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; };
    for (int i = 0; i < 4; ++i) { st[i] = le((const uint8_t*)sigma + 4 * i); }
    for (int i = 0; i < 8; ++i) { st[4 + i] = le(key + 4 * i); }
    st[12] = counter;
    for (int i = 0; i < 3; ++i) { st[13 + i] = le(nonce + 4 * i); }
    memcpy(w, st, sizeof st);
    auto qr = [&](int a, int b, int c, int d) {
        w[a] += w[b]; w[d] = rol(w[d] ^ w[a], 16);
        w[c] += w[d]; w[b] = rol(w[b] ^ w[c], 12);
        w[a] += w[b]; w[d] = rol(w[d] ^ w[a], 8);
        w[c] += w[d]; w[b] = rol(w[b] ^ w[c], 7);
    };
    for (int r = 0; r < 10; ++r) {
        for (int i = 0; i < 4; ++i) { qr(i, 4 + i, 8 + i, 12 + i); }
        for (int i = 0; i < 4; ++i) { qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4); }
    }
    for (int i = 0; i < 16; ++i) {
        uint32_t v = w[i] + st[i];
        out[4 * i] = (uint8_t)v;
        out[4 * i + 1] = (uint8_t)(v >> 8);
        out[4 * i + 2] = (uint8_t)(v >> 16);
        out[4 * i + 3] = (uint8_t)(v >> 24);
    }
}
inline void chacha(const uint8_t* msg, size_t n, const uint8_t key[32], const uint8_t nonce[12], uint32_t counter, uint8_t* out) {
    uint8_t ks[64];
    for (size_t i = 0; i < n; ++i) {
        if (i % 64 == 0) { chachaBlock(key, (uint32_t)(counter + (uint32_t)(i / 64)), nonce, ks); }
        out[i] = msg[i] ^ ks[i % 64];
    }
}

// ---- letters ---------------------------------------------------------------------
inline bool upper(uint8_t c) { return c >= 'A' && c <= 'Z'; }
inline bool lower(uint8_t c) { return c >= 'a' && c <= 'z'; }
inline uint8_t shiftLetter(uint8_t c, int k) {
    if (upper(c)) { return (uint8_t)('A' + (((c - 'A' + k) % 26) + 26) % 26); }
    if (lower(c)) { return (uint8_t)('a' + (((c - 'a' + k) % 26) + 26) % 26); }
    return c;
}

}  // namespace ref
