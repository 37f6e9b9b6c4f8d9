#include "engine.hpp"
#include "giant.hpp"
#include "lib.hpp"
#include "refs.hpp"
using namespace im;
namespace im {
const Prop PROP = {"F01",
    "NUL-terminated texts of 0..3000 (rarely 100000) characters (letters, mixed text, arbitrary non-zero bytes) x shifts 0..255; "
    "enumerated: every character x every shift. Texts of more than 2^31 and 2^32 characters enumerated. Non-trivial: at least one letter and a shift that is not 0",
    400000, 6000000, 60000, 3000000, 2048};

static void check(Ctx& c, const Buf& t, size_t n, uint8_t shift) {
    std::vector<uint8_t> orig = t.copy(), want(orig);
    for (size_t i = 0; i < n; ++i) { want[i] = ref::shiftLetter(orig[i], shift); }
    CaesarCipher_encrypt((char*)t.p, shift);
    checkGuards(c, "encryption");
    if (memcmp(t.p, want.data(), t.n) != 0) {
        c.fail("encrypting %s with shift %u gives %s, expected %s", quoted(orig.data(), n).c_str(), shift, quoted(t.p, n).c_str(), quoted(want.data(), n).c_str());
    }
    CaesarCipher_decrypt((char*)t.p, shift);
    checkGuards(c, "decryption");
    if (memcmp(t.p, orig.data(), t.n) != 0) {
        c.fail("decrypting the encryption of %s with shift %u gives %s", quoted(orig.data(), n).c_str(), shift, quoted(t.p, n).c_str());
    }
    // decryption on its own
    for (size_t i = 0; i < n; ++i) { want[i] = ref::shiftLetter(orig[i], -(int)shift); }
    CaesarCipher_decrypt((char*)t.p, shift);
    checkGuards(c, "decryption");
    if (memcmp(t.p, want.data(), t.n) != 0) {
        c.fail("decrypting %s with shift %u gives %s, expected %s", quoted(orig.data(), n).c_str(), shift, quoted(t.p, n).c_str(), quoted(want.data(), n).c_str());
    }
}
void runCase(Ctx& c) {
    size_t n = c.chance(1, 1000) ? c.size(100000) : c.chance(1, 12) ? c.size(3000) : c.size(60);
    size_t extra = c.below(4);  // bytes after the terminator belong to the text's neighbours: checked as part of the buffer
    Buf t(c, n + 1 + extra);
    c.fill(t.p, t.n);
    unsigned style = (unsigned)c.below(3);
    bool letter = false;
    for (size_t i = 0; i < n; ++i) {
        uint8_t b = t[i];
        if (style == 0) { b = (uint8_t)((b & 0x20 ? 'a' : 'A') + b % 26); }
        if (style == 1) { b = (uint8_t)(32 + b % 95); }
        if (b == 0) { b = '.'; }
        t[i] = b;
        letter |= ref::upper(b) || ref::lower(b);
    }
    t[n] = 0;
    uint8_t shift = c.flag() ? (uint8_t)c.below(27) : c.byte();
    c.label(style == 0 ? "letters" : style == 1 ? "printable" : "bytes");
    c.label(shift == 0 ? "shift:0" : shift < 26 ? "shift:1..25" : shift < 230 ? "shift:26..229" : "shift:230..255");
    if (letter && shift) { c.nontrivial(); }
    NOTE(c, "text %s, shift %u", quoted(t.p, n).c_str(), shift);
    check(c, t, n, shift);
}
// texts of more than 2^31 or 2^32 characters: one character, and letters at some places
static void giant(Ctx& c, uint64_t k) {
    c.label("enum:more than 2^31 characters");
    c.nontrivial();
    c.distinctKey((k + 1) << 50);
    patience(900);
    size_t n = (1ull << (k % 2 ? 31 : 32)) + 1 + c.below(100000);
    Room room(c, n);
    if (!room) { return; }
    uint8_t base = k % 4 < 2 ? ' ' : 'k', shift = (uint8_t)(1 + c.below(25));
    Giant t(n + 1, base);
    if (!t.p) { return; }
    std::vector<size_t> at = places(c, n, 20);
    std::vector<uint8_t> was;
    for (size_t a : at) {
        was.push_back((uint8_t)((c.flag() ? 'a' : 'A') + c.below(26)));
        t.p[a] = was.back();
    }
    t.p[n] = 0;
    auto judge = [&](const char* what, int dir) {
        alive();
        size_t pos = 0;
        for (size_t i = 0; i < at.size(); ++i) {
            expectAll(c, what, t.p, pos, at[i], ref::shiftLetter(base, dir * shift));
            uint8_t want = ref::shiftLetter(was[i], dir * shift);
            if (t.p[at[i]] != want) { c.fail("%s of %zu characters, shift %u: '%c' at %zu became %02x, expected '%c'", what, n, shift, was[i], at[i], t.p[at[i]], want); }
            pos = at[i] + 1;
        }
        if (t.p[n] != 0) { c.fail("%s changed the terminator", what); }
    };
    CaesarCipher_encrypt((char*)t.p, shift);
    judge("encryption", 1);
    CaesarCipher_decrypt((char*)t.p, shift);
    judge("decryption of the encryption", 0);
}
static uint64_t plain(bool thorough) { return 256 + (thorough ? 200 : 16); }
uint64_t enumCount(bool thorough) { return plain(thorough) + (thorough ? 6 : 1); }
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    if (i >= plain(thorough)) { giant(c, i - plain(thorough)); return; }
    if (i >= 256) {
        c.label("enum:around and beyond 65536 characters");
        c.nontrivial();
        c.distinctKey(i << 40);
        size_t n = bigSize(c, i - 256);
        Buf t(c, n + 1);
        c.fillRandom(t.p, n);
        for (size_t k = 0; k < n; ++k) {
            if (t[k] == 0) { t[k] = 'm'; }
        }
        t[n] = 0;
        check(c, t, n, c.byte());
        return;
    }
    c.label("enum:every character x every shift");
    c.nontrivial();
    Buf one(c, 2, 0), all(c, 256, 0);
    for (unsigned k = 1; k < 256; ++k) {
        one[0] = (uint8_t)k;
        one[1] = 0;
        check(c, one, 1, (uint8_t)i);
        all[k - 1] = (uint8_t)k;
        c.distinctKey(i << 8 | k);
    }
    all[255] = 0;
    check(c, all, 255, (uint8_t)i);
    c.evals(256);
}
}  // namespace im
