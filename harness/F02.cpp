#include "engine.hpp"
#include "giant.hpp"
#include "lib.hpp"
#include "refs.hpp"
using namespace im;
namespace im {
const Prop PROP = {"F02",
    "NUL-terminated texts of 0..3000 (rarely 100000) characters x keys (letters in mixed case, printable, arbitrary bytes, not NUL-terminated) of matching length, "
    "or a differing key length; enumerated: every text character x every key byte. Texts of nearly 2^31 and more than 2^32 characters enumerated. Non-trivial: lengths match and a letter is present",
    400000, 6000000, 60000, 3000000, 2048};

static int pos(uint8_t k) { return ref::upper(k) ? k - 'A' : ref::lower(k) ? k - 'a' : -1; }

// judge one transformation: dir +1 encrypt, -1 decrypt
static void judge(Ctx& c, const char* what, int dir, const std::vector<uint8_t>& before, const Buf& after, const std::vector<uint8_t>& key) {
    for (size_t i = 0; i < before.size(); ++i) {
        uint8_t b = before[i], a = after[i];
        bool in = i < key.size();
        if (!in || !(ref::upper(b) || ref::lower(b))) {
            if (a != b) { c.fail("%s changed byte %zu, %02x, to %02x", what, i, b, a); }
            continue;
        }
        if (ref::upper(b) != ref::upper(a) || ref::lower(b) != ref::lower(a)) { c.fail("%s of letter %02x with key byte %02x gives %02x: not a letter of the same case", what, b, key[i], a); }
        int k = pos(key[i]);
        if (k >= 0 && a != ref::shiftLetter(b, dir * k)) { c.fail("%s of '%c' with key letter '%c' gives '%c', expected '%c'", what, b, key[i], a, ref::shiftLetter(b, dir * k)); }
    }
}
static void check(Ctx& c, const Buf& t, const Buf& key) {
    std::vector<uint8_t> orig = t.copy(), kb = key.copy();
    if (!VernamCipher_encrypt((char*)t.p, (const char*)key.p, (int32_t)key.n)) { c.fail("encryption with a key of the text's length %zu failed", key.n); }
    checkGuards(c, "encryption");
    expectSame(c, "key", key, kb);
    judge(c, "encryption", 1, orig, t, kb);
    if (!VernamCipher_decrypt((char*)t.p, (const char*)key.p, (int32_t)key.n)) { c.fail("decryption with a key of the text's length %zu failed", key.n); }
    checkGuards(c, "decryption");
    expectSame(c, "key", key, kb);
    expectSame(c, "text after encrypting and decrypting", t, orig);
    if (!VernamCipher_decrypt((char*)t.p, (const char*)key.p, (int32_t)key.n)) { c.fail("decryption failed"); }
    checkGuards(c, "decryption");
    judge(c, "decryption", -1, orig, t, kb);
}
static void style(unsigned s, uint8_t* p, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        uint8_t b = p[i];
        if (s <= 1) { b = (uint8_t)((b & 0x20 ? 'a' : 'A') + b % 26); }
        if (s == 2) { b = (uint8_t)(32 + b % 95); }
        p[i] = b;
    }
}
void runCase(Ctx& c) {
    size_t n = c.chance(1, 1000) ? c.size(100000) : c.chance(1, 12) ? c.size(3000) : c.size(60);
    Buf t(c, n + 1 + c.below(3));
    c.fill(t.p, t.n);
    style((unsigned)c.below(4), t.p, n);
    bool letter = false;
    for (size_t i = 0; i < n; ++i) {
        if (t[i] == 0) { t[i] = '.'; }
        letter |= ref::upper(t[i]) || ref::lower(t[i]);
    }
    t[n] = 0;
    if (c.chance(1, 6)) {  // lengths differ
        size_t kn = c.flag() ? n + 1 + c.size(300) : c.size(n + 300);
        int64_t claimed = (int64_t)kn;
        Buf key(c, kn);
        c.fill(key.p, kn);
        if (c.chance(1, 4)) { claimed = c.flag() ? -(int64_t)n : -1 - (int64_t)c.below(300); }
        if (claimed == (int64_t)n) { return; }
        auto orig = t.copy(), kb = key.copy();
        NOTE(c, "text %s (%zu), key length %lld", quoted(t.p, n).c_str(), n, (long long)claimed);
        c.label("length differs");
        bool e = VernamCipher_encrypt((char*)t.p, (const char*)key.p, (int32_t)claimed);
        checkGuards(c, "encryption");
        if (e) { c.fail("encryption of %zu characters with key length %lld succeeded", n, (long long)claimed); }
        expectSame(c, "text after refused encryption", t, orig);
        bool d = VernamCipher_decrypt((char*)t.p, (const char*)key.p, (int32_t)claimed);
        checkGuards(c, "decryption");
        if (d) { c.fail("decryption of %zu characters with key length %lld succeeded", n, (long long)claimed); }
        expectSame(c, "text after refused decryption", t, orig);
        expectSame(c, "key", key, kb);
        return;
    }
    Buf key(c, n);
    unsigned ks = (unsigned)c.below(4);
    c.fill(key.p, n);
    style(ks, key.p, n);
    c.label(ks <= 1 ? "key:letters" : ks == 2 ? "key:printable" : "key:bytes");
    if (letter) { c.nontrivial(); }
    NOTE(c, "text %s, key %s", quoted(t.p, n).c_str(), quoted(key.p, n).c_str());
    check(c, t, key);
}
// texts whose length agrees with the key length modulo 2^32 only, not under AddressSanitizer
static void huge(Ctx& c) {
    const size_t kl = 5 + c.below(60), n = (1ull << 32) + kl;
    uint8_t* t = sparse(n + 1);
    if (!t) { c.label("sparse memory refused"); return; }
    memset(t, 'B', n);
    alive();
    Buf k(c, kl);
    memset(k.p, 'c', kl);
    auto refused = [&](const char* what, size_t len, int32_t key_length) {
        bool e = VernamCipher_encrypt((char*)t, (const char*)k.p, key_length);
        alive();
        bool d = VernamCipher_decrypt((char*)t, (const char*)k.p, key_length);
        alive();
        if (e || d) { c.fail("%s of %zu characters with key length %d succeeded", what, len, key_length); }
        for (size_t i = 0; i < 200; ++i) {
            if (t[i] != 'B') { c.fail("a refused text of %zu characters was changed", len); }
        }
        checkGuards(c, "refused text");
    };
    refused("text", n, (int32_t)kl);
    t[(1ull << 32) - 7] = 0;
    refused("text", (1ull << 32) - 7, -7);
    t[1ull << 31] = 0;
    refused("text", 1ull << 31, INT32_MIN);
    sparseFree(t, n + 1);
}
// the longest texts a key length can name: one character and one key letter, but for some places
static void longest(Ctx& c, bool decrypt) {
    const size_t n = (1ull << 31) - 1 - c.below(100);
    Room room(c, n);
    if (!room) { return; }
    patience(900);
    Giant t(n + 1, 'B'), key(n, 'c');
    if (!t.p || !key.p) { return; }
    t.p[n] = 0;
    std::vector<size_t> at = places(c, n, 20);
    std::vector<uint8_t> was;
    for (size_t a : at) {
        key.p[a] = (uint8_t)('a' + c.below(26));
        was.push_back((uint8_t)((c.flag() ? 'a' : 'A') + c.below(26)));
        t.p[a] = was.back();
    }
    int dir = decrypt ? -1 : 1;
    bool ok = decrypt ? VernamCipher_decrypt((char*)t.p, (const char*)key.p, (int32_t)n) : VernamCipher_encrypt((char*)t.p, (const char*)key.p, (int32_t)n);
    alive();
    if (!ok) { c.fail("a text of %zu characters was refused with a key of its length", n); }
    size_t pos = 0;
    for (size_t i = 0; i < at.size(); ++i) {
        expectAll(c, "transformed text", t.p, pos, at[i], ref::shiftLetter('B', dir * 2));
        uint8_t want = ref::shiftLetter(was[i], dir * (key.p[at[i]] - 'a'));
        if (t.p[at[i]] != want) { c.fail("a text of %zu characters: '%c' at %zu with key '%c' became %02x, expected '%c'", n, was[i], at[i], key.p[at[i]], t.p[at[i]], want); }
        pos = at[i] + 1;
    }
    if (t.p[n] != 0) { c.fail("the terminator was changed"); }
}
#if defined(IM_ASAN) || defined(IM_NO_GIANTS)
static const uint64_t HUGE_CASES = 0;
#else
static const uint64_t HUGE_CASES = 2;
#endif
uint64_t enumCount(bool thorough) { return HUGE_CASES + 256 + (thorough ? 200 : 16); }
void enumCase(Ctx& c, uint64_t i, bool) {
    if (i < HUGE_CASES) {
        c.nontrivial();
        c.distinctKey((i + 1) << 60);
        if (i) {
            c.label("enum:text of nearly 2^31 characters");
            longest(c, c.flag());
            return;
        }
        c.label("enum:text of more than 2^32 characters");
        huge(c);
        return;
    }
    i -= HUGE_CASES;
    if (i >= 256) {
        c.label("enum:around and beyond 65536 characters");
        c.nontrivial();
        c.distinctKey(i << 40);
        size_t n = bigSize(c, i - 256);
        Buf t(c, n + 1), k(c, n);
        c.fillRandom(t.p, n);
        c.fillRandom(k.p, n);
        style((unsigned)c.below(4), t.p, n);
        style((unsigned)c.below(4), k.p, n);
        for (size_t x = 0; x < n; ++x) {
            if (t[x] == 0) { t[x] = 'm'; }
        }
        t[n] = 0;
        check(c, t, k);
        // lengths that agree only modulo 2^16 or 2^8
        auto before = t.copy();
        for (int64_t d : {-65536, 65536, -256, 256, -32768, 32768}) {
            int64_t kl = (int64_t)n + d;
            if (kl < 0 || kl > (int64_t)n) { continue; }
            if (VernamCipher_encrypt((char*)t.p, (const char*)k.p, (int32_t)kl) || VernamCipher_decrypt((char*)t.p, (const char*)k.p, (int32_t)kl)) {
                c.fail("a text of %zu characters was accepted with key length %lld", n, (long long)kl);
            }
            expectSame(c, "text after refusal", t, before);
        }
        return;
    }
    c.label("enum:every character x every key byte");
    c.nontrivial();
    Buf t(c, 256, 0), k(c, 255, 0), t1(c, 2, 0), k1(c, 1, 0);
    for (unsigned x = 1; x < 256; ++x) {
        t[x - 1] = (uint8_t)x;
        k[x - 1] = (uint8_t)i;
        t1[0] = (uint8_t)x;
        t1[1] = 0;
        k1[0] = (uint8_t)i;
        check(c, t1, k1);
        c.distinctKey(i << 8 | x);
    }
    t[255] = 0;
    check(c, t, k);
    c.evals(256);
}
}  // namespace im
