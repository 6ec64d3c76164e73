// C28: xxHash. Reference implementations of XXH32 and XXH64 written from the specification; XXH3 (an
// early, non-final revision here) is checked for internal agreement: vector variants, alignment, streaming.
#include "engine.hpp"
#include "sut_xxh.hpp"
#include <cinttypes>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
namespace
{
// ---- reference
uint32_t rotl32(uint32_t x, int r) { return x << r | x >> (32 - r); }
uint64_t rotl64(uint64_t x, int r) { return x << r | x >> (64 - r); }
uint32_t le32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
uint64_t le64(const uint8_t *p) { return le32(p) | (uint64_t)le32(p + 4) << 32; }
const uint32_t P32[6] = {0, 2654435761u, 2246822519u, 3266489917u, 668265263u, 374761393u};
const uint64_t P64[6] = {0, 11400714785074694791ull, 14029467366897019727ull, 1609587929392839161ull, 9650029242287828579ull, 2870177450012600261ull};
uint32_t ref32(const uint8_t *p, size_t n, uint32_t seed)
{
    size_t i = 0;
    uint32_t h;
    if (n >= 16)
    {
        uint32_t a[4] = {seed + P32[1] + P32[2], seed + P32[2], seed, seed - P32[1]};
        for (; i + 16 <= n; i += 16)
            for (int l = 0; l < 4; ++l) a[l] = rotl32(a[l] + le32(p + i + 4 * l) * P32[2], 13) * P32[1];
        h = rotl32(a[0], 1) + rotl32(a[1], 7) + rotl32(a[2], 12) + rotl32(a[3], 18);
    }
    else h = seed + P32[5];
    h += (uint32_t)n;
    for (; i + 4 <= n; i += 4) h = rotl32(h + le32(p + i) * P32[3], 17) * P32[4];
    for (; i < n; ++i) h = rotl32(h + p[i] * P32[5], 11) * P32[1];
    h ^= h >> 15; h *= P32[2]; h ^= h >> 13; h *= P32[3]; h ^= h >> 16;
    return h;
}
uint64_t rnd64(uint64_t acc, uint64_t v) { return rotl64(acc + v * P64[2], 31) * P64[1]; }
uint64_t ref64(const uint8_t *p, size_t n, uint64_t seed)
{
    size_t i = 0;
    uint64_t h;
    if (n >= 32)
    {
        uint64_t a[4] = {seed + P64[1] + P64[2], seed + P64[2], seed, seed - P64[1]};
        for (; i + 32 <= n; i += 32)
            for (int l = 0; l < 4; ++l) a[l] = rnd64(a[l], le64(p + i + 8 * l));
        h = rotl64(a[0], 1) + rotl64(a[1], 7) + rotl64(a[2], 12) + rotl64(a[3], 18);
        for (int l = 0; l < 4; ++l) h = (h ^ rnd64(0, a[l])) * P64[1] + P64[4];
    }
    else h = seed + P64[5];
    h += n;
    for (; i + 8 <= n; i += 8) h = rotl64(h ^ rnd64(0, le64(p + i)), 27) * P64[1] + P64[4];
    for (; i + 4 <= n; i += 4) h = rotl64(h ^ le32(p + i) * P64[1], 23) * P64[2] + P64[3];
    for (; i < n; ++i) h = rotl64(h ^ p[i] * P64[5], 11) * P64[1];
    h ^= h >> 33; h *= P64[2]; h ^= h >> 29; h *= P64[3]; h ^= h >> 32;
    return h;
}
uint64_t ref(int bits, const uint8_t *p, size_t n, uint64_t seed) { return bits == 32 ? ref32(p, n, (uint32_t)seed) : ref64(p, n, seed); }

// ---- inputs between two inaccessible pages, so that any read outside the input faults
struct Buf
{
    uint8_t *lo; size_t cap;
    Buf() : cap(1 << 18)
    {
        lo = (uint8_t *)mmap(nullptr, cap + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (lo == MAP_FAILED) _exit(3);
        mprotect(lo + 4096, cap, PROT_READ | PROT_WRITE);
        lo += 4096;
    }
} *buf;
size_t gen_len(eng::Src &s, size_t big)
{
    switch (s.below(6))
    {
    case 0: return s.below(40);
    case 1: return s.below(300);
    case 2: { static const uint32_t b[] = {4, 8, 16, 32, 64, 128, 240, 256, 512, 1024, 2048, 4096}; int64_t v = (int64_t)s.pick(b) * (1 + s.below(3)) + (int64_t)s.below(5) - 2; return v < 0 ? 0 : v; }
    case 3: return s.below(2000);
    case 4: return 64 * s.below(40) + s.below(2);
    default: return s.below(big);
    }
}
uint64_t gen_seed(eng::Src &s)
{
    switch (s.below(4))
    {
    case 0: return 0;
    case 1: return s.below(4);
    case 2: return ~0ull - s.below(3);
    default: return s.bits64();
    }
}
// fills n bytes at an offset so that the input ends (or starts) next to an inaccessible page or anywhere
uint8_t *gen_input(eng::Src &s, size_t n)
{
    if (!buf) buf = new Buf;
    uint8_t *p;
    switch (s.below(3))
    {
    case 0: p = buf->lo + buf->cap - n; break;
    case 1: p = buf->lo; break;
    default: p = buf->lo + 64 + s.below(64); break;
    }
    int how = s.below(4);
    uint64_t st = s.bits64();
    for (size_t i = 0; i < n; ++i)
    {
        if (how == 0) p[i] = eng::splitmix(st);
        else if (how == 1) p[i] = 0;
        else if (how == 2) p[i] = 0xff;
        else p[i] = i * (st & 0xff) + (st >> 8);
    }
    if (how && n && s.chance(1, 2)) p[s.below(n)] ^= 1 << s.below(8);
    eng::desc("len=%zu align=%zu fill=%d ", n, (size_t)p & 63, how);
    return p;
}
void nz(size_t n, size_t limit) { if (n >= limit) eng::mark_nontrivial(); }
void oneshot(eng::Src &s)
{
    size_t n = gen_len(s, 100000);
    uint64_t seed = gen_seed(s);
    uint8_t *p = gen_input(s, n);
    int how = s.below(6);
    int bits = s.chance(1, 2) ? 32 : 64;
    if (bits == 32) seed = (uint32_t)seed;
    eng::desc("XXH%d seed=0x%" PRIx64 " through %s\n", bits, seed, (const char *[]){"pointer", "string", "vector", "iterators", "vector of words", "reset state"}[how]);
    if (n == 0 && how == 3) how = 0;
    uint64_t g = sutx::v_plain::one(bits, p, n, seed, how), e = ref(bits, p, how == 4 ? n / 4 * 4 : n, seed);
    if (g != e) eng::fail("value", "XXH%d of %zu bytes, seed 0x%" PRIx64 " is 0x%" PRIx64 ", the specification says 0x%" PRIx64, bits, n, seed, g, e);
    g = sutx::v_avx2::one(bits, p, n, seed, how);
    if (g != e) eng::fail("value", "XXH%d (AVX2 build) of %zu bytes, seed 0x%" PRIx64 " is 0x%" PRIx64 ", the specification says 0x%" PRIx64, bits, n, seed, g, e);
    nz(n, bits / 2);
    eng::label(n < (size_t)bits / 2 ? "short" : "striped");
}
std::vector<sutx::Piece> gen_pieces(eng::Src &s, size_t n)
{
    std::vector<sutx::Piece> v;
    size_t left = n;
    bool copies = s.chance(1, 3);
    int style = s.below(4);
    while (left && v.size() < 60)
    {
        size_t l;
        switch (style)
        {
        case 0: l = s.below(40); break;
        case 1: l = s.below(left + 1); break;
        case 2: { static const uint32_t b[] = {1, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 512}; l = s.pick(b); break; }
        default: l = gen_len(s, 3000); break;
        }
        if (l > left) l = left;
        sutx::Piece pc{(uint32_t)l, (uint8_t)s.weighted({5, 1, 1, 1}), 0};
        pc.then = copies ? s.weighted({4, 1, 1, 1}) : s.chance(1, 5);
        v.push_back(pc);
        left -= l;
    }
    if (left) v.push_back({(uint32_t)left, 0, 0});
    return v;
}
void dpieces(const std::vector<sutx::Piece> &v)
{
    eng::desc("pieces:");
    for (auto &p : v) eng::desc(" %u%s", p.len, p.then == 1 ? "(digest)" : p.then == 2 ? "(copy)" : p.then == 3 ? "(assign)" : "");
    eng::desc("\n");
}
void streaming(eng::Src &s)
{
    size_t n = gen_len(s, 20000);
    uint64_t seed = gen_seed(s);
    int bits = s.chance(1, 2) ? 32 : 64;
    if (bits == 32) seed = (uint32_t)seed;
    uint8_t *p = gen_input(s, n);
    auto v = gen_pieces(s, n);
    eng::desc("XXH%d seed=0x%" PRIx64 " ", bits, seed);
    dpieces(v);
    std::vector<uint64_t> mid(v.size() + 1, 0);
    uint64_t g = sutx::v_plain::pieces(bits, p, v.data(), v.size(), seed, mid.data()), e = ref(bits, p, n, seed);
    if (g != e) eng::fail("stream", "XXH%d fed in %zu pieces (%zu bytes) is 0x%" PRIx64 ", the specification says 0x%" PRIx64, bits, v.size(), n, g, e);
    size_t at = 0;
    for (size_t i = 0; i < v.size(); ++i)
    {
        at += v[i].len;
        if (v[i].then == 1 && mid[i] != (e = ref(bits, p, at, seed)))
            eng::fail("stream", "XXH%d digest after %zu bytes (%zu pieces) is 0x%" PRIx64 ", the specification says 0x%" PRIx64, bits, at, i + 1, mid[i], e);
    }
    if (v.size() >= 2 && n >= (size_t)bits / 2) eng::mark_nontrivial();
}
void streaming3(eng::Src &s)
{
    size_t n = gen_len(s, 20000);
    uint64_t seed = gen_seed(s);
    int bits = s.chance(1, 2) ? 64 : 128;
    static uint8_t sec[300];
    const void *secret = nullptr; size_t ss = 0;
    if (s.chance(1, 4))
    {
        ss = s.chance(1, 2) ? 192 : 136 + s.below(150);
        uint64_t st = s.bits64();
        for (auto &b : sec) b = eng::splitmix(st);
        secret = sec; seed = 0;
    }
    uint8_t *p = gen_input(s, n);
    auto v = gen_pieces(s, n);
    eng::desc("XXH3-%d seed=0x%" PRIx64 " secret=%zu ", bits, seed, ss);
    dpieces(v);
    auto e = sutx::v_scalar::one3(bits, p, n, seed, secret, ss);
    auto a = sutx::v_plain::one3(bits, p, n, seed, secret, ss);
    if (!(a == e)) eng::fail("vector", "XXH3 of %zu bytes differs between the SSE2 and the portable build: 0x%" PRIx64 " 0x%" PRIx64, n, a.lo, e.lo);
    a = sutx::v_avx2::one3(bits, p, n, seed, secret, ss);
    if (!(a == e)) eng::fail("vector", "XXH3 of %zu bytes differs between the AVX2 and the portable build: 0x%" PRIx64 " 0x%" PRIx64, n, a.lo, e.lo);
    // alignment
    std::vector<uint8_t> al(n + 80);
    uint8_t *q = al.data() + s.below(64);
    memcpy(q, p, n);
    a = sutx::v_plain::one3(bits, q, n, seed, secret, ss);
    if (!(a == e)) eng::fail("align", "XXH3 of %zu bytes depends on the alignment", n);
    auto g = sutx::v_plain::pieces3(bits, p, v.data(), v.size(), seed, secret, ss);
    if (!(g == e)) eng::fail("stream3", "XXH3 (%d bits) fed in %zu pieces (%zu bytes) is 0x%" PRIx64 ", one-shot 0x%" PRIx64, bits, v.size(), n, g.lo, e.lo);
    if (v.size() >= 2 && n > 240) eng::mark_nontrivial();
}
void small(eng::Src &s)
{
    uint64_t k = s.chance(1, 2) ? s.bits64() : s.below(100);
    eng::desc("word 0x%" PRIx64 "\n", k);
    if (sutx::v_plain::functor(k) != ref64((uint8_t *)&k, 8, 0)) eng::fail("functor", "xxhash<size_t>()(0x%" PRIx64 ") is not XXH64 of the word", k);
    int ki = (int)k;
    if (sutx::v_plain::functor_int(ki) != ref64((uint8_t *)&ki, 4, 0)) eng::fail("functor", "xxhash<int>()(%d) is not XXH64 of the word", ki);
    if (sutx::v_plain::naive(k) != k) eng::fail("functor", "NaiveHash()(0x%" PRIx64 ") is not the key", k);
    uint8_t o[16];
    uint64_t r = sutx::v_plain::canon(64, k, o), be = 0;
    for (int i = 0; i < 8; ++i) be = be << 8 | o[i];
    if (r != k || be != k) eng::fail("canonical", "canonical form of 0x%" PRIx64 " is wrong", k);
    uint32_t k32 = (uint32_t)k; be = 0;
    r = sutx::v_plain::canon(32, k32, o);
    for (int i = 0; i < 4; ++i) be = be << 8 | o[i];
    if (r != k32 || be != k32) eng::fail("canonical", "canonical form of the 32-bit 0x%x is wrong", k32);
    sutx::H128 h{k, s.bits64()}, c = sutx::v_plain::canon128(h, o);
    uint64_t bh = 0, bl = 0;
    for (int i = 0; i < 8; ++i) { bh = bh << 8 | o[i]; bl = bl << 8 | o[8 + i]; }
    if (!(c == h) || bh != h.hi || bl != h.lo) eng::fail("canonical", "canonical form of a 128-bit hash is wrong");
    eng::mark_nontrivial();
}
eng::RegProp props[] = {
    {{"C28", "generated inputs (length around every stripe and buffer boundary, alignment, adjacency to unmapped pages, content), seeds, splits into pieces with digests and state copies in between; XXH32/XXH64 against reference implementations written from the specification, XXH3 streaming, alignment and vector variants against its portable one-shot form; non-trivial: the input is long enough to reach the striped loop, and streamed input has at least two pieces", "exploration", {"XXH3 in this repository is revision 0.7.3, older than the final specification: only its internal agreement is checked"}}},
};
eng::RegMode modes[] = {
    {{"C28", "oneshot", oneshot, 4000000, 200000000, 5000}},
    {{"C28", "streaming", streaming, 4000000, 200000000, 5000}},
    {{"C28", "xxh3", streaming3, 4000000, 200000000, 5000}},
    {{"C28", "words", small, 100000, 2000000, 2000}},
};
}
int main(int argc, char **argv) { return eng::driver_main(argc, argv); }
