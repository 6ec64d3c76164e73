// The hash functions of /repo, compiled once per vector mode (VARIANT names the namespace).
#include <array>
#include <string>
#include <vector>
#include "hash.hpp"
#include "sut_xxh.hpp"
namespace
{
template <size_t N, class S> uint64_t run_pieces(const uint8_t *p, const sutx::Piece *pc, size_t n, uint64_t seed, uint64_t *mid)
{
    S *st = new S((decltype(xxh::uint_t<N>()))seed);
    for (size_t i = 0; i < n; ++i)
    {
        switch (pc[i].how)
        {
        case 0: st->update((const void *)p, pc[i].len); break;
        case 1: st->update(std::string((const char *)p, pc[i].len)); break;
        case 2: st->update(std::vector<uint8_t>(p, p + pc[i].len)); break;
        case 3: if (pc[i].len) st->update(p, p + pc[i].len); break;
        }
        p += pc[i].len;
        switch (pc[i].then)
        {
        case 1: if (mid) mid[i] = st->digest(); break;
        case 2: { S *c = new S(*st); memset((void *)st, 0xa5, sizeof *st); delete st; st = c; break; } // go on with a copy
        case 3: { S *c = new S((decltype(xxh::uint_t<N>()))(seed + 1)); *c = *st; memset((void *)st, 0xa5, sizeof *st); delete st; st = c; break; }
        }
    }
    uint64_t r = st->digest();
    if (st->digest() != r) r = ~r;
    delete st;
    return r;
}
template <size_t N> sutx::H128 h3(xxh::hash_t<N> h)
{
    if constexpr (N == 64) return {h, 0}; else return {h.low64, h.high64};
}
template <size_t N> sutx::H128 run3(const uint8_t *p, const sutx::Piece *pc, size_t n, uint64_t seed, const void *secret, size_t ss)
{
    using S = xxh::hash3_state_t<N>;
    S *st = secret ? new S(secret, ss) : new S(seed);
    for (size_t i = 0; i < n; ++i)
    {
        switch (pc[i].how)
        {
        case 0: st->update((const void *)p, pc[i].len); break;
        case 1: st->update(std::string((const char *)p, pc[i].len)); break;
        case 2: st->update(std::vector<uint8_t>(p, p + pc[i].len)); break;
        case 3: if (pc[i].len) st->update(p, p + pc[i].len); break;
        }
        p += pc[i].len;
        switch (pc[i].then)
        {
        case 1: st->digest(); break;
        case 2: { S *c = new S(*st); memset((void *)st, 0xa5, sizeof *st); delete st; st = c; break; }
        case 3: { S *c = new S(seed + 1); *c = *st; memset((void *)st, 0xa5, sizeof *st); delete st; st = c; break; }
        }
    }
    auto r = h3<N>(st->digest());
    delete st;
    return r;
}
}
namespace sutx
{
namespace VARIANT
{
uint64_t one(int bits, const void *p, size_t n, uint64_t seed, int how)
{
    const uint8_t *b = (const uint8_t *)p;
#define ONE(N) \
    switch (how) { \
    case 0: return xxh::xxhash<N>(p, n, seed); \
    case 1: return xxh::xxhash<N>(std::string((const char *)b, n), seed); \
    case 2: return xxh::xxhash<N>(std::vector<uint8_t>(b, b + n), seed); \
    case 3: return xxh::xxhash<N>(b, b + n, seed); \
    case 4: { std::vector<uint32_t> v(n / 4); memcpy(v.data(), b, n / 4 * 4); return xxh::xxhash<N>(v, seed); } \
    default: { xxh::hash_state_t<N> st(seed + 99); st.update((const void *)b, n / 2); st.reset(seed); st.update((const void *)b, n); return st.digest(); } }
    if (bits == 32) { ONE(32) }
    ONE(64)
}
uint64_t pieces(int bits, const void *p, const Piece *pc, size_t n, uint64_t seed, uint64_t *mid)
{
    return bits == 32 ? run_pieces<32, xxh::hash_state_t<32>>((const uint8_t *)p, pc, n, seed, mid)
                      : run_pieces<64, xxh::hash_state_t<64>>((const uint8_t *)p, pc, n, seed, mid);
}
H128 one3(int bits, const void *p, size_t n, uint64_t seed, const void *secret, size_t ss)
{
    if (secret) return bits == 64 ? h3<64>(xxh::xxhash3<64>(p, n, secret, ss)) : h3<128>(xxh::xxhash3<128>(p, n, secret, ss));
    return bits == 64 ? h3<64>(xxh::xxhash3<64>(p, n, seed)) : h3<128>(xxh::xxhash3<128>(p, n, seed));
}
H128 pieces3(int bits, const void *p, const Piece *pc, size_t n, uint64_t seed, const void *secret, size_t ss)
{
    return bits == 64 ? run3<64>((const uint8_t *)p, pc, n, seed, secret, ss) : run3<128>((const uint8_t *)p, pc, n, seed, secret, ss);
}
uint64_t functor(uint64_t k) { return xxhash<size_t>()(k); }
uint64_t functor_int(int k) { return xxhash<int>()(k); }
uint64_t naive(uint64_t k) { return NaiveHash<size_t>()(k); }
uint64_t canon(int bits, uint64_t h, uint8_t *out)
{
    if (bits == 32) { xxh::canonical_t<32> c((uint32_t)h); memcpy(out, c.digest.data(), 4); return c.get_hash(); }
    xxh::canonical_t<64> c(h); memcpy(out, c.digest.data(), 8); return c.get_hash();
}
H128 canon128(H128 h, uint8_t *out)
{
    xxh::hash_t<128> x; x.low64 = h.lo; x.high64 = h.hi;
    xxh::canonical_t<128> c(x); memcpy(out, c.digest.data(), 16);
    auto r = c.get_hash(); return {r.low64, r.high64};
}
}
}
