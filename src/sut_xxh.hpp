#pragma once
#include <cstddef>
#include <cstdint>
namespace sutx
{
struct Piece { uint32_t len; uint8_t how, then; };
struct H128 { uint64_t lo, hi; bool operator==(const H128 &) const = default; };
#define SUTX_DECL(V) \
    namespace V { \
    uint64_t one(int bits, const void *p, size_t n, uint64_t seed, int how); \
    uint64_t pieces(int bits, const void *p, const Piece *pc, size_t n, uint64_t seed, uint64_t *mid); \
    H128 one3(int bits, const void *p, size_t n, uint64_t seed, const void *secret, size_t ss); \
    H128 pieces3(int bits, const void *p, const Piece *pc, size_t n, uint64_t seed, const void *secret, size_t ss); \
    uint64_t functor(uint64_t k); uint64_t functor_int(int k); uint64_t naive(uint64_t k); \
    uint64_t canon(int bits, uint64_t h, uint8_t *out); H128 canon128(H128 h, uint8_t *out); }
SUTX_DECL(v_plain) SUTX_DECL(v_scalar) SUTX_DECL(v_avx2)
}
