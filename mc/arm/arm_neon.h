// A software arm_neon.h: the aarch64 intrinsics the library uses, computed lane by lane, so that its NEON block primitives run here.
// Build with -U__SSE2__ -D__ARM_NEON -D__arm64__ -DMEOJSON_ENABLE_NEON -flax-vector-conversions (as clang does by default on ARM).
#pragma once
#include <cstdint>
#include <cstring>

typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint16_t uint16x4_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef uint64_t uint64x1_t __attribute__((vector_size(8)));
typedef int8_t int8x16_t __attribute__((vector_size(16)));

#define MC_NEON static inline __attribute__((always_inline, unused))
namespace mc_neon
{
template <typename V, typename W, typename F>
MC_NEON V zip(W a, W b, F f)
{
    V r {};
    for (unsigned i = 0; i < sizeof(V) / sizeof(r[0]); ++i) r[i] = f(a[i], b[i]);
    return r;
}
template <typename To, typename From>
MC_NEON To bits(From x)
{
    static_assert(sizeof(To) == sizeof(From));
    To r;
    memcpy(&r, &x, sizeof r);
    return r;
}
}

MC_NEON uint8x16_t vld1q_u8(const uint8_t* p) { uint8x16_t r; memcpy(&r, p, 16); return r; }
MC_NEON void vst1q_u8(uint8_t* p, uint8x16_t v) { memcpy(p, &v, 16); }
MC_NEON uint8x16_t vdupq_n_u8(uint8_t n) { uint8x16_t r {}; for (int i = 0; i < 16; ++i) r[i] = n; return r; }
MC_NEON uint8x16_t vmovq_n_u8(uint8_t n) { return vdupq_n_u8(n); }
#define MC_NEON_CMP(NAME, OP) MC_NEON uint8x16_t NAME(uint8x16_t a, uint8x16_t b) { return mc_neon::zip<uint8x16_t>(a, b, [](uint8_t x, uint8_t y) { return uint8_t(x OP y ? 255 : 0); }); }
MC_NEON_CMP(vcltq_u8, <)
MC_NEON_CMP(vcleq_u8, <=)
MC_NEON_CMP(vcgtq_u8, >)
MC_NEON_CMP(vcgeq_u8, >=)
MC_NEON_CMP(vceqq_u8, ==)
#define MC_NEON_OP(NAME, OP) MC_NEON uint8x16_t NAME(uint8x16_t a, uint8x16_t b) { return mc_neon::zip<uint8x16_t>(a, b, [](uint8_t x, uint8_t y) { return uint8_t(x OP y); }); }
MC_NEON_OP(vorrq_u8, |)
MC_NEON_OP(vandq_u8, &)
MC_NEON_OP(veorq_u8, ^)
MC_NEON_OP(vaddq_u8, +)
MC_NEON_OP(vsubq_u8, -)
MC_NEON uint8x16_t vmvnq_u8(uint8x16_t a) { return ~a; }
MC_NEON uint8x16_t vminq_u8(uint8x16_t a, uint8x16_t b) { return mc_neon::zip<uint8x16_t>(a, b, [](uint8_t x, uint8_t y) { return x < y ? x : y; }); }
MC_NEON uint8x16_t vmaxq_u8(uint8x16_t a, uint8x16_t b) { return mc_neon::zip<uint8x16_t>(a, b, [](uint8_t x, uint8_t y) { return x > y ? x : y; }); }
MC_NEON uint8_t vmaxvq_u8(uint8x16_t a) { uint8_t r = 0; for (int i = 0; i < 16; ++i) r = a[i] > r ? a[i] : r; return r; }
MC_NEON uint8_t vminvq_u8(uint8x16_t a) { uint8_t r = 255; for (int i = 0; i < 16; ++i) r = a[i] < r ? a[i] : r; return r; }
MC_NEON uint32_t vmaxvq_u32(uint32x4_t a) { uint32_t r = 0; for (int i = 0; i < 4; ++i) r = a[i] > r ? a[i] : r; return r; }
MC_NEON uint8x8_t vshrn_n_u16(uint16x8_t a, int n) { uint8x8_t r {}; for (int i = 0; i < 8; ++i) r[i] = uint8_t(a[i] >> n); return r; }
MC_NEON uint16x8_t vreinterpretq_u16_u8(uint8x16_t a) { return mc_neon::bits<uint16x8_t>(a); }
MC_NEON uint32x4_t vreinterpretq_u32_u8(uint8x16_t a) { return mc_neon::bits<uint32x4_t>(a); }
MC_NEON uint64x2_t vreinterpretq_u64_u8(uint8x16_t a) { return mc_neon::bits<uint64x2_t>(a); }
MC_NEON uint64x1_t vreinterpret_u64_u8(uint8x8_t a) { return mc_neon::bits<uint64x1_t>(a); }
MC_NEON uint32x2_t vreinterpret_u32_u8(uint8x8_t a) { return mc_neon::bits<uint32x2_t>(a); }
MC_NEON uint8x8_t vget_low_u8(uint8x16_t a) { uint8x8_t r; memcpy(&r, &a, 8); return r; }
MC_NEON uint8x8_t vget_high_u8(uint8x16_t a) { uint8x8_t r; memcpy(&r, reinterpret_cast<const char*>(&a) + 8, 8); return r; }
MC_NEON uint64x1_t vget_low_u64(uint64x2_t a) { return uint64x1_t { a[0] }; }
MC_NEON uint64x1_t vget_high_u64(uint64x2_t a) { return uint64x1_t { a[1] }; }
MC_NEON uint64x1_t vorr_u64(uint64x1_t a, uint64x1_t b) { return a | b; }
#define vget_lane_u64(v, i) (uint64_t((v)[i]))
#define vget_lane_u32(v, i) (uint32_t((v)[i]))
#define vget_lane_u8(v, i) (uint8_t((v)[i]))
#define vgetq_lane_u64(v, i) (uint64_t((v)[i]))
#define vgetq_lane_u32(v, i) (uint32_t((v)[i]))
#define vgetq_lane_u8(v, i) (uint8_t((v)[i]))
