// Software model of the NEON intrinsics nova-simd uses, so that vec/vec_neon.hpp can be executed on the
// sandbox's x86 host (build configuration g-neon).  Lane order and semantics follow the Arm C Language
// Extensions; estimates (vrecpe, vrsqrte) carry 8 significant bits as on the hardware.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
typedef float float32_t;
typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
#define NEON_FN static inline __attribute__((always_inline, unused))

NEON_FN float32x4_t vdupq_n_f32(float v) { return (float32x4_t){v, v, v, v}; }
NEON_FN uint32x4_t vdupq_n_u32(uint32_t v) { return (uint32x4_t){v, v, v, v}; }
NEON_FN int32x4_t vdupq_n_s32(int32_t v) { return (int32x4_t){v, v, v, v}; }
NEON_FN float32x4_t vsetq_lane_f32(float v, float32x4_t a, int i) { a[i] = v; return a; }
NEON_FN float vgetq_lane_f32(float32x4_t a, int i) { return a[i]; }
NEON_FN float vget_lane_f32(float32x2_t a, int i) { return a[i]; }
NEON_FN float32x2_t vget_low_f32(float32x4_t a) { return (float32x2_t){a[0], a[1]}; }
NEON_FN float32x2_t vget_high_f32(float32x4_t a) { return (float32x2_t){a[2], a[3]}; }
NEON_FN float32x4_t vld1q_f32(const float* p) { float32x4_t r; memcpy(&r, p, 16); return r; }
NEON_FN void vst1q_f32(float* p, float32x4_t a) { memcpy(p, &a, 16); }

NEON_FN uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return (uint32x4_t)a; }
NEON_FN uint32x4_t vreinterpretq_u32_s32(int32x4_t a) { return (uint32x4_t)a; }
NEON_FN int32x4_t vreinterpretq_s32_u32(uint32x4_t a) { return (int32x4_t)a; }
NEON_FN float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return (float32x4_t)a; }

NEON_FN float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
NEON_FN float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
NEON_FN float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
NEON_FN float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t p = b * c; return a + p; }
NEON_FN float32x4_t vabsq_f32(float32x4_t a) { return (float32x4_t)((uint32x4_t)a & vdupq_n_u32(0x7fffffffu)); }
NEON_FN float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] != a[i] || b[i] != b[i] ? NAN : a[i] > b[i] ? a[i] : b[i]; return r; }
NEON_FN float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] != a[i] || b[i] != b[i] ? NAN : a[i] < b[i] ? a[i] : b[i]; return r; }
NEON_FN float32x2_t vmax_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
NEON_FN float32x2_t vmin_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
NEON_FN float32x2_t vpadd_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){a[0] + a[1], b[0] + b[1]}; }

NEON_FN float neon_estimate(double v)
{
    if (!std::isfinite(v) || v == 0) return (float)v;
    int e; double m = std::frexp(v, &e);
    return (float)std::ldexp((std::floor(std::fabs(m) * 512) + 0.5) / 512 * (m < 0 ? -1 : 1), e);
}
NEON_FN float32x4_t vrecpeq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = neon_estimate(1.0 / a[i]); return r; }
NEON_FN float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b) { return vdupq_n_f32(2.f) - a * b; }
NEON_FN float32x4_t vrsqrteq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = neon_estimate(1.0 / std::sqrt((double)a[i])); return r; }
NEON_FN float32x4_t vrsqrtsq_f32(float32x4_t a, float32x4_t b) { return (vdupq_n_f32(3.f) - a * b) * vdupq_n_f32(0.5f); }

NEON_FN uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a < b); }
NEON_FN uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a <= b); }
NEON_FN uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a > b); }
NEON_FN uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a >= b); }
NEON_FN uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a == b); }
NEON_FN uint32x4_t vcltq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a < b); }
NEON_FN uint32x4_t vcgtq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a > b); }
NEON_FN uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a == b); }
NEON_FN uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
NEON_FN uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
NEON_FN uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
NEON_FN uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
NEON_FN uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
NEON_FN float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return (float32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
NEON_FN uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) { return a + b; }
NEON_FN uint32x4_t vsubq_u32(uint32x4_t a, uint32x4_t b) { return a - b; }
NEON_FN uint32x4_t vshlq_u32(uint32x4_t a, int32x4_t n)
{
    uint32x4_t r;
    for (int i = 0; i < 4; ++i) { int s = (int8_t)n[i]; r[i] = s >= 32 || s <= -32 ? 0 : s >= 0 ? a[i] << s : a[i] >> -s; }
    return r;
}
NEON_FN float32x4_t vcvtq_f32_s32(int32x4_t a) { float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (float)a[i]; return r; }
NEON_FN int32x4_t vcvtq_s32_f32(float32x4_t a)
{
    int32x4_t r;
    for (int i = 0; i < 4; ++i) r[i] = a[i] != a[i] ? 0 : a[i] >= 2147483648.f ? INT32_MAX : a[i] <= -2147483648.f ? INT32_MIN : (int32_t)a[i];
    return r;
}
