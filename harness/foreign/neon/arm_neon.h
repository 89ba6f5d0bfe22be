// Stand-in for ARM's header: the NEON intrinsics on the host, with their
// documented meaning (ARM Architecture Reference Manual; estimates follow its
// pseudocode). Denormals are not flushed.
#ifndef VERIF_ARM_NEON_H
#define VERIF_ARM_NEON_H
#include <stdint.h>
#include <string.h>
#include <math.h>

typedef float float32_t;
typedef float float32x4_t __attribute__((vector_size(16), aligned(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16), aligned(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16), aligned(16)));
typedef float float32x2_t __attribute__((vector_size(8), aligned(8)));

#define VERIF_NEON static inline __attribute__((unused))
VERIF_NEON uint32_t verif_u32(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
VERIF_NEON float verif_f32(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }

// loads and stores need the alignment of the element only
VERIF_NEON float32x4_t vld1q_f32(const float *p) { float32x4_t r; memcpy(&r, p, 16); return r; }
VERIF_NEON void vst1q_f32(float *p, float32x4_t v) { memcpy(p, &v, 16); }
VERIF_NEON uint32x4_t vld1q_u32(const uint32_t *p) { uint32x4_t r; memcpy(&r, p, 16); return r; }
VERIF_NEON void vst1q_u32(uint32_t *p, uint32x4_t v) { memcpy(p, &v, 16); }
VERIF_NEON float32x4_t vdupq_n_f32(float x) { float32x4_t r = {x, x, x, x}; return r; }
VERIF_NEON float32x4_t vmovq_n_f32(float x) { return vdupq_n_f32(x); }
VERIF_NEON uint32x4_t vdupq_n_u32(uint32_t x) { uint32x4_t r = {x, x, x, x}; return r; }
VERIF_NEON uint32x4_t vmovq_n_u32(uint32_t x) { return vdupq_n_u32(x); }
#define vgetq_lane_f32(V, I) ((V)[I])
#define vgetq_lane_u32(V, I) ((V)[I])
VERIF_NEON float32x4_t verif_setq(float x, float32x4_t v, int i) { v[i] = x; return v; }
#define vsetq_lane_f32(X, V, I) verif_setq(X, V, I)
VERIF_NEON float32x4_t vld1q_lane_f32(const float *p, float32x4_t v, int i) { v[i] = *p; return v; }
VERIF_NEON void vst1q_lane_f32(float *p, float32x4_t v, int i) { *p = v[i]; }

VERIF_NEON float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
VERIF_NEON float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
VERIF_NEON float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
VERIF_NEON float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a * vdupq_n_f32(b); }
VERIF_NEON float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t p = b * c; return a + p; }
VERIF_NEON float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t p = b * c; return a - p; }
VERIF_NEON float32x4_t vnegq_f32(float32x4_t a) { return -a; }

VERIF_NEON uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { uint32x4_t r; memcpy(&r, &a, 16); return r; }
VERIF_NEON float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { float32x4_t r; memcpy(&r, &a, 16); return r; }
VERIF_NEON uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
VERIF_NEON uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
VERIF_NEON uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
VERIF_NEON uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
VERIF_NEON uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
VERIF_NEON float32x4_t vabsq_f32(float32x4_t a) { return vreinterpretq_f32_u32(vreinterpretq_u32_f32(a) & 0x7fffffffu); }
VERIF_NEON float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b)
{
    return vreinterpretq_f32_u32((m & vreinterpretq_u32_f32(a)) | (~m & vreinterpretq_u32_f32(b)));
}

VERIF_NEON uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a == b); }
VERIF_NEON uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a == b); }
VERIF_NEON uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a < b); }
VERIF_NEON uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a <= b); }
VERIF_NEON uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a > b); }
VERIF_NEON uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a >= b); }
// "absolute compare": of the magnitudes
VERIF_NEON uint32x4_t vcaleq_f32(float32x4_t a, float32x4_t b) { return vcleq_f32(vabsq_f32(a), vabsq_f32(b)); }
VERIF_NEON uint32x4_t vcageq_f32(float32x4_t a, float32x4_t b) { return vcgeq_f32(vabsq_f32(a), vabsq_f32(b)); }
VERIF_NEON uint32x4_t vcaltq_f32(float32x4_t a, float32x4_t b) { return vcltq_f32(vabsq_f32(a), vabsq_f32(b)); }
VERIF_NEON uint32x4_t vcagtq_f32(float32x4_t a, float32x4_t b) { return vcgtq_f32(vabsq_f32(a), vabsq_f32(b)); }

// FPRecipEstimate / RecipEstimate
VERIF_NEON float verif_recpe(float x)
{
    uint32_t u = verif_u32(x), sign = u & 0x80000000u, exp = u >> 23 & 255, frac = u & 0x7fffffu;
    if (x != x) return verif_f32(0x7fc00000u);
    if (exp == 255) return verif_f32(sign);
    if (exp == 0) return verif_f32(sign | 0x7f800000u);
    if (exp >= 253) return verif_f32(sign);
    uint32_t a = 256 + (frac >> 15);
    a = a * 2 + 1;
    uint32_t b = (1u << 19) / a;
    uint32_t r = (b + 1) / 2;
    return verif_f32(sign | (253 - exp) << 23 | (r & 255) << 15);
}
// FPRSqrtEstimate / RecipSqrtEstimate
VERIF_NEON float verif_rsqrte(float x)
{
    uint32_t u = verif_u32(x), sign = u & 0x80000000u, exp = u >> 23 & 255, frac = u & 0x7fffffu;
    if (x != x) return verif_f32(0x7fc00000u);
    if (exp == 0) return verif_f32(sign | 0x7f800000u);
    if (sign) return verif_f32(0x7fc00000u);
    if (exp == 255) return 0;
    uint32_t a = exp & 1 ? 128 + (frac >> 16) : 256 + (frac >> 15);
    static uint16_t table[512];
    uint32_t r = table[a];
    if (r == 0) {
        uint32_t k = a < 256 ? a * 2 + 1 : (a | 1) * 2;
        uint64_t b = 512;
        while (uint64_t(k) * (b + 1) * (b + 1) < (1u << 28)) ++b;
        table[a] = r = uint32_t(b + 1) / 2;
    }
    return verif_f32((380 - exp) / 2 << 23 | (r & 255) << 15);
}
VERIF_NEON float32x4_t vrecpeq_f32(float32x4_t v) { for (int i = 0; i < 4; ++i) v[i] = verif_recpe(v[i]); return v; }
VERIF_NEON float32x4_t vrsqrteq_f32(float32x4_t v) { for (int i = 0; i < 4; ++i) v[i] = verif_rsqrte(v[i]); return v; }
VERIF_NEON bool verif_inf_zero(float a, float b) { return (a == 0 && isinf(b)) || (isinf(a) && b == 0); }
VERIF_NEON float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b)
{
    for (int i = 0; i < 4; ++i) { float p = a[i] * b[i]; a[i] = verif_inf_zero(a[i], b[i]) ? 2.0f : 2.0f - p; }
    return a;
}
VERIF_NEON float32x4_t vrsqrtsq_f32(float32x4_t a, float32x4_t b)
{
    for (int i = 0; i < 4; ++i) { float p = a[i] * b[i]; a[i] = verif_inf_zero(a[i], b[i]) ? 1.5f : (3.0f - p) / 2; }
    return a;
}
VERIF_NEON float32x4_t vsqrtq_f32(float32x4_t v) { for (int i = 0; i < 4; ++i) v[i] = sqrtf(v[i]); return v; }
VERIF_NEON float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
#endif
