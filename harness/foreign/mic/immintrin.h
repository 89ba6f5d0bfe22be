// Stand-in for Intel's header for Knights Corner ("MIC"): the intrinsics with
// their documented meaning (Intel Xeon Phi Coprocessor Instruction Set
// Reference).
#ifndef VERIF_MIC_IMMINTRIN_H
#define VERIF_MIC_IMMINTRIN_H
#include <math.h>
#include <string.h>
#include "../misaligned.h"

struct alignas(64) __m512d { double v[8]; };
struct alignas(64) __m512 { float v[16]; };
struct alignas(64) __m512i { int v[16]; };
#define VERIF_MIC static inline __attribute__((unused))
#define VERIF_MIC_1(NAME, V, N, EXPR) VERIF_MIC V NAME(V a) { V r; for (int i = 0; i < N; ++i) { auto x = a.v[i]; r.v[i] = EXPR; } return r; }
#define VERIF_MIC_2(NAME, V, N, EXPR) VERIF_MIC V NAME(V a, V b) { V r; for (int i = 0; i < N; ++i) { auto x = a.v[i]; auto y = b.v[i]; r.v[i] = EXPR; } return r; }
VERIF_MIC_2(_mm512_add_pd, __m512d, 8, x + y)
VERIF_MIC_2(_mm512_sub_pd, __m512d, 8, x - y)
VERIF_MIC_2(_mm512_mul_pd, __m512d, 8, x * y)
VERIF_MIC_2(_mm512_div_pd, __m512d, 8, x / y)
VERIF_MIC_1(_mm512_sqrt_pd, __m512d, 8, sqrt(x))
VERIF_MIC_1(_mm512_invsqrt_pd, __m512d, 8, 1 / sqrt(x))
VERIF_MIC_2(_mm512_add_ps, __m512, 16, x + y)
VERIF_MIC_2(_mm512_sub_ps, __m512, 16, x - y)
VERIF_MIC_2(_mm512_mul_ps, __m512, 16, x * y)
VERIF_MIC_2(_mm512_div_ps, __m512, 16, x / y)
VERIF_MIC_1(_mm512_sqrt_ps, __m512, 16, sqrtf(x))
VERIF_MIC_1(_mm512_invsqrt_ps, __m512, 16, 1 / sqrtf(x))
// 23 bits; denormal results are flushed
VERIF_MIC float verif_mic_23(double d)
{
    float f = float(d);
    unsigned u;
    memcpy(&u, &f, 4);
    if ((u & 0x7f800000u) == 0) u &= 0x80000000u;
    else if ((u & 0x7f800000u) != 0x7f800000u) u &= ~1u;
    memcpy(&f, &u, 4);
    return f;
}
VERIF_MIC_1(_mm512_rcp23_ps, __m512, 16, verif_mic_23(1 / double(x)))
VERIF_MIC_1(_mm512_rsqrt23_ps, __m512, 16, verif_mic_23(1 / sqrt(double(x))))
VERIF_MIC __m512d _mm512_set1_pd(double x) { __m512d r; for (int i = 0; i < 8; ++i) r.v[i] = x; return r; }
VERIF_MIC __m512 _mm512_set1_ps(float x) { __m512 r; for (int i = 0; i < 16; ++i) r.v[i] = x; return r; }
VERIF_MIC __m512d _mm512_setzero_pd() { return _mm512_set1_pd(0); }
VERIF_MIC __m512 _mm512_setzero_ps() { return _mm512_set1_ps(0); }
VERIF_MIC __m512i _mm512_setzero_epi32() { __m512i r; for (int i = 0; i < 16; ++i) r.v[i] = 0; return r; }
VERIF_MIC __m512i _mm512_undefined_epi32() { return _mm512_setzero_epi32(); }

// aligned accesses
#define VERIF_MIC_LDST(SUFFIX, V, E)                                    \
    VERIF_MIC V _mm512_load_##SUFFIX(const void *p) { verif_aligned(p, 64, "_mm512_load_" #SUFFIX); V r; memcpy(&r, p, 64); return r; } \
    VERIF_MIC void _mm512_store_##SUFFIX(void *p, V v) { verif_aligned(p, 64, "_mm512_store_" #SUFFIX); memcpy(p, &v, 64); } \
    VERIF_MIC void _mm512_storenr_##SUFFIX(void *p, V v) { verif_aligned(p, 64, "_mm512_storenr_" #SUFFIX); memcpy(p, &v, 64); } \
    VERIF_MIC void _mm512_storenrngo_##SUFFIX(void *p, V v) { _mm512_storenr_##SUFFIX(p, v); } \
    /* the elements from p to the end of its 64-byte line go to the lowest lanes */ \
    VERIF_MIC V _mm512_loadunpacklo_##SUFFIX(V v, const void *p)        \
    {                                                                   \
        verif_aligned(p, sizeof(E), "_mm512_loadunpacklo_" #SUFFIX);    \
        unsigned n = (64 - (uintptr_t)p % 64) / sizeof(E);              \
        memcpy(v.v, p, n * sizeof(E));                                  \
        return v;                                                       \
    }                                                                   \
    /* the elements at the start of p's line, up to p, go to the highest lanes */ \
    VERIF_MIC V _mm512_loadunpackhi_##SUFFIX(V v, const void *p)        \
    {                                                                   \
        verif_aligned(p, sizeof(E), "_mm512_loadunpackhi_" #SUFFIX);    \
        unsigned n = (uintptr_t)p % 64 / sizeof(E), lanes = 64 / sizeof(E); \
        memcpy(v.v + lanes - n, (const char *)p - n * sizeof(E), n * sizeof(E)); \
        return v;                                                       \
    }                                                                   \
    VERIF_MIC void _mm512_packstorelo_##SUFFIX(void *p, V v)            \
    {                                                                   \
        verif_aligned(p, sizeof(E), "_mm512_packstorelo_" #SUFFIX);     \
        unsigned n = (64 - (uintptr_t)p % 64) / sizeof(E);              \
        memcpy(p, v.v, n * sizeof(E));                                  \
    }                                                                   \
    VERIF_MIC void _mm512_packstorehi_##SUFFIX(void *p, V v)            \
    {                                                                   \
        verif_aligned(p, sizeof(E), "_mm512_packstorehi_" #SUFFIX);     \
        unsigned n = (uintptr_t)p % 64 / sizeof(E), lanes = 64 / sizeof(E); \
        memcpy((char *)p - n * sizeof(E), v.v + lanes - n, n * sizeof(E)); \
    }
VERIF_MIC_LDST(pd, __m512d, double)
VERIF_MIC_LDST(ps, __m512, float)
VERIF_MIC_LDST(epi32, __m512i, int)

VERIF_MIC __m512d _mm512_i32logather_pd(__m512i x, const void *p, int scale) { __m512d r; for (int i = 0; i < 8; ++i) memcpy(&r.v[i], (const char *)p + long(x.v[i]) * scale, 8); return r; }
VERIF_MIC void _mm512_i32loscatter_pd(void *p, __m512i x, __m512d v, int scale) { for (int i = 0; i < 8; ++i) memcpy((char *)p + long(x.v[i]) * scale, &v.v[i], 8); }
VERIF_MIC __m512 _mm512_i32gather_ps(__m512i x, const void *p, int scale) { __m512 r; for (int i = 0; i < 16; ++i) memcpy(&r.v[i], (const char *)p + long(x.v[i]) * scale, 4); return r; }
VERIF_MIC void _mm512_i32scatter_ps(void *p, __m512i x, __m512 v, int scale) { for (int i = 0; i < 16; ++i) memcpy((char *)p + long(x.v[i]) * scale, &v.v[i], 4); }

// letters name the source of the lanes 3..0
enum _MM_PERM_ENUM {
    _MM_PERM_AAAA = 0x00, _MM_PERM_ABCD = 0x1b, _MM_PERM_BADC = 0x4e, _MM_PERM_CDAB = 0xb1, _MM_PERM_DCBA = 0xe4,
    _MM_PERM_BABA = 0x44, _MM_PERM_DCDC = 0xee, _MM_PERM_BBBB = 0x55, _MM_PERM_CCCC = 0xaa, _MM_PERM_DDDD = 0xff
};
VERIF_MIC __m512i _mm512_permute4f128_epi32(__m512i a, _MM_PERM_ENUM p)
{
    __m512i r;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.v[4 * i + j] = a.v[4 * (p >> (2 * i) & 3) + j];
    return r;
}
#endif
