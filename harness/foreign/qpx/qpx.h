// Stand-in for the vector builtins of IBM's XL compilers for Blue Gene/Q, with
// their documented meaning: vec_ld and vec_st truncate the address to a
// multiple of the vector's size, vec_lda and vec_sta need an aligned one.
// vec_swdiv*/vec_swsqrt* are exact, estimates have 14 bits.
#ifndef VERIF_QPX_H
#define VERIF_QPX_H
#include <math.h>
#include <string.h>
#include "../misaligned.h"

struct alignas(32) vector4double { double d[4]; double& operator[](int i) { return d[i]; } double operator[](int i) const { return d[i]; } };
#define VERIF_QPX static inline __attribute__((unused))
#define VERIF_QPX_1(NAME, EXPR) VERIF_QPX vector4double NAME(vector4double a) { vector4double r; for (int i = 0; i < 4; ++i) { double x = a.d[i]; r.d[i] = EXPR; } return r; }
#define VERIF_QPX_2(NAME, EXPR) VERIF_QPX vector4double NAME(vector4double a, vector4double b) { vector4double r; for (int i = 0; i < 4; ++i) { double x = a.d[i], y = b.d[i]; r.d[i] = EXPR; } return r; }
#define VERIF_QPX_3(NAME, EXPR) VERIF_QPX vector4double NAME(vector4double a, vector4double b, vector4double c) { vector4double r; for (int i = 0; i < 4; ++i) { double x = a.d[i], y = b.d[i], z = c.d[i]; r.d[i] = EXPR; } return r; }

VERIF_QPX double verif_estimate(double x)
{
    // 14 bits of the significand
    if (!isfinite(x) || x == 0) return x;
    unsigned long long u;
    memcpy(&u, &x, 8);
    u &= ~((1ull << 38) - 1);
    memcpy(&x, &u, 8);
    return x;
}
VERIF_QPX_2(vec_add, x + y)
VERIF_QPX_2(vec_sub, x - y)
VERIF_QPX_2(vec_mul, x * y)
VERIF_QPX_3(vec_madd, fma(x, y, z))
VERIF_QPX_3(vec_msub, fma(x, y, -z))
VERIF_QPX_3(vec_nmsub, -fma(x, y, -z))
VERIF_QPX_3(vec_nmadd, -fma(x, y, z))
VERIF_QPX_1(vec_neg, -x)
VERIF_QPX_1(vec_abs, fabs(x))
VERIF_QPX_2(vec_swdiv, x / y)
VERIF_QPX_2(vec_swdiv_nochk, x / y)
VERIF_QPX_1(vec_swsqrt, sqrt(x))
VERIF_QPX_1(vec_swsqrt_nochk, sqrt(x))
VERIF_QPX_1(vec_re, verif_estimate(1 / x))
VERIF_QPX_1(vec_rsqrte, verif_estimate(1 / sqrt(x)))
VERIF_QPX vector4double vec_splats(double x) { vector4double r = {{x, x, x, x}}; return r; }
VERIF_QPX double vec_extract(vector4double v, int i) { return v.d[i & 3]; }
VERIF_QPX vector4double vec_insert(double x, vector4double v, int i) { v.d[i & 3] = x; return v; }
VERIF_QPX vector4double verif_qpx_ld(const char *p) { vector4double r; memcpy(&r, p, 32); return r; }
VERIF_QPX vector4double vec_ld(long a, const double *p) { return verif_qpx_ld((const char *)(((uintptr_t)p + a) & ~(uintptr_t)31)); }
VERIF_QPX vector4double vec_lda(long a, const double *p) { verif_aligned((const char *)p + a, 32, "vec_lda"); return vec_ld(a, p); }
VERIF_QPX void vec_st(vector4double v, long a, double *p) { memcpy((void *)(((uintptr_t)p + a) & ~(uintptr_t)31), &v, 32); }
VERIF_QPX void vec_sta(vector4double v, long a, double *p) { verif_aligned((const char *)p + a, 32, "vec_sta"); vec_st(v, a, p); }
// unaligned loads are made of two aligned ones and a permutation
VERIF_QPX vector4double vec_lvsl(long a, const double *p) { unsigned s = unsigned(((uintptr_t)p + a) / 8 % 4); vector4double r = {{double(s), double(s + 1), double(s + 2), double(s + 3)}}; return r; }
VERIF_QPX vector4double vec_perm(vector4double x, vector4double y, vector4double c)
{
    vector4double r;
    for (int i = 0; i < 4; ++i) { int k = int(c.d[i]) & 7; r.d[i] = k < 4 ? x.d[k] : y.d[k - 4]; }
    return r;
}
#endif
