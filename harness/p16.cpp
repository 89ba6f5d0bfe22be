// P16: accuracy of division, square root and division by a square root.
#include "sv.hpp"

static const bool INT = bits_of<T>::code == 3;
static const bool DBL = bits_of<T>::code == 2;

enum What { DIV, DIV_COMPOUND, DIV_SCALAR, SQRT_MEMBER, SQRT_FREE, SQRT_ASSIGN, DIVSQRT, DIVSQRT_COMPOUND, DIVSQRT_STEPWISE, WHATS };
static const char *NAME[] = {"v / w", "v /= w", "s / w", "w.sqrt()", "V(sqrt(w))", "v = sqrt(w)", "v / sqrt(w)", "v /= sqrt(w)", "V s = sqrt(w); v / s"};

template<typename V>
static void __attribute__((noinline)) run(int what, const T *a, const T *b, T *out)
{
    V v(a), w(b), r;
    T s = a[0];
    switch (what) {
    case DIV: r = V(v / w); break;
    case DIV_COMPOUND: v /= w; r = v; break;
    case DIV_SCALAR: r = V(s / w); break;
    case SQRT_MEMBER: r = V(w.sqrt()); break;
    case SQRT_FREE: r = V(short_vec<T, V::ARITY>(sqrt(w))); break;
    case SQRT_ASSIGN: r = V(T(9)); r = short_vec<T, V::ARITY>(sqrt(w)); break;
    case DIVSQRT: r = V(v / sqrt(w)); break;
    case DIVSQRT_COMPOUND: v /= sqrt(w); r = v; break;
    default: { short_vec<T, V::ARITY> t = sqrt(w); r = V(v / t); break; }
    }
    static_cast<const short_vec<T, V::ARITY>&>(r).store(out);
}

// the true value (up to 2^-50) and whether lane a, b is within the domain
static double truth(int what, double a, double b)
{
    if (what <= DIV_SCALAR) return a / b;
    if (what <= SQRT_ASSIGN) return std::sqrt(b);
    return a / std::sqrt(b);
}

static const double EPS = 1.0 / 1024;
static double worst = 0;

static void bad_lane(int what, int i, int n, T a, T b, T got, double ref)
{
    mc::fail("lane %d of %d: %s with v=%s w=%s gives %s, true value %.17g", i, n, NAME[what], show(a).c_str(), show(b).c_str(), show(got).c_str(), ref);
}

static bool exact_required(int what) { return DBL && what <= SQRT_ASSIGN; }

template<typename V>
static void check(int what, const T *a, const T *b)
{
    const int N = V::ARITY;
    alignas(64) T out[N];
    run<V>(what, a, b, out);
    for (int i = 0; i < N; ++i) {
        T x = what == DIV_SCALAR ? a[0] : a[i];
        if (exact_required(what)) {
            volatile double p = double(x), q = double(b[i]);
            volatile double e = what <= DIV_SCALAR ? p / q : std::sqrt(q);
            if (!same(out[i], T(e))) bad_lane(what, i, N, x, b[i], out[i], e);
            continue;
        }
        // reciprocals of single-precision divisors from 2^126 on are not normal
        if (!DBL && what <= DIV_SCALAR && std::fabs(double(b[i])) >= 8.507059173023461586e37) continue;
        double ref = truth(what, double(x), double(b[i]));
        double lo = DBL ? double(std::numeric_limits<double>::min()) : double(std::numeric_limits<float>::min());
        double hi = DBL ? double(std::numeric_limits<double>::max()) : double(std::numeric_limits<float>::max());
        double m = std::fabs(ref);
        if (!(m >= lo * (1 + 2 * EPS) && m <= hi * (1 - 2 * EPS))) continue; // result not safely normal
        double err = std::fabs(double(out[i]) - ref);
        if (!(err <= EPS * m)) bad_lane(what, i, N, x, b[i], out[i], ref);
        if (err > worst * m) worst = err / m;
    }
    mc::step(N);
}

static float fl(uint32_t sign, uint32_t exp, uint32_t man)
{
    uint32_t u = sign << 31 | exp << 23 | man;
    float f;
    std::memcpy(&f, &u, 4);
    return f;
}

static bool mine(long id) { return mc::g().replay || int(id % mc::g().shards) == mc::g().shard; }

// ------------------------------------------------------------ single precision
static const long CHUNK = 1 << 16;

template<typename V>
static void singles(long id, int_<1>)
{
    const int N = V::ARITY;
    T a[N], b[N];
    // every mantissa (all exponents in the thorough tier) of the divisor / radicand
    static const int quick_exp[] = {1, 2, 126, 127, 128, 252, 254}, quick_exp_foreign[] = {127, 128, 1, 2, 126, 252, 254};
    const int *quick_exps = quick_exp;
    const T num[] = {T(1), T(-3.7), T(1.99999988)};
    int exps = mc::thorough() ? 254 : 7;
#if !SV_FULL
    // stand-ins are slow: 1 <= x < 4 (thorough: also the boundaries)
    quick_exps = quick_exp_foreign;
    exps = mc::thorough() ? 7 : 2;
#endif
    for (int k = 0; k < exps; ++k) {
        uint32_t e = mc::thorough() && SV_FULL ? k + 1 : quick_exps[k];
        for (long c = 0; c < (1L << 23) / CHUNK; ++c) {
            if (!mine(id * 131 + k * 17 + c)) continue;
            for (int what = 0; what < WHATS; ++what) {
                // the forms share their implementation with others for the widest part of the sweep
                if (!mc::begin("mantissas", {id, long(e), c, what})) continue;
                T top = what <= DIV_SCALAR ? (e > 200 ? T(fl(0, 230, 1234567)) : e < 50 ? T(fl(1, 20, 7654321)) : num[c % 3]) : num[c % 3];
                for (long m = c * CHUNK; m < (c + 1) * CHUNK; m += N) {
                    for (int i = 0; i < N; ++i) {
                        a[i] = what == DIV_SCALAR ? top : T(top * T(1 + (i & 3)));
                        b[i] = T(fl(what <= DIV_SCALAR && (i & 1), e, uint32_t(m + i)));
                    }
                    check<V>(what, a, b);
                }
                mc::count_label("nontrivial");
            }
        }
    }
    // operands that differ from lane to lane so much that no lane's result can
    // stand for another one's
    for (int k = 0; k < 96; ++k) {
        if (!mine(id + k)) continue;
        for (int what = 0; what < WHATS; ++what) {
            if (!mc::begin("lanes", {id, k, what})) continue;
            for (int j = 0; j < 8; ++j) {
                for (int i = 0; i < N; ++i) {
                    int p = (i * (2 * j + 1) + k) % 32;
                    a[i] = what == DIV_SCALAR ? T(0.7) : T((1.0 + 0.13 * ((i * (2 * j + 3) + j + k) % 32)) * (((i + k) & 1) ? -1 : 1));
                    b[i] = T(fl(what <= DIV_SCALAR && ((i + j) & 1), 127 - 60 + 4 * p, uint32_t(p + j + k) * 86243u & 0x7fffff));
                }
                check<V>(what, a, b);
            }
            mc::count_label("nontrivial");
        }
    }
    // all pairs of exponents with a few mantissas and signs
    for (uint32_t ea = 1; ea < 255; ++ea) {
        if (!mine(id + ea)) continue;
        for (int what = 0; what < WHATS; ++what) {
            if (!mc::begin("exponents", {id, long(ea), what})) continue;
            int n = 0;
            for (uint32_t eb = 1; eb < 255; ++eb) {
                for (int k = 0; k < 16; ++k) {
                    static const uint32_t man[] = {0, 1, 0x7fffff, 0x400000, 0x2aaaaa, 0x555555, 0x7ffffe, 0x123456};
                    a[n] = T(fl(k & 1, ea, man[(k * 3 + eb) & 7]));
                    b[n] = T(fl(what <= DIV_SCALAR && (k & 2), eb, man[k & 7]));
                    if (what == DIV_SCALAR && n) a[n] = a[0];
                    if (++n == N) { check<V>(what, a, b); n = 0; }
                }
            }
            mc::count_label("nontrivial");
        }
    }
}
template<typename V> static void singles(long, int_<2>) {}
template<typename V> static void singles(long, int_<3>) {}

// ------------------------------------------------------------ double precision
template<typename V>
static void doubles(long id, int_<2>)
{
    const int N = V::ARITY;
    typedef std::numeric_limits<double> L;
    std::vector<double> x;
    double specials[] = {0.0, -0.0, L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min(), -L::denorm_min(), L::min(), L::max(), -1.0, 2.0, 1.0 / 3, 0.1};
    for (double v : specials) x.push_back(v);
    uint64_t man[] = {0, 1, 0xfffffffffffffull, 0x8000000000000ull, 0x5555555555555ull, 0xaaaaaaaaaaaaaull, 0xffffffffffffeull, 0x123456789abcdull, 0x0000000100000ull, 0x00000ffffffffull};
    for (int e = 1; e < 2047; e += (mc::thorough() ? 7 : 66)) {
        for (uint64_t m : man) {
            uint64_t u = uint64_t(e) << 52 | m;
            double d;
            std::memcpy(&d, &u, 8);
            x.push_back(d);
            x.push_back(-d);
        }
    }
    T a[N], b[N];
    const long M = long(x.size());
    for (long p = 0; p < M; ++p) {
        if (!mine(id + p)) continue;
        for (int what = 0; what < WHATS; ++what) {
            if (what > SQRT_ASSIGN && !(x[p] >= L::min() && x[p] <= L::max())) continue;
            if (!mc::begin("doubles", {id, p, what})) continue;
            // x[p] as divisor / radicand in every lane, all others around it
            for (long q = 0; q < M; ++q) {
                for (int i = 0; i < N; ++i) {
                    a[i] = T(x[(q + i * 3) % M]);
                    b[i] = T(i == int(q % N) ? x[p] : std::fabs(x[13 + (q + i) % (M - 13)]));
                    if (what > SQRT_ASSIGN && !(std::fabs(double(a[i])) >= L::min() && std::fabs(double(a[i])) <= L::max())) a[i] = T(1);
                }
                check<V>(what, a, b);
            }
            mc::count_label("nontrivial");
        }
    }
    // a dense stretch of significands: all 2^16 patterns at the top and at the bottom
    for (int half = 0; half < 3; ++half) {
        for (int what = 0; what < WHATS; ++what) {
            if (!mine(id + half + what) || !mc::begin("significands", {id, half, what})) continue;
            for (long m = 0; m < 65536; m += N) {
                for (int i = 0; i < N; ++i) {
                    uint64_t u = uint64_t(1022 + half) << 52 | (half == 2 ? uint64_t(m + i) : uint64_t(m + i) << 36);
                    double d;
                    std::memcpy(&d, &u, 8);
                    b[i] = T(d);
                    a[i] = what == DIV_SCALAR ? T(0.7) : T(0.7 + i);
                }
                check<V>(what, a, b);
            }
            mc::count_label("nontrivial");
        }
    }
}
template<typename V> static void doubles(long, int_<1>) {}
template<typename V> static void doubles(long, int_<3>) {}

// -------------------------------------------------------------------- integers
template<typename V>
static void integers(long id, int_<3>)
{
    const int N = V::ARITY;
    T a[N], b[N];
    alignas(64) T out[N];
    for (int n = 1; n < 4096; ++n) {
        if (!mine(id + n)) continue;
        for (int what = SQRT_MEMBER; what < WHATS; ++what) {
            if (!mc::begin("squares", {id, n, what})) continue;
            for (int q = -1000; q <= 1000; q += (what < DIVSQRT ? 500 : 37)) {
                for (int i = 0; i < N; ++i) {
                    int r = 1 + (n + i * 7) % 4095;
                    int f = (q + i * 11) % 1000;
                    b[i] = T(r * r);
                    a[i] = T(f * r);
                }
                run<V>(what, a, b, out);
                for (int i = 0; i < N; ++i) {
                    int r = 1 + (n + i * 7) % 4095, f = (q + i * 11) % 1000;
                    int e = what < DIVSQRT ? r : f;
                    MC_CHECK(out[i] == T(e), "lane %d of %d: %s with v=%d w=%d gives %d, expected %d", i, N, NAME[what], int(a[i]), int(b[i]), int(out[i]), e);
                }
                mc::step(N);
            }
            mc::count_label("nontrivial");
        }
    }
}
template<typename V> static void integers(long, int_<1>) {}
template<typename V> static void integers(long, int_<2>) {}

template<typename V>
static void width(long id)
{
    typedef int_<bits_of<T>::code> C;
    singles<V>(id, C());
    doubles<V>(id, C());
    integers<V>(id, C());
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    width<short_vec<T, 1> >(0);
    width<short_vec<T, 2> >(1);
    width<short_vec<T, 4> >(2);
    width<short_vec<T, 8> >(3);
    width<short_vec<T, 16> >(4);
    width<short_vec<T, 32> >(5);
    width<streaming_short_vec<T, 8> >(6);
    mc::extra("worst_relative_error_in_2^-24", uint64_t(worst * 16777216.0));
    mc::sample("width 8: v / sqrt(w) for 8 consecutive significands w = 1.0.., v = -3.7 .. -14.8");
    return mc::finish();
}
