// P14: short vectors compute lane by lane like scalars. Every operation x
// operand pair x lane x surrounding lanes, every mask, vs. scalar arithmetic.
#include "sv.hpp"
#include <cmath>
#include <iomanip>

// ---------------------------------------------------------------- operands
template<typename F>
static std::vector<T> floating_values(F big, F small)
{
    typedef std::numeric_limits<F> L;
    F x[] = {F(0), -F(0), F(1), F(-1), F(2.5), F(-3), F(1) / F(3), F(1) + L::epsilon(), big, -small, L::max(), -L::max(), L::min(),
             L::denorm_min(), -L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN(), F(16777217.0), F(0.1)};
    std::vector<T> r;
    for (F v : x) r.push_back(T(v));
    return r;
}
static std::vector<T> values(int_<1>) { return floating_values<float>(1e10f, 1e-10f); }
static std::vector<T> values(int_<2>) { return floating_values<double>(1e100, 1e-100); }
static std::vector<T> values(int_<3>)
{
    int x[] = {0, 1, -1, 2, 3, -5, 7, 100, -101, 32767, -32768, 65536, 65537, 46340, -46341, 16777215, -16777215, 8388609,
               1 << 30, 2147483647, -2147483647 - 1, 0x01234567};
    std::vector<T> r;
    for (int v : x) r.push_back(T(v));
    return r;
}
static std::vector<T> VAL;

// ------------------------------------------------------------- operations
enum Op { ADD, SUB, MUL, DIV };
static const char *OPNAME[] = {"+", "-", "*", "/"};
static const bool INT = bits_of<T>::code == 3;
static const int OPS = INT ? 4 : 3; // floating-point division: P16

static bool defined(Op op, float, float) { return true; }
static bool defined(Op op, double, double) { return true; }
static bool defined(Op op, int a, int b)
{
    int r;
    switch (op) {
    case ADD: return !__builtin_add_overflow(a, b, &r);
    case SUB: return !__builtin_sub_overflow(a, b, &r);
    case MUL: return !__builtin_mul_overflow(a, b, &r);
    default: return b != 0 && a < (1 << 24) && a > -(1 << 24) && b < (1 << 24) && b > -(1 << 24);
    }
}

static T __attribute__((noinline)) scalar(Op op, T a, T b)
{
    a = opaque(a);
    b = opaque(b);
    switch (op) {
    case ADD: return opaque(a + b);
    case SUB: return opaque(a - b);
    case MUL: return opaque(a * b);
    default: return opaque(a / b);
    }
}

enum Form { PLAIN, COMPOUND, VEC_SCALAR, SCALAR_VEC, COMPOUND_SCALAR, SELF, SELF_COMPOUND, FORMS };
static const char *FORMNAME[] = {"v op w", "v op= w", "v op s", "s op v", "v op= s", "v op v", "v op= v"};

template<typename V>
static void __attribute__((noinline)) vec_run(Op op, Form form, const T *a, const T *b, T *out)
{
    V v(a);
    V w(b);
    V r;
    T s = b[0], t = a[0];
#define FORM_CASES(OP, OPEQ)                                            \
    switch (form) {                                                     \
    case PLAIN: r = V(v OP w); break;                                   \
    case COMPOUND: r = v; r OPEQ w; break;                              \
    case VEC_SCALAR: r = V(v OP s); break;                              \
    case SCALAR_VEC: r = V(t OP w); break;                              \
    case COMPOUND_SCALAR: r = v; r OPEQ s; break;                       \
    case SELF: r = V(v OP v); break;                                    \
    default: v OPEQ v; r = v; break;                                    \
    }
    switch (op) {
    case ADD: FORM_CASES(+, +=) break;
    case SUB: FORM_CASES(-, -=) break;
    case MUL: FORM_CASES(*, *=) break;
    default: FORM_CASES(/, /=) break;
    }
    std::memset(out, 0x5a, sizeof(T) * V::ARITY);
    V copy(r);
    static_cast<const short_vec<T, V::ARITY>&>(copy).store(out);
    // the operands of the non-compound forms stay as they were
    if (form == PLAIN || form == VEC_SCALAR) {
        T chk[V::ARITY];
        static_cast<const short_vec<T, V::ARITY>&>(v).store(chk);
        for (int i = 0; i < int(V::ARITY); ++i) MC_CHECK(bits(chk[i]) == bits(a[i]), "left operand changed in lane %d", i);
    }
}

template<typename V>
static void compare_lanes(Op op, Form form, const T *a, const T *b)
{
    const int N = V::ARITY;
    T out[N];
    vec_run<V>(op, form, a, b, out);
    mc::step(N);
    for (int i = 0; i < N; ++i) {
        T x = form == SCALAR_VEC ? a[0] : a[i];
        T y = form == VEC_SCALAR || form == COMPOUND_SCALAR ? b[0] : (form == SELF || form == SELF_COMPOUND ? a[i] : b[i]);
        T e = scalar(op, x, y);
        MC_CHECK(same(out[i], e), "lane %d of %d: %s with op %s: %s, %s -> %s, scalar result %s", i, N, FORMNAME[form], OPNAME[op],
                 show(x).c_str(), show(y).c_str(), show(out[i]).c_str(), show(e).c_str());
    }
}

static void fill(Op op, int bg, int n, T *a, T *b)
{
    const int m = int(VAL.size());
    for (int j = 0; j < n; ++j) {
        if (bg == 0) {
            a[j] = T(3 + 5 * j);
            b[j] = T(1 + 2 * j);
        } else {
            int k = bg * 7 + j * 11;
            a[j] = VAL[k % m];
            b[j] = VAL[(k / 3 + j) % m];
            if (!defined(op, a[j], b[j]) || !defined(op, a[j], a[j])) {
                a[j] = T(j + 2);
                b[j] = T(j - 40);
            }
        }
    }
}

template<typename V>
static void arithmetic(long id)
{
    const int N = V::ARITY, M = int(VAL.size());
    T a[N], b[N];
    int bgs = mc::thorough() ? 12 : 4;
    for (int op = 0; op < OPS; ++op) {
        for (int bg = 0; bg < bgs; ++bg) {
            for (int lane = 0; lane < N; ++lane) {
                for (int p = 0; p < M * M; ++p) {
                    T x = VAL[p / M], y = VAL[p % M];
                    for (int form = 0; form < 2; ++form) {
                        if (!defined(Op(op), x, y)) continue;
                        if (!mc::begin("arith", {id, op, bg, lane, p, form})) continue;
                        fill(Op(op), bg, N, a, b);
                        a[lane] = x;
                        b[lane] = y;
                        compare_lanes<V>(Op(op), Form(form), a, b);
                        mc::count_label("nontrivial");
                    }
                }
            }
        }
        // broadcast operand: every value against every value in every lane
        for (int k = 0; k < M; ++k) {
            for (int rot = 0; rot < M; ++rot) {
                for (int form = VEC_SCALAR; form < FORMS; ++form) {
                    if (!mc::begin("broadcast", {id, op, k, rot, form})) continue;
                    T s = VAL[k];
                    for (int j = 0; j < N; ++j) {
                        T x = VAL[(rot + j) % M];
                        if (form == SCALAR_VEC) {
                            a[j] = s;
                            b[j] = defined(Op(op), s, x) ? x : T(1);
                            if (!defined(Op(op), s, b[j])) a[j] = b[j] = T(1);
                        } else if (form == SELF || form == SELF_COMPOUND) {
                            a[j] = defined(Op(op), x, x) ? x : T(1);
                            b[j] = s;
                        } else {
                            b[j] = s;
                            a[j] = defined(Op(op), x, s) ? x : T(1);
                        }
                    }
                    bool ok = true;
                    for (int j = 0; j < N; ++j) {
                        if (form == SCALAR_VEC) ok = ok && defined(Op(op), s, b[j]) && bits(a[j]) == bits(s);
                        if (form == VEC_SCALAR || form == COMPOUND_SCALAR) ok = ok && defined(Op(op), a[j], s);
                    }
                    if (!ok) continue;
                    compare_lanes<V>(Op(op), Form(form), a, b);
                    mc::count_label("nontrivial");
                }
            }
        }
    }
}

// -------------------------------------------------------- comparisons, masks
enum Rel { LT, LE, EQ, GT, GE };
static const char *RELNAME[] = {"<", "<=", "==", ">", ">="};

static bool scalar_rel(int rel, T a, T b)
{
    a = opaque(a);
    b = opaque(b);
    switch (rel) {
    case LT: return a < b;
    case LE: return a <= b;
    case EQ: return a == b;
    case GT: return a > b;
    default: return a >= b;
    }
}

template<typename V>
static typename V::mask_type vec_rel(int rel, const V& v, const V& w)
{
    switch (rel) {
    case LT: return v < w;
    case LE: return v <= w;
    case EQ: return v == w;
    case GT: return v > w;
    default: return v >= w;
    }
}

// mask queries that only need a mask and the expected lanes
template<typename V>
static void queries(const typename V::mask_type& mask, const bool *expect, const char *how)
{
    const int N = V::ARITY;
    std::size_t n = 0;
    for (int i = 0; i < N; ++i) {
        n += expect[i];
        bool got = get(mask, i) ? true : false;
        MC_CHECK(got == expect[i], "mask lane %d of %d after %s is %d, expected %d", i, N, how, int(got), int(expect[i]));
    }
    bool a = any(mask) ? true : false;
    MC_CHECK(a == (n > 0), "any() after %s is %d with %d of %d lanes set", how, int(a), int(n), N);
    mc::step(N + 1);
}

template<typename V>
static void blends(const typename V::mask_type& mask, const bool *expect, int round)
{
    const int N = V::ARITY;
    typedef short_vec<T, V::ARITY> B;
    std::size_t n = 0;
    for (int i = 0; i < N; ++i) n += expect[i];
    std::size_t c = count_mask<T, V::ARITY>(mask);
    MC_CHECK(c == n, "count_mask is %d with %d of %d lanes set", int(c), int(n), N);
    T a[N], b[N], out[N];
    for (int i = 0; i < N; ++i) {
        a[i] = VAL[(i * 3 + round) % VAL.size()];
        b[i] = VAL[(i * 5 + 7 + round) % VAL.size()];
    }
    V v(a), w(b);
    V x = v;
    x.blend(mask, w);
    static_cast<const B&>(x).store(out);
    for (int i = 0; i < N; ++i) MC_CHECK(bits(out[i]) == bits(expect[i] ? b[i] : a[i]), "blend: lane %d of %d is %s", i, N, show(out[i]).c_str());
    V y = V(LibFlatArray::blend(v, w, mask));
    static_cast<const B&>(y).store(out);
    for (int i = 0; i < N; ++i) MC_CHECK(bits(out[i]) == bits(expect[i] ? b[i] : a[i]), "free blend: lane %d of %d is %s", i, N, show(out[i]).c_str());
    static_cast<const B&>(v).store(out);
    for (int i = 0; i < N; ++i) MC_CHECK(bits(out[i]) == bits(a[i]), "free blend changed its operand in lane %d of %d", i, N);
    x.blend(mask, v);
    static_cast<const B&>(x).store(out);
    for (int i = 0; i < N; ++i) MC_CHECK(bits(out[i]) == bits(a[i]), "blending back: lane %d of %d is %s", i, N, show(out[i]).c_str());
    x.blend(mask, x);
    static_cast<const B&>(x).store(out);
    for (int i = 0; i < N; ++i) MC_CHECK(bits(out[i]) == bits(a[i]), "blending with itself: lane %d of %d is %s", i, N, show(out[i]).c_str());
    mc::step(4 * N);
}

template<typename V>
static void comparisons(long id)
{
    const int N = V::ARITY, M = int(VAL.size());
    T a[N], b[N];
    bool e[N];
    for (int rel = 0; rel < 5; ++rel) {
        for (int bg = 0; bg < 2; ++bg) {
            for (int lane = 0; lane < N; ++lane) {
                for (int p = 0; p < M * M; ++p) {
                    if (!mc::begin("compare", {id, rel, bg, lane, p})) continue;
                    for (int j = 0; j < N; ++j) {
                        a[j] = bg ? VAL[(j * 7 + lane) % M] : T(1);
                        b[j] = bg ? VAL[(j * 5 + p) % M] : T(2);
                    }
                    a[lane] = VAL[p / M];
                    b[lane] = VAL[p % M];
                    for (int j = 0; j < N; ++j) e[j] = scalar_rel(rel, a[j], b[j]);
                    queries<V>(vec_rel<V>(rel, V(a), V(b)), e, RELNAME[rel]);
                    mc::count_label("nontrivial");
                }
            }
        }
    }
}

static std::vector<uint32_t> mask_patterns(int n)
{
    std::vector<uint32_t> r;
    if (n <= 16) {
        for (uint32_t m = 0; m < (1u << n); ++m) r.push_back(m);
        return r;
    }
    for (int inv = 0; inv < 2; ++inv) {
        uint32_t x = inv ? ~0u : 0;
        r.push_back(x);
        for (int i = 0; i < n; ++i) {
            r.push_back(x ^ (1u << i));
            for (int j = 0; j < i; ++j) {
                r.push_back(x ^ (1u << i) ^ (1u << j));
                for (int k = 0; k < j; ++k) r.push_back(x ^ (1u << i) ^ (1u << j) ^ (1u << k));
            }
            for (int l = 3; i + l <= n; ++l) r.push_back(x ^ (uint32_t((uint64_t(1) << l) - 1) << i));
        }
        for (int byte = 0; byte < 4; ++byte) for (uint32_t p = 0; p < 256; ++p) r.push_back(x ^ (p << (8 * byte)));
        if (mc::thorough()) for (uint32_t p = 0; p < 65536; ++p) { r.push_back(x ^ p); r.push_back(x ^ (p << 16)); r.push_back(x ^ (p * 65537u)); }
    }
    return r;
}

template<typename V>
static void masks(long id)
{
    const int N = V::ARITY;
    T a[N], b[N];
    bool e[N];
    std::vector<uint32_t> pat = mask_patterns(N);
    int rels = 5;
    for (int r = 0; r < rels; ++r) {
        int rel = r;
        for (uint32_t m : pat) {
            if (!mc::begin("mask", {id, rel, long(m)})) continue;
            for (int j = 0; j < N; ++j) {
                bool on = (m >> j) & 1;
                e[j] = on;
                b[j] = T(10 + j);
                switch (rel) {
                case LT: a[j] = on ? T(9 + j) : T(10 + j + (j & 1)); break;
                case LE: a[j] = on ? T(10 + j - (j & 1)) : T(11 + j); break;
                case EQ: a[j] = on ? T(10 + j) : T(j & 1 ? 9 + j : 11 + j); break;
                case GT: a[j] = on ? T(11 + j) : T(10 + j - (j & 1)); break;
                default: a[j] = on ? T(10 + j + (j & 1)) : T(9 + j); break;
                }
            }
            typename V::mask_type mask = vec_rel<V>(rel, V(a), V(b));
            queries<V>(mask, e, RELNAME[rel]);
            blends<V>(mask, e, int(m % 5));
            mc::count_label("nontrivial");
        }
    }
    // any() of a plain vector: is some lane non-zero
    for (uint32_t m : pat) {
        if (!mc::begin("any", {id, long(m)})) continue;
        bool want = false;
        for (int j = 0; j < N; ++j) {
            a[j] = (m >> j) & 1 ? T(j + 1) : T(0);
            want = want || a[j] != 0;
        }
        V v(a);
        MC_CHECK((any(v) ? true : false) == want, "any() of a vector is wrong");
        MC_CHECK((v.any() ? true : false) == want, "any() of a vector is wrong (member)");
        mc::step();
    }
    // ... with every pair of values in every pair of lanes (negative zeros have
    // a bit set, but compare equal to zero: left open)
    for (int i = 0; i < N; ++i) {
        for (int k = i + 1; k <= N; ++k) { // k == N: one lane only
            for (std::size_t p = 0; p < VAL.size(); ++p) {
                if (!mc::begin("any_values", {id, i, k, long(p)})) continue;
                for (std::size_t q = 0; q < VAL.size(); ++q) {
                    for (int j = 0; j < N; ++j) a[j] = T(0);
                    T x[2] = {VAL[p], VAL[q]};
                    if (q + 1 == VAL.size()) x[1] = T(-VAL[p]); // values that cancel
                    if ((x[0] == 0 && std::signbit(double(x[0]))) || (x[1] == 0 && std::signbit(double(x[1])))) continue;
                    a[i] = x[0];
                    if (k < N) a[k] = x[1];
                    bool want = a[i] != 0 || (k < N && a[k] != 0);
                    V v(a);
                    MC_CHECK((any(v) ? true : false) == want && (v.any() ? true : false) == want, "any() of %g in lane %d and %g in lane %d is not %d", double(x[0]), i, double(k < N ? x[1] : T(0)), k, int(want));
                }
                mc::step();
            }
        }
    }
}

// ----------------------------------------------- construction, access, output
template<typename V, std::size_t... I>
static V from_list(const T *p, std::index_sequence<I...>)
{
    return V({p[I]...});
}

template<typename V, typename FORMAT>
static void printed(const V& p, const T *e, FORMAT format)
{
    std::ostringstream got, want;
    format(got);
    format(want);
    got << p << "|" << e[0];
    want << "[";
    for (int i = 0; i < int(V::ARITY); ++i) want << (i ? ", " : "") << e[i];
    want << "]|" << e[0];
    MC_CHECK(got.str() == want.str(), "printed as %s, expected %s", got.str().c_str(), want.str().c_str());
}

// streams of wide characters are no different
template<typename V>
static void printed_wide(const V& p, const T *e)
{
    std::wostringstream got, want;
    got.precision(17);
    want.precision(17);
    got << p;
    want << L"[";
    for (int i = 0; i < int(V::ARITY); ++i) want << (i ? L", " : L"") << e[i];
    want << L"]";
    MC_CHECK(got.str() == want.str(), "printed as %ls, expected %ls", got.str().c_str(), want.str().c_str());
}

template<typename V>
static void lanes_are(const V& v, const T *e, const char *what)
{
    const int N = V::ARITY;
    T out[N];
    static_cast<const short_vec<T, V::ARITY>&>(v).store(out);
    for (int i = 0; i < N; ++i) MC_CHECK(bits(out[i]) == bits(e[i]), "%s: lane %d of %d is %s, expected %s", what, i, N, show(out[i]).c_str(), show(e[i]).c_str());
    mc::step(N);
}

template<typename V> static void access(const V& v, const T *e, int_<0>)
{
    for (int i = 0; i < int(V::ARITY); ++i) {
        MC_CHECK(bits(v[i]) == bits(e[i]), "operator[](%d) of %d lanes is %s, expected %s", i, int(V::ARITY), show(v[i]).c_str(), show(e[i]).c_str());
        MC_CHECK(bits(get(static_cast<const short_vec<T, V::ARITY>&>(v), i)) == bits(e[i]), "get(v, %d) of %d lanes is wrong", i, int(V::ARITY));
    }
    mc::step(V::ARITY);
}
template<typename V> static void access(const V& v, const T *e, int_<1>) {}

template<typename V, int NO_ACCESS>
static void construction(long id)
{
    const int N = V::ARITY, M = int(VAL.size());
#if SV_FULL
    MC_CHECK(V::ARITY == std::size_t(N) && V::size() == std::size_t(N), "size() is %d, expected %d", int(V::size()), N);
#endif
    T e[N];
    if (mc::begin("default", {id})) {
        for (int i = 0; i < N; ++i) e[i] = T(0);
        lanes_are(V(), e, "default construction");
        // ... also where the memory held something else before
        alignas(64) unsigned char raw[sizeof(V)];
        std::memset(raw, 0xa5, sizeof(raw));
        V *p = new (raw) V();
        lanes_are(*p, e, "default construction in used memory");
    }
    for (int k = 0; k < M; ++k) {
        for (int lane = 0; lane < N; ++lane) {
            for (int bg = 0; bg < 2; ++bg) {
                if (!mc::begin("construct", {id, k, lane, bg})) continue;
                for (int i = 0; i < N; ++i) e[i] = bg ? VAL[(i + k) % M] : T(i + 1);
                e[lane] = VAL[k];
                V p(e);
                lanes_are(p, e, "construction from a pointer");
                V l = from_list<V>(e, std::make_index_sequence<V::ARITY>());
                lanes_are(l, e, "construction from a list");
                V c(p);
                lanes_are(c, e, "copy");
                V x;
                x = p;
                lanes_are(x, e, "assignment");
                access(p, e, int_<NO_ACCESS>());
                printed(p, e, [](std::ostream&) {});
                if (bg) {
                    // formats which tell all values apart
                    printed(p, e, [](std::ostream& o) { o.precision(17); });
                    printed(p, e, [](std::ostream& o) { o << std::hexfloat << std::hex << std::showbase << std::uppercase; });
                    printed(p, e, [](std::ostream& o) { o << std::scientific << std::showpos; o.precision(3); });
                    printed_wide(p, e);
                }
                for (int i = 0; i < N; ++i) e[i] = VAL[k];
                V b(VAL[k]);
                lanes_are(b, e, "broadcast");
                x = VAL[k];
                lanes_are(x, e, "broadcast by assignment");
                mc::count_label("nontrivial");
            }
        }
    }
}

// ------------------------------------------------------------------ histories
// Sequences of in-place operations on three vectors; the model is one scalar
// array per vector.
template<typename V>
struct Hist
{
    static const int N = V::ARITY;
    static const int K = 3;
    V v[K];
    T m[K][N];

    static int nops(long) { return 1 + OPS * K * K + K * K + (INT || !SV_FULL ? 0 : K * K * K); }

    static std::string opname(long, int op)
    {
        char b[64];
        if (op == 0) return "v0 = s - v1";
        op -= 1;
        if (op < OPS * K * K) { std::snprintf(b, 64, "v%d %s= v%d", op / K % K, OPNAME[op / K / K], op % K); return b; }
        op -= OPS * K * K;
        if (op < K * K) { std::snprintf(b, 64, "v%d = v%d", op / K, op % K); return b; }
        op -= K * K;
        std::snprintf(b, 64, "v%d.blend(v%d < v%d, v%d)", op / K / K, op / K % K, op % K, op % K);
        return b;
    }

    Hist(long cfg)
    {
        for (int k = 0; k < K; ++k) {
            for (int i = 0; i < N; ++i) m[k][i] = INT ? T((i * 7 + k * 3 + cfg) % 11 - 4) : T((i * 7 + k * 3 + cfg) % 11 - 4) / T(4);
            v[k] = V(static_cast<const T *>(m[k]));
        }
    }

    template<typename U> void do_blend(U *vv, int a, int b, int c, int_<0>)
    {
        typename U::mask_type mask = vv[b] < vv[c];
        vv[a].blend(mask, vv[c]);
    }
    template<typename U> void do_blend(U *, int, int, int, int_<1>) {}

    bool apply(int op)
    {
        if (op == 0) {
            v[0] = V(T(5) - v[1]);
            for (int i = 0; i < N; ++i) m[0][i] = scalar(SUB, T(5), m[1][i]);
            return compare();
        }
        op -= 1;
        if (op < OPS * K * K) {
            Op o = Op(op / K / K);
            int a = op / K % K, b = op % K;
            for (int i = 0; i < N; ++i) if (!defined(o, m[a][i], m[b][i])) return false;
            T r[N];
            for (int i = 0; i < N; ++i) r[i] = scalar(o, m[a][i], m[b][i]);
            for (int i = 0; i < N; ++i) m[a][i] = r[i];
            switch (o) {
            case ADD: v[a] += v[b]; break;
            case SUB: v[a] -= v[b]; break;
            case MUL: v[a] *= v[b]; break;
            default: v[a] /= v[b]; break;
            }
            return compare();
        }
        op -= OPS * K * K;
        if (op < K * K) {
            v[op / K] = v[op % K];
            for (int i = 0; i < N; ++i) m[op / K][i] = m[op % K][i];
            return compare();
        }
        op -= K * K;
        int a = op / K / K, b = op / K % K, c = op % K;
        T r[N];
        for (int i = 0; i < N; ++i) r[i] = scalar_rel(LT, m[b][i], m[c][i]) ? m[c][i] : m[a][i];
        for (int i = 0; i < N; ++i) m[a][i] = r[i];
        do_blend(v, a, b, c, int_<INT || !SV_FULL>());
        return compare();
    }

    bool compare()
    {
        T out[N];
        for (int k = 0; k < K; ++k) {
            static_cast<const short_vec<T, V::ARITY>&>(v[k]).store(out);
            for (int i = 0; i < N; ++i) {
                MC_CHECK(same(out[i], m[k][i]), "v%d lane %d of %d is %s, expected %s", k, i, N, show(out[i]).c_str(), show(m[k][i]).c_str());
            }
        }
        return true;
    }

    uint64_t hash() { return 0; }
    void done() {}
};

// ---------------------------------------------------------- integer division
// quotients right at, below and above every integer: all divisors of a set, all
// a = q * b + {-1, 0, 1}, both signs
template<typename V>
static void division(long id)
{
    const int N = V::ARITY;
    std::vector<int> bs, qs;
    for (int i = 1; i <= (mc::thorough() ? 2000 : 150); ++i) bs.push_back(i);
    for (int k = 8; k <= 24; ++k) for (int d = -2; d <= 2; ++d) bs.push_back((1 << k) + d);
    for (int i = 0; i <= (mc::thorough() ? 2000 : 150); ++i) qs.push_back(i);
    for (int k = 8; k <= 24; ++k) for (int d = -2; d <= 2; ++d) qs.push_back((1 << k) + d);
    T a[N], b[N];
    int n = 0, first = 0;
    for (std::size_t bi = 0; bi < bs.size(); ++bi) {
        for (int form = 0; form < 2; ++form) {
            if (!mc::begin("division", {id, long(bi), form})) continue;
            for (int q : qs) {
                for (int d = -1; d <= 1; ++d) {
                    for (int s = 0; s < 4; ++s) {
                        long long x = (long long)q * bs[bi] + d;
                        if (x < 0 || x >= (1 << 24) || bs[bi] >= (1 << 24)) continue;
                        a[n] = T(s & 1 ? -x : x);
                        b[n] = T(s & 2 ? -bs[bi] : bs[bi]);
                        if (++n == N) {
                            compare_lanes<V>(DIV, Form(form), a, b);
                            n = 0;
                        }
                    }
                }
            }
            mc::count_label("nontrivial");
        }
    }
}

// -------------------------------------------------------------------- driver
static bool mine(long id) { return mc::g().replay || int(id % mc::g().shards) == mc::g().shard; }

template<typename V> static void floating_full(long id, int_<1>) { comparisons<V>(id); masks<V>(id); }
template<typename V> static void lane_masks(long) {}
#ifdef __ARM_NEON__
// comparisons give all bits of the lanes for which they hold, none of the others
template<typename V>
static void lane_masks_of(long id, int_<1>)
{
    const int N = 4, M = int(VAL.size());
    T a[N], b[N];
    for (int rel = 0; rel < 5; ++rel) {
        for (int bg = 0; bg < 2; ++bg) {
            for (int lane = 0; lane < N; ++lane) {
                for (int p = 0; p < M * M; ++p) {
                    if (!mc::begin("compare", {id, rel, bg, lane, p})) continue;
                    for (int j = 0; j < N; ++j) {
                        a[j] = bg ? VAL[(j * 7 + lane) % M] : T(1);
                        b[j] = bg ? VAL[(j * 5 + p) % M] : T(2);
                    }
                    a[lane] = VAL[p / M];
                    b[lane] = VAL[p % M];
                    typename V::mask_type m = vec_rel<V>(rel, V(a), V(b));
                    uint32_t got[N];
                    std::memcpy(got, &m, sizeof(got));
                    for (int j = 0; j < N; ++j) {
                        uint32_t want = scalar_rel(rel, a[j], b[j]) ? 0xffffffffu : 0;
                        MC_CHECK(got[j] == want, "lane %d of %d: %s %s %s is 0x%x, expected 0x%x", j, N, show(a[j]).c_str(), RELNAME[rel], show(b[j]).c_str(), got[j], want);
                    }
                    mc::step(N);
                    mc::count_label("nontrivial");
                }
            }
        }
    }
}
template<typename V> static void lane_masks_of(long, int_<2>) {}
template<typename V> static void lane_masks_of(long, int_<3>) {}
template<> void lane_masks<short_vec<T, 4> >(long id) { lane_masks_of<short_vec<T, 4> >(id, int_<bits_of<T>::code>()); }
#endif
template<typename V> static void floating_full(long id, int_<0>) { lane_masks<V>(id); }
template<typename V> static void floating(long id, int_<0>) { floating_full<V>(id, int_<SV_FULL>()); }
template<typename V> static void floating(long id, int_<1>) { division<V>(id); }

template<typename V>
static void width(long id, const char *label)
{
    if (!mine(id)) return;
    construction<V, INT || !SV_FULL>(id);
    arithmetic<V>(id);
    floating<V>(id, int_<INT>());
    if (!mc::g().replay || mc::g().only_label == label) {
        int sh = mc::g().shard, shs = mc::g().shards;
        mc::g().shard = 0;
        mc::g().shards = 1;
        mc::explore<Hist<V> >(label, id, mc::thorough() ? 4 : V::ARITY <= 8 ? 3 : 2, false);
        mc::g().shard = sh;
        mc::g().shards = shs;
    }
}

static void int_1(int_<0>) {}
static void int_1(int_<1>)
{
    // the scalar int vector also has comparisons and element access
    typedef short_vec<T, 1> V;
    comparisons<V>(0);
    construction<V, 0>(90);
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    VAL = values(int_<bits_of<T>::code>());
    width<short_vec<T, 1> >(0, "history_0");
    width<short_vec<T, 2> >(1, "history_1");
    width<short_vec<T, 4> >(2, "history_2");
    width<short_vec<T, 8> >(3, "history_3");
    width<short_vec<T, 16> >(4, "history_4");
    width<short_vec<T, 32> >(5, "history_5");
    width<streaming_short_vec<T, 4> >(6, "history_6");
    width<streaming_short_vec<T, 16> >(7, "history_7");
    if (mine(0)) int_1(int_<INT>());
    char b[160];
    std::snprintf(b, sizeof(b), "%d operand values, e.g. lane 3 of 8: %s op %s with 2 fillings of the other lanes", int(VAL.size()), show(VAL[5]).c_str(), show(VAL[6]).c_str());
    mc::sample(b);
    return mc::finish();
}
