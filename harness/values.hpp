// Bit-exactness: containers have to treat member values as opaque. Every pair
// (value replaced, value written) over a set of bit patterns which arithmetic,
// comparison or zero-filling shortcuts would not preserve (negative zero, NaNs
// with payload, denormals, all ones, half words...), one member at a time and in
// all members at once.
#ifndef VERIF_VALUES_HPP
#define VERIF_VALUES_HPP

#include "mc.hpp"
#include <libflatarray/flat_array.hpp>
#include <cstring>
#include <string>
#include <vector>
#include <memory>

namespace values {

class Bits
{
public:
    LIBFLATARRAY_ACCESS
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((3)(6), (2), (2)) };
    Bits() : d(0), i(0), l(0), u(0), f(0), s(0) { a[0] = a[1] = 0; c[0] = c[1] = c[2] = 0; }
    double d;
    int i;
    char c[3];
    long long l;
    double a[2];
    unsigned char u;
    float f;
    short s;

    enum { ELEMENTS = 11 };
    void *element(int k, int *size)
    {
        switch (k) {
        case 0: *size = 8; return &d;
        case 1: *size = 4; return &i;
        case 2: case 3: case 4: *size = 1; return &c[k - 2];
        case 5: *size = 8; return &l;
        case 6: case 7: *size = 8; return &a[k - 6];
        case 8: *size = 1; return &u;
        case 9: *size = 4; return &f;
        default: *size = 2; return &s;
        }
    }
};

const int PATTERNS = 11;
const int VALUES = (2 * Bits::ELEMENTS + 1) * PATTERNS;

inline unsigned long long pattern(int size, int p)
{
    static const unsigned long long p8[] = {0, 1, 0x8000000000000000ull, 0x3ff0000000000000ull, 0x7ff0000000000000ull, 0x7ff8000000000123ull,
                                            0x7ff0000000000001ull, ~0ull, 0x0101010101010101ull, 0x00000000ffffffffull, 0xffffffff00000000ull};
    static const unsigned long long p4[] = {0, 1, 0x80000000u, 0x3f800000u, 0x7f800000u, 0x7fc00123u, 0x7f800001u, 0xffffffffu, 0x01010101u, 0x0000ffffu, 0xffff0000u};
    static const unsigned long long p2[] = {0, 1, 0x8000, 0x7fff, 0x00ff, 0xff00, 0x0100, 0xffff, 0x0101, 0x7f00, 0xfffe};
    static const unsigned long long p1[] = {0, 1, 0x80, 0x7f, 0x0f, 0xf0, 0x20, 0xff, 0x55, 0x0a, 0xfe};
    return size == 8 ? p8[p] : size == 4 ? p4[p] : size == 2 ? p2[p] : p1[p];
}

// value v: one element with a pattern, the others zero or 0x11..; or all elements
inline Bits make(int v)
{
    Bits r;
    int p = v % PATTERNS, e = v / PATTERNS % Bits::ELEMENTS, base = v / PATTERNS / Bits::ELEMENTS;
    for (int k = 0; k < Bits::ELEMENTS; ++k) {
        int n;
        void *q = r.element(k, &n);
        unsigned long long x = base == 0 ? 0 : 0x1111111111111111ull;
        if (base == 2 || k == e) x = pattern(n, p);
        std::memcpy(q, &x, n);
    }
    return r;
}

inline bool same(Bits a, Bits b)
{
    for (int k = 0; k < Bits::ELEMENTS; ++k) {
        int n;
        void *p = a.element(k, &n), *q = b.element(k, &n);
        if (std::memcmp(p, q, n)) return false;
    }
    return true;
}

inline std::string str(Bits a)
{
    std::string r;
    for (int k = 0; k < Bits::ELEMENTS; ++k) {
        int n;
        void *p = a.element(k, &n);
        unsigned long long x = 0;
        std::memcpy(&x, p, n);
        char buf[32];
        std::snprintf(buf, sizeof(buf), "%s%0*llx", k ? " " : "", 2 * n, x);
        r += buf;
    }
    return r;
}

#define VALUES_IS(ACTUAL, EXPECTED, WHAT)                                      \
    do {                                                                       \
        ::values::Bits va_ = (ACTUAL), ve_ = (EXPECTED);                       \
        MC_CHECK(::values::same(va_, ve_), "%s: read %s, expected %s", WHAT,   \
                 ::values::str(va_).c_str(), ::values::str(ve_).c_str());      \
    } while (0)

template<typename F>
void pairs(const char *label, int kinds, F f)
{
    std::vector<Bits> all;
    for (int v = 0; v < VALUES; ++v) all.push_back(make(v));
    for (int o = mc::g().replay ? 0 : mc::g().shard; o < VALUES; o += mc::g().replay ? 1 : mc::g().shards) for (int n = 0; n < VALUES; ++n) for (int k = 0; k < kinds; ++k) {
        if (!mc::begin(label, {o, n, k})) continue;
        std::snprintf(mc::g().note, sizeof(mc::g().note), "value #%d replaced by value #%d, kind %d", o, n, k);
        f(all[o], all[n], k);
        mc::g().transitions += 2;
        ++mc::g().traces;
        mc::count_label("nontrivial", 1);
    }
    for (int v = 0; v < VALUES; ++v) mc::state(mc::mix(v, 0x77));
}

}

LIBFLATARRAY_REGISTER_SOA(
    values::Bits,
    ((double)(d))((int)(i))((char)(c)(3))((long long)(l))((double)(a)(2))((unsigned char)(u))((float)(f))((short)(s)))

namespace values {

using namespace LibFlatArray;

template<typename ACCESSOR>
Bits read(const ACCESSOR& a)
{
    Bits r;
    a >> r;
    return r;
}

// P01
inline void writes(const char *label)
{
    pairs(label, 3, [](const Bits& o, const Bits& n, int k) {
        soa_grid<Bits> g(3, 1, 1);
        Bits rows[3] = {o, n, o}, out[3];
        g.set(0, 0, 0, rows, 3);
        if (k == 0) {
            g.set(0, 0, 0, n);
            rows[0] = n;
        } else if (k == 1) {
            rows[1] = o;
            rows[2] = n;
            g.set(1, 0, 0, rows + 1, 2);
        } else {
            g.broadcast(1, 0, 0, n, 2);
            rows[1] = rows[2] = n;
        }
        g.get(0, 0, 0, out, 3);
        for (int x = 0; x < 3; ++x) {
            VALUES_IS(g.get(x, 0, 0), rows[x], "single read");
            VALUES_IS(out[x], rows[x], "row read");
        }
    });
}

// P03
struct Through
{
    Bits o, n;
    int k;
    template<typename A1, typename A2>
    void operator()(A1& a, A2& b) const
    {
        a << o;
        ++a.index();
        a << n;
        b << n;
        ++b.index();
        b << o;
        --a.index();
        --b.index();
        VALUES_IS(read(a), o, "<< and >>");
        VALUES_IS(read(a[coord<1, 0, 0>()]), n, "<< and >> of a neighbour");
        if (k == 0) {
            b.copy_members(a, 2);
            VALUES_IS(read(b), o, "copied members");
            VALUES_IS(read(b[coord<1, 0, 0>()]), n, "copied members");
        } else if (k == 1) {
            Bits e = n;
            b.d() = a.d();
            e.d = o.d;
            b.template c<1>() = a.template c<1>();
            e.c[1] = o.c[1];
            b.f() = a.f();
            e.f = o.f;
            b.a()[1] = a.a()[1];
            e.a[1] = o.a[1];
            VALUES_IS(read(b), e, "assigned members");
            VALUES_IS(read(b[coord<1, 0, 0>()]), o, "neighbour of assigned members");
        } else {
            char buf[2 * 46];
            a.save(buf, 2);
            b.load(buf, 2);
            VALUES_IS(read(b), o, "saved and loaded");
            VALUES_IS(read(b[coord<1, 0, 0>()]), n, "saved and loaded");
        }
    }
};

inline void accessors(const char *label)
{
    pairs(label, 3, [](const Bits& o, const Bits& n, int k) {
        static soa_grid<Bits> g(3, 1, 1), h(3, 1, 1);
        Through t = {o, n, k};
        g.callback(&h, t);
    });
}

// P04
inline void transfers(const char *label)
{
    pairs(label, 1, [](const Bits& o, const Bits& n, int) {
        soa_grid<Bits> g(3, 1, 1), h(3, 1, 1);
        Bits rows[3] = {n, o, n};
        g.set(0, 0, 0, rows, 3);
        h.broadcast(0, 0, 0, o, 3);
        char buf[2 * 46 + 16];
        std::memset(buf, 0x5b, sizeof(buf));
        g.save(1, 0, 0, buf + 8, 2);
        h.load(0, 0, 0, buf + 8, 2);
        VALUES_IS(h.get(0, 0, 0), o, "loaded");
        VALUES_IS(h.get(1, 0, 0), n, "loaded");
        VALUES_IS(h.get(2, 0, 0), o, "outside of the run");
        for (int x = 0; x < 3; ++x) VALUES_IS(g.get(x, 0, 0), rows[x], "source of the save");
    });
}

// P06
inline void copies(const char *label)
{
    pairs(label, 3, [](const Bits& o, const Bits& n, int k) {
        soa_grid<Bits> g(2, 1, 2), h(2, 1, 2);
        h.broadcast(0, 0, 0, o, 2);
        h.broadcast(0, 0, 1, n, 2);
        g.set(0, 0, 0, n);
        g.set(1, 0, 0, o);
        g.broadcast(0, 0, 1, o, 2);
        if (k == 0) {
            soa_grid<Bits> c(g);
            VALUES_IS(c.get(0, 0, 0), n, "copy");
            VALUES_IS(c.get(1, 0, 0), o, "copy");
            VALUES_IS(c.get(1, 0, 1), o, "copy");
        } else if (k == 1) {
            h = g;
            VALUES_IS(h.get(0, 0, 0), n, "assigned");
            VALUES_IS(h.get(1, 0, 0), o, "assigned");
            VALUES_IS(h.get(0, 0, 1), o, "assigned");
        } else {
            h.swap(g);
            VALUES_IS(h.get(0, 0, 0), n, "swapped");
            VALUES_IS(h.get(1, 0, 0), o, "swapped");
            VALUES_IS(h.get(0, 0, 1), o, "swapped");
            VALUES_IS(g.get(0, 0, 0), o, "swapped");
            VALUES_IS(g.get(0, 0, 1), n, "swapped");
        }
    });
}

// P09
inline void arrays(const char *label)
{
    pairs(label, 5, [](const Bits& o, const Bits& n, int k) {
        soa_array<Bits, 3> a, b;
        a.push_back(o);
        a << n;
        a.push_back(o);
        Bits e[3] = {o, n, o};
        b.push_back(n);
        b.push_back(o);
        Bits f[3] = {n, o, n};
        int nb = 2;
        if (k == 0) {
            soa_array<Bits, 3> c(3, n);
            for (int i = 0; i < 3; ++i) VALUES_IS(read(c[i]), n, "constructed from a value");
        } else if (k == 1) {
            b = a;
            nb = 3;
            for (int i = 0; i < 3; ++i) f[i] = e[i];
        } else if (k == 2) {
            b.load(a.at(1), 1);
            nb = 3;
            f[2] = n;
        } else if (k == 3) {
            using std::swap;
            soa_array<Bits, 3> c(a);
            swap(b, c);
            nb = 3;
            for (int i = 0; i < 3; ++i) f[i] = e[i];
        } else {
            a[0] << n;
            e[0] = n;
            a.pop_back();
            a.push_back(n);
            e[2] = n;
        }
        MC_CHECK(a.size() == 3 && int(b.size()) == nb, "size is wrong");
        for (int i = 0; i < 3; ++i) VALUES_IS(read(a[i]), e[i], "element");
        for (int i = 0; i < nb; ++i) VALUES_IS(read(b[i]), f[i], "element of the other array");
    });
}

// P10
inline void vectors(const char *label)
{
    pairs(label, 5, [](const Bits& o, const Bits& n, int k) {
        soa_vector<Bits> v(2, o);
        std::vector<Bits> m(2, o);
        switch (k) {
        case 0: v.push_back(n); m.push_back(n); break;
        case 1: v.set(1, n); m[1] = n; v.reserve(5); break;
        case 2: v.resize(3); v.set(2, n); m.push_back(n); break;
        case 3: v = soa_vector<Bits>(3, n); m = std::vector<Bits>(3, n); break;
        case 4: v.emplace_back(n); m.push_back(n); v.pop_back(); v.push_back(o); m[2] = o; break;
        }
        soa_vector<Bits> w(v);
        MC_CHECK(v.size() == m.size() && w.size() == m.size(), "size is wrong");
        for (std::size_t i = 0; i < m.size(); ++i) {
            VALUES_IS(v.get(i), m[i], "element");
            VALUES_IS(w.get(i), m[i], "element of the copy");
        }
    });
}

}

#endif
