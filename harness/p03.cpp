// P03: all accessor flavours and neighbour lookups designate the same cells.
// Addresses: every flavour x every base cell x every relative coordinate of a
// cube, also chained. Values: every writer x every reader x every cell, with a
// byte-exact frame check of the whole storage.
#include "mc.hpp"
#include "values.hpp"
#include "cells.hpp"
#include <libflatarray/flat_array.hpp>
#include <utility>
#include <vector>
#include <sys/mman.h>

using namespace LibFlatArray;

class Cell
{
public:
    LIBFLATARRAY_ACCESS
    double d;
    int unregistered;
    int i;
    char c[3];
    short s[2];
    double unregistered2[2];
    Cell() : d(0), unregistered(77), i(0), f(0), u(0) { std::memset(c, 0, sizeof(c)); std::memset(s, 0, sizeof(s)); unregistered2[0] = 5; unregistered2[1] = 6; }
    void fill(int t)
    {
        d = t * 1.25 + 0.5;
        i = t * 7 + 1;
        for (int k = 0; k < 3; ++k) c[k] = char(1 + ((t * 3 + k * 41) & 0x7e));
        f = t + 0.75f;
        for (int k = 0; k < 2; ++k) s[k] = short(t * 11 + k * 5003 + 3);
        u = (unsigned char)(t * 5 + 9);
    }
    static Cell make(int t) { Cell x; x.fill(t); return x; }
    bool is(int t) const
    {
        Cell o = make(t);
        return d == o.d && i == o.i && !std::memcmp(c, o.c, 3) && f == o.f && !std::memcmp(s, o.s, sizeof(s)) && u == o.u;
    }
    bool rest_untouched() const { return unregistered == 77 && unregistered2[0] == 5 && unregistered2[1] == 6; }
    // bytes in registration order, for the oracle
    void raw(int m, int e, char *to) const
    {
        switch (m) {
        case 0: std::memcpy(to, &d, 8); break;
        case 1: std::memcpy(to, &i, 4); break;
        case 2: std::memcpy(to, &c[e], 1); break;
        case 3: std::memcpy(to, &f, 4); break;
        case 4: std::memcpy(to, &s[e], 2); break;
        case 5: std::memcpy(to, &u, 1); break;
        }
    }
private:
    float f;
    unsigned char u;
};
LIBFLATARRAY_REGISTER_SOA(Cell, ((double)(d))((int)(i))((char)(c)(3))((float)(f))((short)(s)(2))((unsigned char)(u)))

static const int SIZE[6] = {8, 4, 1, 4, 2, 1};
static const int ARITY[6] = {1, 1, 3, 1, 2, 1};
static const int OFF[6] = {0, 8, 12, 15, 19, 23};
enum { AGG = 24 };

static long addr(std::size_t prod, long index, int m, int e) { return long(prod) * (OFF[m] + e * SIZE[m]) + index * SIZE[m]; }

// ------------------------------------------------------------------ addresses
static const char *flavour = "";
static long base_index;

template<typename A>
void where(const A& ca, const char *data, long prod, long index, int x, int y, int z)
{
    A& a = const_cast<A&>(ca);
    const void *p[6][3] = {
        {&a.d()}, {&a.i()}, {&a.c()[0], &a.c()[1], &a.c()[2]}, {&a.f()}, {&a.s()[0], &a.s()[1]}, {&a.u()}};
    const void *cp[6][3] = {
        {&ca.d()}, {&ca.i()}, {&ca.c()[0], &ca.c()[1], &ca.c()[2]}, {&ca.f()}, {&ca.s()[0], &ca.s()[1]}, {&ca.u()}};
    const void *tp[6][3] = {
        {&a.d()}, {&a.i()}, {&a.template c<0>(), &a.template c<1>(), &a.template c<2>()}, {&a.f()}, {&a.template s<0>(), &a.template s<1>()}, {&ca.u()}};
    for (int m = 0; m < 6; ++m) {
        for (int e = 0; e < ARITY[m]; ++e) {
            long want = addr(prod, index, m, e);
            MC_CHECK(static_cast<const char*>(p[m][e]) - data == want, "%s: base cell %ld, neighbour (%d,%d,%d): member %d[%d] is at byte %ld, expected %ld", flavour, base_index, x, y, z, m, e, long(static_cast<const char*>(p[m][e]) - data), want);
            MC_CHECK(cp[m][e] == p[m][e], "%s: read-only access to member %d[%d] designates a different address", flavour, m, e);
            MC_CHECK(tp[m][e] == p[m][e], "%s: template access to member %d[%d] designates a different address", flavour, m, e);
        }
    }
    MC_CHECK(ca.data() == data, "%s: data() is off", flavour);
    mc::step();
}

// raw access exists on the writable flavours only
template<typename A>
auto raw_access(A& a, const char *data, long prod, long index, int) -> decltype(a.access_member(1L, 0L), void())
{
    const char *t[6] = {
        (const char*)&a.template access_member<double, 0>(), (const char*)&a.template access_member<int, 1>(), (const char*)&a.template access_member<char, 2>(),
        (const char*)&a.template access_member<float, 3>(), (const char*)&a.template access_member<short, 4>(), (const char*)&a.template access_member<unsigned char, 5>()};
    for (int m = 0; m < 6; ++m) {
        long want = addr(prod, index, m, 0);
        MC_CHECK(t[m] - data == want, "%s: typed raw access to member %d is at byte %ld, expected %ld", flavour, m, long(t[m] - data), want);
        for (int e = 0; e < ARITY[m]; ++e) {
            const char *q = a.access_member(SIZE[m], OFF[m] + e * SIZE[m]);
            MC_CHECK(q - data == addr(prod, index, m, e), "%s: untyped raw access to member %d[%d] is at byte %ld, expected %ld", flavour, m, e, long(q - data), addr(prod, index, m, e));
        }
    }
}
template<typename A>
void raw_access(A&, const char*, long, long, long) {}

template<int X, int Y, int Z, typename A>
void neighbour(A& a, const char *data, long prod, long dx, long dxy, long index, bool raw)
{
    long at = index + X + Y * dx + Z * dxy;
    auto n = a[coord<X, Y, Z>()];
    where(n, data, prod, at, X, Y, Z);
    raw_access(n, data, prod, at, 0);
}

enum { W = 5, CUBE = W * W * W };
template<typename A, std::size_t... K>
void cube(A& a, const char *data, long prod, long dx, long dxy, long index, std::index_sequence<K...>)
{
    int dummy[] = {(neighbour<int(K % W) - W / 2, int(K / W % W) - W / 2, int(K / W / W) - W / 2>(a, data, prod, dx, dxy, index, true), 0)...};
    (void)dummy;
}

template<int X, int Y, int Z, typename A, std::size_t... K>
void chained_inner(A& a, const char *data, long prod, long dx, long dxy, long index, std::index_sequence<K...>)
{
    auto n = a[coord<X, Y, Z>()];
    long at = index + X + Y * dx + Z * dxy;
    int dummy[] = {(neighbour<int(K % 3) - 1, int(K / 3 % 3) - 1, int(K / 9) - 1>(n, data, prod, dx, dxy, at, true), 0)...};
    (void)dummy;
    // three levels: there, back and one further
    auto o = n[coord<-X, -Y, -Z>()];
    where(o, data, prod, index, 0, 0, 0);
    auto q = o[coord<Z, X, Y>()];
    where(q, data, prod, index + Z + X * dx + Y * dxy, Z, X, Y);
}
template<typename A, std::size_t... K>
void chained(A& a, const char *data, long prod, long dx, long dxy, long index, std::index_sequence<K...>)
{
    int dummy[] = {(chained_inner<int(K % 3) - 1, int(K / 3 % 3) - 1, int(K / 9) - 1>(a, data, prod, dx, dxy, index, std::make_index_sequence<27>()), 0)...};
    (void)dummy;
}

template<typename A>
void arithmetic(A& a, const char *data, long prod, long fixed)
{
    // the accessor sits at runtime index i (plus its compile-time part)
    long i = a.index();
    const A& ca = a;
    MC_CHECK(ca.index() == i, "%s: index() differs between const and non-const", flavour);
    ++a;
    where(a, data, prod, i + 1 + fixed, 1, 0, 0);
    MC_CHECK(a.index() == i + 1, "%s: ++ moved the index from %ld to %ld", flavour, i, a.index());
    for (long k = -3; k <= 3; ++k) {
        a.index() = i;
        a += k;
        MC_CHECK(ca.index() == i + k, "%s: += %ld moved the index from %ld to %ld", flavour, k, i, ca.index());
        where(a, data, prod, i + k + fixed, int(k), 0, 0);
    }
    a.index() = i;
    where(a, data, prod, i + fixed, 0, 0, 0);
}

// every coordinate; of huge extents (storage is only reserved) the first, middle and last ones
static std::vector<long> coordinates(long d)
{
    std::vector<long> r;
    for (long i = 0; i < d; ++i) if (d <= 100 || i < 2 || i >= d - 2 || i == d / 2) r.push_back(i);
    return r;
}

template<typename A>
void far_away(A& a, const char *data, long prod, long dx, long dxy, long index)
{
    neighbour<100, 0, 0>(a, data, prod, dx, dxy, index, true);
    neighbour<-1000, 3, 0>(a, data, prod, dx, dxy, index, true);
    neighbour<0, 300, -7>(a, data, prod, dx, dxy, index, true);
    neighbour<7, -129, 256>(a, data, prod, dx, dxy, index, true);
    neighbour<-40000, 0, 70000>(a, data, prod, dx, dxy, index, true);
    neighbour<3, 40000, -33000>(a, data, prod, dx, dxy, index, true);
}

template<long DX, long DY, long DZ>
void addresses(const char *label)
{
    const long prod = DX * DY * DZ;
    static char *storage = static_cast<char*>(mmap(0, AGG * prod, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (storage == MAP_FAILED) std::exit(2);
    auto C = std::make_index_sequence<CUBE>();
    auto N = std::make_index_sequence<27>();
    for (long z : coordinates(DZ)) for (long y : coordinates(DY)) for (long x : coordinates(DX)) {
        if (!mc::begin(label, {x, y, z})) continue;
        typedef soa_accessor<Cell, DX, DY, DZ, 0> S;
        typedef const_soa_accessor<Cell, DX, DY, DZ, 0> CS;
        typedef soa_accessor_light<Cell, DX, DY, DZ, 0> L;
        typedef const_soa_accessor_light<Cell, DX, DY, DZ, 0> CL;
        long i = (z * DY + y) * DX + x;
        base_index = i;
        for (long v : {S::gen_index(x, y, z), CS::gen_index(x, y, z), L::gen_index(x, y, z), CL::gen_index(x, y, z)}) MC_CHECK(v == i, "gen_index(%ld,%ld,%ld) is %ld, expected %ld", x, y, z, v, i);
        std::size_t ux = x, uy = y, uz = z;
        for (long v : {S::gen_index(ux, uy, uz), CS::gen_index(ux, uy, uz), L::gen_index(ux, uy, uz), CL::gen_index(ux, uy, uz)}) MC_CHECK(v == i, "unsigned gen_index(%ld,%ld,%ld) is %ld, expected %ld", x, y, z, v, i);
        {
            flavour = "soa_accessor";
            S a(storage, i);
            where(a, storage, prod, i, 0, 0, 0);
            raw_access(a, storage, prod, i, 0);
            cube(a, storage, prod, DX, DX * DY, i, C);
            far_away(a, storage, prod, DX, DX * DY, i);
            chained(a, storage, prod, DX, DX * DY, i, N);
            arithmetic(a, storage, prod, 0);
            MC_CHECK(a == S(storage, i) && !(a != S(storage, i)), "soa_accessors of the same cell differ");
            MC_CHECK(!(a == S(storage, i + 1)) && a != S(storage, i + 1), "soa_accessors of different cells are equal");
            MC_CHECK(!(a == S(storage + 1, i)) && a != S(storage + 1, i), "soa_accessors of different containers are equal");
            flavour = "const soa_accessor&";
            const S& ca = a;
            cube(ca, storage, prod, DX, DX * DY, i, C);
            chained(ca, storage, prod, DX, DX * DY, i, N);
            // a compile-time part in the accessor itself
            flavour = "soa_accessor with static index";
            soa_accessor<Cell, DX, DY, DZ, DX + 1> o(storage, i);
            where(o, storage, prod, i + DX + 1, 0, 0, 0);
            raw_access(o, storage, prod, i + DX + 1, 0);
            cube(o, storage, prod, DX, DX * DY, i + DX + 1, C);
            arithmetic(o, storage, prod, DX + 1);
        }
        {
            flavour = "const_soa_accessor";
            CS a(storage, i);
            where(a, storage, prod, i, 0, 0, 0);
            cube(a, storage, prod, DX, DX * DY, i, C);
            far_away(a, storage, prod, DX, DX * DY, i);
            chained(a, storage, prod, DX, DX * DY, i, N);
            arithmetic(a, storage, prod, 0);
            MC_CHECK(a == CS(storage, i) && a != CS(storage, i + 1) && a != CS(storage + 1, i), "comparison of const_soa_accessors is wrong");
            const_soa_accessor<Cell, DX, DY, DZ, DX + 1> o(storage, i);
            cube(o, storage, prod, DX, DX * DY, i + DX + 1, C);
            arithmetic(o, storage, prod, DX + 1);
        }
        {
            flavour = "soa_accessor_light";
            long j = i;
            L a(storage, j);
            where(a, storage, prod, i, 0, 0, 0);
            raw_access(a, storage, prod, i, 0);
            cube(a, storage, prod, DX, DX * DY, i, C);
            far_away(a, storage, prod, DX, DX * DY, i);
            chained(a, storage, prod, DX, DX * DY, i, N);
            arithmetic(a, storage, prod, 0);
            MC_CHECK(a == L(storage, j) && !(a != L(storage, j)), "comparison of soa_accessor_lights is wrong");
            soa_accessor_light<Cell, DX, DY, DZ, DX + 1> o(storage, j);
            cube(o, storage, prod, DX, DX * DY, i + DX + 1, C);
            arithmetic(o, storage, prod, DX + 1);
        }
        {
            flavour = "const_soa_accessor_light";
            long j = i;
            CL a(storage, j);
            where(a, storage, prod, i, 0, 0, 0);
            cube(a, storage, prod, DX, DX * DY, i, C);
            far_away(a, storage, prod, DX, DX * DY, i);
            chained(a, storage, prod, DX, DX * DY, i, N);
            arithmetic(a, storage, prod, 0);
            MC_CHECK(a == CL(storage, j) && !(a != CL(storage, j)), "comparison of const_soa_accessor_lights is wrong");
            const_soa_accessor_light<Cell, DX, DY, DZ, DX + 1> o(storage, j);
            cube(o, storage, prod, DX, DX * DY, i + DX + 1, C);
            arithmetic(o, storage, prod, DX + 1);
        }
        mc::state(mc::mix(mc::mix(DX, DY), mc::mix(DZ, i)));
        mc::count_label("nontrivial");
    }
}

// --------------------------------------------------------------------- values
struct Image
{
    std::vector<char> b;
    long prod;
    explicit Image(long prod) : b(prod * AGG), prod(prod)
    {
        // distinct tokens everywhere
        for (long i = 0; i < prod; ++i) put(i, Cell::make(int(i) + 40));
    }
    void put(long i, const Cell& c)
    {
        for (int m = 0; m < 6; ++m) for (int e = 0; e < ARITY[m]; ++e) c.raw(m, e, &b[addr(prod, i, m, e)]);
    }
};

template<typename A>
void write_members(A& a, const Cell& c, int t)
{
    Cell x = Cell::make(t);
    a.d() = x.d;
    a.i() = x.i;
    for (int k = 0; k < 3; ++k) a.c()[k] = x.c[k];
    float f; x.raw(3, 0, (char*)&f);
    a.f() = f;
    a.template s<0>() = x.s[0];
    a.template s<1>() = x.s[1];
    unsigned char u; x.raw(5, 0, (char*)&u);
    a.u() = u;
}

template<long DX, long DY, long DZ>
struct Values
{
    typedef soa_accessor<Cell, DX, DY, DZ, 0> S;
    typedef const_soa_accessor<Cell, DX, DY, DZ, 0> CS;
    typedef soa_accessor_light<Cell, DX, DY, DZ, 0> L;
    typedef const_soa_accessor_light<Cell, DX, DY, DZ, 0> CL;
    enum { WRITERS = 12, READERS = 16 };

    static const char *wname(int w)
    {
        static const char *n[] = {"accessor members", "accessor <<", "accessor =", "light members", "light <<", "light =", "neighbour of accessor <<", "neighbour of light =", "raw typed", "raw untyped", "static index <<", "static index light members"};
        return n[w];
    }

    static void write(int w, char *data, long i, int t)
    {
        Cell c = Cell::make(t);
        long j = i;
        S a(data, i);
        L l(data, j);
        switch (w) {
        case 0: write_members(a, c, t); break;
        case 1: a << c; break;
        case 2: a = c; break;
        case 3: write_members(l, c, t); break;
        case 4: l << c; break;
        case 5: l = c; break;
        case 6: { S b(data, i - 1 - DX); b[coord<1, 1, 0>()] << c; break; }
        case 7: { j = i + 1 + DX * DY; l[coord<-1, 0, -1>()] = c; break; }
        case 8: {
            a.template access_member<double, 0>() = c.d;
            l.template access_member<int, 1>() = c.i;
            for (int k = 0; k < 3; ++k) (&a.template access_member<char, 2>())[k * DX * DY * DZ] = c.c[k];
            float f; c.raw(3, 0, (char*)&f);
            a.template access_member<float, 3>() = f;
            for (int k = 0; k < 2; ++k) (&l.template access_member<short, 4>())[k * DX * DY * DZ] = c.s[k];
            unsigned char u; c.raw(5, 0, (char*)&u);
            l.template access_member<unsigned char, 5>() = u;
            break;
        }
        case 9:
            for (int m = 0; m < 6; ++m) for (int e = 0; e < ARITY[m]; ++e) {
                char tmp[8];
                c.raw(m, e, tmp);
                std::memcpy((m & 1) ? a.access_member(SIZE[m], OFF[m] + e * SIZE[m]) : l.access_member(SIZE[m], OFF[m] + e * SIZE[m]), tmp, SIZE[m]);
            }
            break;
        case 10: { soa_accessor<Cell, DX, DY, DZ, DX + 1> o(data, i - DX - 1); o << c; break; }
        case 11: { j = i - 2; soa_accessor_light<Cell, DX, DY, DZ, 2> o(data, j); write_members(o, c, t); break; }
        }
    }

    template<typename A>
    static Cell members(A& a)
    {
        // member by member; the private ones through the raw copy of a whole-cell read
        Cell c = Cell::make(1);
        c.d = a.d();
        c.i = a.i();
        for (int k = 0; k < 3; ++k) c.c[k] = a.c()[k];
        for (int k = 0; k < 2; ++k) c.s[k] = a.s()[k];
        Cell r;
        a >> r;
        float f = a.f(), rf; r.raw(3, 0, (char*)&rf);
        unsigned char u = a.u(), ru; r.raw(5, 0, (char*)&ru);
        MC_CHECK(f == rf && u == ru, "private members differ between member access and whole-cell read");
        MC_CHECK(c.d == r.d && c.i == r.i && !std::memcmp(c.c, r.c, 3) && !std::memcmp(c.s, r.s, 4), "members differ between member access and whole-cell read");
        return r;
    }

    static Cell read(int r, char *data, long i)
    {
        long j = i, j2 = i;
        S a(data, i);
        const S& cs = a;
        CS b(data, i);
        L l(data, j);
        CL m(data, j2);
        Cell c;
        switch (r) {
        case 0: return members(a);
        case 1: return members(cs);
        case 2: return members(b);
        case 3: return members(l);
        case 4: return members(m);
        case 5: a >> c; return c;
        case 6: b >> c; return c;
        case 7: l >> c; return c;
        case 8: m >> c; return c;
        case 9: return Cell(a);
        case 10: return Cell(b);
        case 11: return Cell(l);
        case 12: return Cell(m);
        case 13: c << a; return c;
        case 14: { const S o(data, i + DX); auto n = o[coord<0, -1, 0>()]; return members(n); }
        case 15: { j2 = i - DX * DY; auto n = m[coord<0, 0, 1>()]; return members(n); }
        }
        return c;
    }

    static void run(const char *label)
    {
        const long prod = DX * DY * DZ;
        for (int w = 0; w < WRITERS; ++w) for (int r = 0; r < READERS; ++r) for (long i = 0; i < prod; ++i) {
            if (!mc::begin(label, {w, r, i})) continue;
            Image img(prod);
            std::vector<char> box(img.b.size() + 128, 0x55);
            char *data = &box[64];
            std::memcpy(data, img.b.data(), img.b.size());
            write(w, data, i, 9);
            img.put(i, Cell::make(9));
            auto same = [&](const char *when) {
                for (std::size_t k = 0; k < img.b.size(); ++k) MC_CHECK(data[k] == img.b[k], "%s via %s at cell %ld: byte %zu of the storage is 0x%02x, expected 0x%02x", when, wname(w), i, k, (unsigned char)data[k], (unsigned char)img.b[k]);
                for (int k = 0; k < 64; ++k) MC_CHECK(box[k] == 0x55 && box[box.size() - 1 - k] == 0x55, "%s via %s at cell %ld wrote outside of the storage", when, wname(w), i);
            };
            same("write");
            mc::step();
            for (long k = 0; k < prod; ++k) {
                Cell c = read(r, data, k);
                MC_CHECK(c.is(k == i ? 9 : int(k) + 40), "reader %d does not see cell %ld after a write to cell %ld via %s", r, k, i, wname(w));
                MC_CHECK(c.rest_untouched(), "reader %d changed members which are not registered", r);
            }
            same("read");
            mc::state(mc::mix(mc::mix(w, r), mc::mix(i, DX * 100 + DY * 10 + DZ)));
        }
    }
};

template<typename TARGET, typename SOURCE>
void copy_one(TARGET t, SOURCE s, std::size_t n) { t.copy_members(s, n); }

template<long AX, long AY, long AZ, long BX, long BY, long BZ>
void copies(const char *label)
{
    const long pa = AX * AY * AZ, pb = BX * BY * BZ;
    for (int kind = 0; kind < 8; ++kind) for (long i = 0; i < pa; ++i) for (long j = 0; j < pb; ++j) for (long n = 0; n <= std::min(pa - i, pb - j); ++n) {
        if (!mc::begin(label, {kind, i, j, n})) continue;
        Image from(pa), to(pb);
        for (long k = 0; k < pb; ++k) to.put(k, Cell::make(int(k) + 90));
        std::vector<char> a = from.b, b = to.b;
        long ii = i, jj = j;
        soa_accessor<Cell, BX, BY, BZ, 0> t(b.data(), j);
        soa_accessor_light<Cell, BX, BY, BZ, 0> tl(b.data(), jj);
        soa_accessor<Cell, AX, AY, AZ, 0> s0(a.data(), i);
        const_soa_accessor<Cell, AX, AY, AZ, 0> s1(a.data(), i);
        soa_accessor_light<Cell, AX, AY, AZ, 0> s2(a.data(), ii);
        const_soa_accessor_light<Cell, AX, AY, AZ, 0> s3(a.data(), ii);
        switch (kind) {
        case 0: copy_one(t, s0, n); break;
        case 1: copy_one(t, s1, n); break;
        case 2: copy_one(t, s2, n); break;
        case 3: copy_one(t, s3, n); break;
        case 4: copy_one(tl, s0, n); break;
        case 5: copy_one(tl, s1, n); break;
        case 6: copy_one(tl, s2, n); break;
        case 7: copy_one(tl, s3, n); break;
        }
        for (long k = 0; k < n; ++k) to.put(j + k, Cell::make(int(i + k) + 40));
        MC_CHECK(a == from.b, "copying members changed the source");
        for (std::size_t k = 0; k < b.size(); ++k) MC_CHECK(b[k] == to.b[k], "copy of %ld cells from %ld to %ld: byte %zu of the target is 0x%02x, expected 0x%02x", n, i, j, k, (unsigned char)b[k], (unsigned char)to.b[k]);
        mc::step();
        mc::state(mc::mix(mc::mix(kind, i), mc::mix(j, n)));
    }
}

// ------------------------------------------- array members of many arities
WIDE_BODY(Wide, );
WIDE_REGISTER(Wide)

struct WideImage
{
    std::vector<char> b;
    long prod;
    WideImage(long prod, int salt) : b(prod * WIDE_AGG), prod(prod) { for (long i = 0; i < prod; ++i) put(i, Wide::make(int(i) + salt)); }
    void put(long i, Wide c)
    {
        std::size_t off = 0;
        c.elements([&](auto *p, int k, int&) {
            for (int e = 0; e < k; ++e, off += sizeof(*p)) std::memcpy(&b[prod * off + i * sizeof(*p)], p + e, sizeof(*p));
        });
    }
    void same(const std::vector<char>& data, const char *when) const
    {
        for (std::size_t k = 0; k < b.size(); ++k) MC_CHECK(data[k] == b[k], "%s: byte %zu of the storage is 0x%02x, expected 0x%02x", when, k, (unsigned char)data[k], (unsigned char)b[k]);
    }
};

template<long DX, long DY, long DZ>
void wide(const char *label)
{
    const long prod = DX * DY * DZ;
    typedef soa_accessor<Wide, DX, DY, DZ, 0> S;
    typedef const_soa_accessor<Wide, DX, DY, DZ, 0> CS;
    typedef soa_accessor_light<Wide, DX, DY, DZ, 0> L;
    typedef const_soa_accessor_light<Wide, DX, DY, DZ, 0> CL;
    static const char *names[] = {"accessor <<", "accessor =", "light <<", "light =", "neighbour <<", "copy_members of an accessor", "copy_members of a light accessor", "copy_members of 2 cells"};
    for (int w = 0; w < 8; ++w) for (long i = 0; i < prod; ++i) for (int t : {9, 60}) {
        if (!mc::begin(label, {w, i, t})) continue;
        flavour = names[w];
        WideImage want(prod, 40), other(prod, 20);
        std::vector<char> data = want.b, from = other.b;
        Wide c = Wide::make(t);
        long j = i, n = 0;
        S a(data.data(), i);
        L l(data.data(), j);
        switch (w) {
        case 0: a << c; break;
        case 1: a = c; break;
        case 2: l << c; break;
        case 3: l = c; break;
        case 4: { S b(data.data(), i - 1 - DX); b[coord<1, 1, 0>()] << c; break; }
        case 5: a.copy_members(CS(from.data(), prod - 1 - i), 1); n = 1; break;
        case 6: { long q = prod - 1 - i; l.copy_members(L(from.data(), q), 1); n = 1; break; }
        case 7: n = std::min(2L, std::min(prod - i, i + 1)); a.copy_members(S(from.data(), prod - 1 - i), n); break;
        }
        if (n) for (long k = 0; k < n; ++k) want.put(i + k, Wide::make(int(prod - 1 - i + k) + 20));
        else want.put(i, c);
        want.same(data, names[w]);
        other.same(from, "source of the copy");
        mc::step();
        for (int r = 0; r < 9; ++r) for (long k = 0; k < prod; ++k) {
            long j1 = k, j2 = k;
            S s(data.data(), k);
            CS cs(data.data(), k);
            L lt(data.data(), j1);
            CL cl(data.data(), j2);
            Wide got = Wide::make(99);
            switch (r) {
            case 0: s >> got; break;
            case 1: cs >> got; break;
            case 2: lt >> got; break;
            case 3: cl >> got; break;
            case 4: got = Wide(s); break;
            case 5: got = Wide(cs); break;
            case 6: got = Wide(lt); break;
            case 7: got = Wide(cl); break;
            case 8: got << s; break;
            }
            int token = !n ? (k == i ? t : int(k) + 40) : (k >= i && k < i + n) ? int(prod - 1 - i + (k - i)) + 20 : int(k) + 40;
            MC_CHECK(got.is(token), "reader %d: cell %ld is %s after a write to cell %ld via %s", r, k, got.str().c_str(), i, names[w]);
            mc::step();
        }
        want.same(data, "after reading");
        mc::state(mc::mix(mc::mix(w, i), mc::mix(t, prod)));
    }
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
#if PART == 0
    addresses<5, 4, 3>("addresses_5x4x3");
#elif PART == 1
    addresses<2, 3, 5>("addresses_2x3x5");
#elif PART == 2
    Values<3, 2, 2>::run("values_3x2x2");
    Values<2, 3, 1>::run("values_2x3x1");
    Values<5, 1, 1>::run("values_5x1x1");
    copies<3, 2, 1, 2, 2, 2>("copy_3x2x1_to_2x2x2");
    copies<1, 4, 1, 5, 1, 1>("copy_1x4x1_to_5x1x1");
#elif PART == 3
    addresses<7, 1, 1>("addresses_7x1x1");
    addresses<64, 3, 1>("addresses_64x3x1");
#elif PART == 4
    addresses<16, 8, 5>("addresses_16x8x5");
#elif PART == 5
    addresses<70000, 3, 70000>("addresses_70000x3x70000");
#elif PART == 6
    values::accessors("bit_patterns");
#elif PART == 7
    wide<3, 2, 2>("wide_3x2x2");
    wide<5, 1, 1>("wide_5x1x1");
#endif
    mc::sample("addresses_5x4x3: soa_accessor_light at (3,1,2), coord<-1,0,1> then coord<1,-1,-1> then back");
    mc::sample("values_3x2x2: written via neighbour of light =, read via const soa_accessor&, cell 7");
    return mc::finish();
}
