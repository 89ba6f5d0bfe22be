// P02: struct-of-arrays layout. Types are generated (every sequence of member
// kinds up to a length); for each type and extents the address of every element
// of every member at every cell is compared with the cumulative-offset layout.
#include "mc.hpp"
#include <sys/mman.h>
#include <libflatarray/flat_array.hpp>

struct S12 { int a, b, c; };
struct S5 { char a[5]; };
struct S40 { double a[5]; };
template<typename T> struct Desc;
template<typename T> void check_type(const char *name, long id);

#include "generated.hpp"

using namespace LibFlatArray;

struct Sum
{
    std::size_t total; int n;
    void member(int, std::size_t size, int arity, int, char*) { total += size * (arity ? arity : 1); ++n; }
    void element(int, char*, char*) {}
};

template<typename A>
struct Visitor
{
    const char *name;
    A& acc;
    char *base;
    std::size_t prod, index;
    std::size_t off, size; // of the current member
    int k, arity;
    uint64_t h;

    Visitor(const char *name, A& acc, char *base, std::size_t prod, std::size_t index) :
        name(name), acc(acc), base(base), prod(prod), index(index), off(0), size(0), k(-1), arity(0), h(7)
    {}

    void member(int m, std::size_t s, int ar, int published, char *raw)
    {
        off += size * (arity ? arity : 1);
        k = m;
        size = s;
        arity = ar;
        MC_CHECK(published == long(off), "%s: published offset of member %d is %d, expected %zu", name, m, published, off);
        at(raw, 0, "typed raw access");
        at(acc.access_member(long(size), long(published)), 0, "untyped raw access");
        h = mc::mix(h, mc::mix(off, mc::mix(size, arity)));
    }

    void at(const char *p, int e, const char *how)
    {
        const char *expected = base + prod * (off + e * size) + index * size;
        MC_CHECK(p == expected, "%s: element %d of member %d of cell %zu (of %zu) via %s is at byte %ld, expected %ld", name, e, k, index, prod, how, long(p - base), long(expected - base));
        mc::step();
    }

    void element(int e, char *p, char *q)
    {
        at(p, e, "accessor");
        at(q, e, "template accessor");
    }
};

struct Refuses
{
    const char *name;
    template<typename P>
    void operator()(P p)
    {
        bool ok = false;
        try {
            member_ptr_to_offset()(p);
        } catch (const std::invalid_argument&) {
            ok = true;
        }
        MC_CHECK(ok, "%s: offset of an unregistered member was answered", name);
    }
};

// fills the registered members of a cell with running values and predicts the bytes of a container
struct Pattern
{
    int salt;
    std::size_t prod, index, off;
    char *image;
    template<typename M> void raw(M& m)
    {
        unsigned char *p = reinterpret_cast<unsigned char*>(&m);
        put(m, p);
    }
    template<typename M, std::size_t N> void put(M (&)[N], unsigned char *p) { for (std::size_t e = 0; e < N; ++e) bytes(p + e * sizeof(M), sizeof(M)); }
    template<typename M> void put(M&, unsigned char *p) { bytes(p, sizeof(M)); }
    void bytes(unsigned char *p, std::size_t n)
    {
        for (std::size_t i = 0; i < n; ++i) {
            p[i] = (unsigned char)(((salt * 37 + off * 5 + i * 11) % 61) + 1); // no NaNs: exponent bits never all set
            image[prod * off + index * n + i] = char(p[i]);
        }
        off += n;
    }
};

// compares the registered members of a cell with such a pattern
struct Verify
{
    const char *name, *what;
    int salt;
    std::size_t off;
    template<typename M> void raw(M& m) { put(m, reinterpret_cast<const unsigned char*>(&m)); }
    template<typename M, std::size_t N> void put(M (&)[N], const unsigned char *p) { for (std::size_t e = 0; e < N; ++e) bytes(p + e * sizeof(M), sizeof(M)); }
    template<typename M> void put(M&, const unsigned char *p) { bytes(p, sizeof(M)); }
    void bytes(const unsigned char *p, std::size_t n)
    {
        for (std::size_t i = 0; i < n; ++i) {
            unsigned char w = (unsigned char)(((salt * 37 + off * 5 + i * 11) % 61) + 1);
            MC_CHECK(p[i] == w, "%s: byte %zu of the element at offset %zu of the cell read back from the %s is 0x%02x, expected 0x%02x", name, i, off, what, p[i], w);
        }
        off += n;
    }
};

// address space without memory
struct sparse_allocator
{
    static bool possible()
    {
        void *p = mmap(0, std::size_t(1) << 38, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) return false;
        munmap(p, std::size_t(1) << 38);
        return true;
    }
    char *allocate(std::size_t n)
    {
        void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) throw std::bad_alloc();
        return static_cast<char*>(p);
    }
    void deallocate(char *p, std::size_t n) { munmap(p, n); }
};

template<typename T, long DX, long DY, long DZ>
void extents(const char *name, long id, char *base, bool all_cells)
{
    if (!mc::begin("layout", {id, DX, DY, DZ})) return;
    typedef soa_accessor<T, DX, DY, DZ, 0> A;
    MC_CHECK(A::DIM_PROD == long(std::size_t(DX) * DY * DZ), "%s: DIM_PROD is %ld", name, long(A::DIM_PROD));
    std::size_t prod = std::size_t(DX) * DY * DZ;
    uint64_t h = 0;
    auto one = [&](long x, long y, long z) {
        std::size_t index = (std::size_t(z) * DY + y) * DX + x;
        MC_CHECK(A::gen_index(x, y, z) == long(index), "%s: index of (%ld,%ld,%ld) in (%ld,%ld,%ld) is %ld", name, x, y, z, DX, DY, DZ, A::gen_index(x, y, z));
        MC_CHECK(A::gen_index(std::size_t(x), std::size_t(y), std::size_t(z)) == long(index), "%s: unsigned index of (%ld,%ld,%ld) is wrong", name, x, y, z);
        A a(base, A::gen_index(x, y, z));
        Visitor<A> v(name, a, base, prod, index);
        Desc<T>::visit(a, v);
        h = v.h;
    };
    if (all_cells) {
        for (long z = 0; z < DZ; ++z) for (long y = 0; y < DY; ++y) for (long x = 0; x < DX; ++x) one(x, y, z);
    } else {
        for (long z : {0L, 1L, DZ / 2, DZ - 1}) for (long y : {0L, 1L, DY / 2, DY - 1}) for (long x : {0L, 1L, DX / 2, DX - 1}) {
            if (x < DX && y < DY && z < DZ) one(x, y, z);
        }
    }
    mc::state(mc::mix(mc::mix(h, DX), mc::mix(DY, DZ)));
    mc::count_label("nontrivial");
}

template<typename T, typename C, typename G>
void image_check(const char *name, const char *what, C& c, G& get, std::size_t dx, std::size_t dy, std::size_t dz, std::size_t prod, std::size_t ex, std::size_t ey, const char *data)
{
    std::vector<char> image(prod * aggregated_member_size<T>::VALUE);
    std::vector<char> known(image.size(), 0);
    for (std::size_t z = 0; z < dz; ++z) for (std::size_t y = 0; y < dy; ++y) for (std::size_t x = 0; x < dx; ++x) {
        T cell;
        std::size_t index = (z * ey + y) * ex + x;
        Pattern p = {int(index) + 1, prod, index, 0, image.data()};
        Desc<T>::cell(cell, p);
        std::vector<char> scratch(image.size());
        Pattern q = {int(index) + 1, prod, index, 0, known.data()};
        T dummy;
        Desc<T>::cell(dummy, q); // non-zero byte = this byte is part of a cell
        c(x, y, z, cell);
    }
    for (std::size_t i = 0; i < image.size(); ++i) {
        if (known[i]) MC_CHECK(data[i] == image[i], "%s: byte %zu of the %s is 0x%02x, the layout says 0x%02x", name, i, what, (unsigned char)data[i], (unsigned char)image[i]);
    }
    for (std::size_t z = 0; z < dz; ++z) for (std::size_t y = 0; y < dy; ++y) for (std::size_t x = 0; x < dx; ++x) {
        T cell;
        get(x, y, z, cell);
        Verify v = {name, what, int((z * ey + y) * ex + x) + 1, 0};
        Desc<T>::cell(cell, v);
    }
    mc::step(image.size());
}

template<typename T>
void check_type(const char *name, long id)
{
    static char buf[1 << 18];
    char *far = reinterpret_cast<char*>(0x100000000000L);
    extents<T, 1, 1, 1>(name, id, buf, true);
    extents<T, 5, 1, 1>(name, id, buf, true);
    extents<T, 3, 2, 2>(name, id, buf, true);
    extents<T, 2, 3, 4>(name, id, buf, true);
    // beyond 2^31 and 2^32 cells: pure address arithmetic
    extents<T, 1032, 1040, 1056>(name, id, far, false);
    extents<T, 65568, 65568, 2>(name, id, far, false);
    if (!mc::begin("facts", {id})) return;
    {
        soa_accessor<T, 1, 1, 1, 0> a(buf, 0);
        Sum s = {0, 0};
        Desc<T>::visit(a, s);
        MC_CHECK(number_of_members<T>::VALUE == s.n, "%s: number of members is %d, expected %d", name, int(number_of_members<T>::VALUE), s.n);
        MC_CHECK(aggregated_member_size<T>::VALUE == s.total, "%s: aggregated member size is %zu, expected %zu", name, std::size_t(aggregated_member_size<T>::VALUE), s.total);
        Refuses r = {name};
        Desc<T>::unregistered(r);
        soa_grid<T> g(3, 2, 1);
        MC_CHECK(g.byte_size() == 12 * s.total, "%s: grid of 12 cells has %zu bytes, expected %zu", name, g.byte_size(), 12 * s.total);
        auto setter = [&](std::size_t x, std::size_t y, std::size_t z, const T& c) { g.set(x, y, z, c); };
        auto getter = [&](std::size_t x, std::size_t y, std::size_t z, T& c) { g.get(x, y, z, &c, 1); };
        image_check<T>(name, "grid", setter, getter, 3, 2, 1, 12, 3, 2, g.data());
        {
            // with another storage set everything happens there
            char *own = g.data();
            const std::size_t n = g.byte_size();
            std::memset(own, 0x77, n);
            std::vector<char, aligned_allocator<char, 4096> > other(n, 0);
            g.set_data(other.data());
            const soa_grid<T>& cg = g;
            MC_CHECK(g.data() == other.data() && cg.data() == other.data(), "%s: another storage was set, but data() differs", name);
            image_check<T>(name, "grid with another storage", setter, getter, 3, 2, 1, 12, 3, 2, other.data());
            MC_CHECK(g.byte_size() == n, "%s: setting another storage changed the size", name);
            for (std::size_t i = 0; i < n; ++i) MC_CHECK(own[i] == 0x77, "%s: byte %zu of the former storage was written", name, i);
            g.set_data(own);
            std::memcpy(own, other.data(), n);
            image_check<T>(name, "grid with its own storage", setter, getter, 3, 2, 1, 12, 3, 2, own);
        }
        soa_array<T, 5> arr(4);
        MC_CHECK(arr.byte_size() == 4 * s.total, "%s: array of 4 cells has %zu bytes, expected %zu", name, arr.byte_size(), 4 * s.total);
        auto asetter = [&](std::size_t x, std::size_t, std::size_t, const T& c) { arr[x] << c; };
        auto agetter = [&](std::size_t x, std::size_t, std::size_t, T& c) { arr[x] >> c; };
        image_check<T>(name, "array", asetter, agetter, 4, 1, 1, 5, 5, 1, arr.data());
    }
    mc::step();
}

// real grids with extents beyond 2^32 cells
class Huge
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((3)(65568), (65568), (1)(2)) };
    double d;
    char c[3];
    int i;
};
LIBFLATARRAY_REGISTER_SOA(Huge, ((double)(d))((char)(c)(3))((int)(i)))

static void huge_grids()
{
    if (!sparse_allocator::possible()) { mc::extra("huge_extents_not_possible_here", 1); return; }
    for (long dx : {2, 4}) for (long dz : {1, 2}) {
        if (!mc::begin("huge_grid", {dx, dz})) continue;
        soa_grid<Huge, sparse_allocator> g(dx, 2, dz);
        std::size_t ex = dx < 4 ? 3 : 65568, prod = ex * 65568 * dz;
        MC_CHECK(g.byte_size() == prod * 15, "grid of %zu cells has %zu bytes, expected %zu", prod, g.byte_size(), prod * 15);
        for (long z = 0; z < dz; ++z) for (long y = 0; y < 2; ++y) for (long x = 0; x < dx; ++x) {
            std::size_t index = (std::size_t(z) * 65568 + y) * ex + x;
            Huge h;
            h.d = 1.5 + index;
            for (int e = 0; e < 3; ++e) h.c[e] = char(x + 2 * y + 5 * z + 9 * e + 1);
            h.i = int(index % 1000007);
            g.set(x, y, z, h);
            const char *p = g.data();
            double d;
            int i;
            std::memcpy(&d, p + index * 8, 8);
            std::memcpy(&i, p + prod * 11 + index * 4, 4);
            MC_CHECK(d == h.d && i == h.i, "cell (%ld,%ld,%ld) is not where the layout says", x, y, z);
            for (int e = 0; e < 3; ++e) MC_CHECK(p[prod * (8 + e) + index] == h.c[e], "cell (%ld,%ld,%ld): element %d is not where the layout says", x, y, z, e);
            mc::step();
        }
        mc::state(mc::mix(dx, mc::mix(dz, 31)));
    }
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    all_types();
    huge_grids();
    mc::sample("class {double; char[3]; short}, extents 2x3x4: 24 cells x 5 element arrays at the cumulative offsets");
    mc::sample("class of 50 members, extents 65568x65568x2: corner cells, pure address arithmetic");
    return mc::finish();
}
