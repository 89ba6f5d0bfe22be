// P05: extent selection. Every shape around every boundary of every kind of
// size list, against a direct re-statement of "smallest registered size".
#include "cells.hpp"
#include <algorithm>
#include <set>

using namespace LibFlatArray;

#define CELL(NAME, API_CLASS)                                   \
class NAME { public: LIBFLATARRAY_ACCESS API_CLASS NAME() : a(0), b(0) {} char a; short b; }; \

CELL(N3, class API { public: LIBFLATARRAY_CUSTOM_SIZES((2)(3)(5)(8), (1)(4)(6), (3)(7)) };)
LIBFLATARRAY_REGISTER_SOA(N3, ((char)(a))((short)(b)))
CELL(N31, class API { public: LIBFLATARRAY_CUSTOM_SIZES((4), (2), (1)) };)
LIBFLATARRAY_REGISTER_SOA(N31, ((char)(a))((short)(b)))
CELL(U1, class API { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((2)(3)(5)(9)(14)) };)
LIBFLATARRAY_REGISTER_SOA(U1, ((char)(a))((short)(b)))
CELL(U2, class API { public: LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((1)(2)(5)(7)) };)
LIBFLATARRAY_REGISTER_SOA(U2, ((char)(a))((short)(b)))
CELL(U3, class API { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((1)(3)(4)(6)) };)
LIBFLATARRAY_REGISTER_SOA(U3, ((char)(a))((short)(b)))
CELL(D, )
LIBFLATARRAY_REGISTER_SOA(D, ((char)(a))((short)(b)))
CELL(D1, class API : public api_traits::has_default_1d_sizes {};)
LIBFLATARRAY_REGISTER_SOA(D1, ((char)(a))((short)(b)))
CELL(D2U, class API : public api_traits::has_default_2d_sizes_uniform {};)
LIBFLATARRAY_REGISTER_SOA(D2U, ((char)(a))((short)(b)))
CELL(D3U, class API : public api_traits::has_default_3d_sizes_uniform {};)
LIBFLATARRAY_REGISTER_SOA(D3U, ((char)(a))((short)(b)))
CELL(D2, class API : public api_traits::has_default_2d_sizes {};)
LIBFLATARRAY_REGISTER_SOA(D2, ((char)(a))((short)(b)))
CELL(D3, class API : public api_traits::has_default_3d_sizes {};)
LIBFLATARRAY_REGISTER_SOA(D3, ((char)(a))((short)(b)))

typedef std::vector<long> L;
static const L L1 = {32, 64, 128, 192, 256, 512, 544, 1056, 2080, 4128, 8224, 16416, 32800, 65568, 131104, 262176, 524320, 1048608, 2097184, 4194336, 8388640, 16777248, 33554464, 67108896, 134217760, 268435488, 536870944, 1073741856};
static const L L2 = {32, 64, 128, 192, 256, 512, 544, 1056, 2080, 4128, 8224, 16416, 32800};
static const L L3 = {32, 64, 128, 136, 192, 200, 256, 264, 512, 520, 1032};

static long fit(const L& l, long d)
{
    for (long v : l) if (v >= d) return v;
    return 0;
}

struct Ext { long x, y, z; bool ok; };
static Ext per_axis(const L& lx, const L& ly, const L& lz, long x, long y, long z)
{
    Ext e = {fit(lx, x), fit(ly, y), fit(lz, z), false};
    e.ok = e.x && e.y && e.z;
    return e;
}
static Ext uniform(int dims, const L& l, long x, long y, long z)
{
    if (dims < 3 && z != 1) return Ext{0, 0, 0, false};
    if (dims < 2 && y != 1) return Ext{0, 0, 0, false};
    long m = fit(l, std::max(x, std::max(y, z)));
    return Ext{m, dims > 1 ? m : 1, dims > 2 ? m : 1, m != 0};
}

struct Seen { int runs; long x, y, z, index; const char *data; };

template<typename CELL_T>
struct Rec
{
    Seen *s;
    template<long DX, long DY, long DZ, long I>
    void operator()(soa_accessor<CELL_T, DX, DY, DZ, I>& a) const
    {
        ++s->runs;
        s->x = DX; s->y = DY; s->z = DZ;
        s->index = a.index() + I;
        s->data = a.data();
    }
};

template<typename CELL_T, typename CALL>
void expect(const char *how, long x, long y, long z, Ext e, const char *data, CALL call)
{
    Seen s = {0, 0, 0, 0, 0, 0};
    int thrown = 0;
    try {
        call(Rec<CELL_T>{&s});
    } catch (const std::out_of_range&) {
        thrown = 1;
    } catch (const std::exception&) {
        thrown = 2;
    }
    mc::step();
    if (!e.ok) {
        MC_CHECK(thrown == 1, "%s: unsupported shape (%ld,%ld,%ld) %s", how, x, y, z, thrown ? "raised a different exception" : "was accepted");
        MC_CHECK(s.runs == 0, "%s: functor was run for a rejected shape (%ld,%ld,%ld)", how, x, y, z);
        return;
    }
    MC_CHECK(!thrown, "%s: supported shape (%ld,%ld,%ld) was rejected", how, x, y, z);
    MC_CHECK(s.runs == 1, "%s: functor was run %d times for shape (%ld,%ld,%ld)", how, s.runs, x, y, z);
    MC_CHECK(s.x == e.x && s.y == e.y && s.z == e.z, "%s: shape (%ld,%ld,%ld) got extents (%ld,%ld,%ld), expected (%ld,%ld,%ld)", how, x, y, z, s.x, s.y, s.z, e.x, e.y, e.z);
    MC_CHECK(s.index == 0, "%s: accessor does not start at the first cell", how);
    MC_CHECK(s.data == data, "%s: accessor is not bound to the grid's data", how);
    mc::state(mc::mix(mc::mix(mc::mix(s.x, s.y), s.z), uint64_t(sizeof(CELL_T))));
    mc::count_label("nontrivial");
}

// the list's own interface
template<typename CELL_T, typename HAS = typename CELL_T::API::has_sizes> std::true_type has_list(int) { return std::true_type(); }
template<typename CELL_T> std::false_type has_list(long) { return std::false_type(); }

template<typename CELL_T>
void direct(char *, long, long, Ext, std::false_type) {}

template<typename CELL_T>
void direct(char *data, long x, long y, Ext e, std::true_type)
{
    typename CELL_T::API api;
    expect<CELL_T>("select_size (2 dimensions)", x, y, 1, e, data, [&](Rec<CELL_T> f) { api.template select_size<CELL_T>(data, f, x, y); });
    if (y != 1) return;
    expect<CELL_T>("select_size (1 dimension)", x, 1, 1, e, data, [&](Rec<CELL_T> f) { api.template select_size<CELL_T>(data, f, x); });
    if (x != 1) return;
    expect<CELL_T>("select_size (no dimension)", 1, 1, 1, e, data, [&](Rec<CELL_T> f) { api.template select_size<CELL_T>(data, f); });
}

// one shape: direct selection, and through a real grid if it is small enough
template<typename CELL_T>
void one(const char *label, long x, long y, long z, Ext e, bool grid)
{
    if (!mc::begin(label, {x, y, z})) return;
    char dummy[8];
    char *data = dummy;
    expect<CELL_T>("select_sizes", x, y, z, e, data, [&](Rec<CELL_T> f) { api_traits::select_sizes<CELL_T>()(data, f, x, y, z); });
    // dimensions left out are 1
    if (z == 1) {
        expect<CELL_T>("select_sizes (2 dimensions)", x, y, z, e, data, [&](Rec<CELL_T> f) { api_traits::select_sizes<CELL_T>()(data, f, x, y); });
        direct<CELL_T>(dummy, x, y, e, has_list<CELL_T>(0));
    }
    if (z == 1 && y == 1) {
        expect<CELL_T>("select_sizes (1 dimension)", x, y, z, e, data, [&](Rec<CELL_T> f) { api_traits::select_sizes<CELL_T>()(data, f, x); });
        if (x == 1) {
            expect<CELL_T>("select_sizes (no dimension)", x, y, z, e, data, [&](Rec<CELL_T> f) { api_traits::select_sizes<CELL_T>()(data, f); });
        }
    }
    if (!grid) return;
    if (!e.ok) {
        expect<CELL_T>("grid constructor", x, y, z, e, 0, [&](Rec<CELL_T>) { soa_grid<CELL_T> g(x, y, z); });
        soa_grid<CELL_T> h;
        expect<CELL_T>("resize", x, y, z, e, 0, [&](Rec<CELL_T>) { h.resize(x, y, z); });
        return;
    }
    soa_grid<CELL_T> g(x, y, z);
    const soa_grid<CELL_T>& c = g;
    expect<CELL_T>("grid callback", x, y, z, e, g.data(), [&](Rec<CELL_T> f) { g.callback(f); });
    expect<CELL_T>("const grid callback", x, y, z, e, g.data(), [&](Rec<CELL_T> f) { c.callback(f); });
    MC_CHECK(long(g.extent_x()) == e.x && long(g.extent_y()) == e.y && long(g.extent_z()) == e.z,
             "grid reports extents (%zu,%zu,%zu)", g.extent_x(), g.extent_y(), g.extent_z());
    soa_vector<CELL_T> *v = 0;
    if (y == 1 && z == 1) {
        v = new soa_vector<CELL_T>(x);
        Seen s = {0, 0, 0, 0, 0, 0};
        v->callback(Rec<CELL_T>{&s});
        MC_CHECK(s.runs == 1 && s.x == e.x && s.y == e.y && s.z == e.z, "vector callback: extents (%ld,%ld,%ld), %d runs", s.x, s.y, s.z, s.runs);
        delete v;
    }
}

static std::vector<long> edges(const L& l, bool all_between)
{
    std::set<long> s = {0, 1, 2};
    for (long v : l) { s.insert(v - 1); s.insert(v); s.insert(v + 1); }
    s.insert(l.back() + 1000);
    s.insert(4294967296L + 1); // truncation to 32 bits would make these tiny
    s.insert(4294967296L * 2);
    if (all_between) for (long v = 0; v <= l.back() + 2; ++v) s.insert(v);
    return std::vector<long>(s.begin(), s.end());
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    int shard = mc::g().replay ? -1 : mc::g().shard;
    auto mine = [&](int k) { return shard < 0 || k % mc::g().shards == shard; };
    bool t = mc::thorough();

    if (mine(0)) {
        for (long x : edges({2, 3, 5, 8}, true)) for (long y : edges({1, 4, 6}, true)) for (long z : edges({3, 7}, true)) {
            one<N3>("per_axis", x, y, z, per_axis({2, 3, 5, 8}, {1, 4, 6}, {3, 7}, x, y, z), x < 100 && y < 100 && z < 100 && !(x == 0 && y == 0 && z == 0));
            one<N31>("per_axis_single", x, y, z, per_axis({4}, {2}, {1}, x, y, z), x < 100 && y < 100 && z < 100 && !(x == 0 && y == 0 && z == 0));
        }
        for (long x : edges({2, 3, 5, 9, 14}, true)) for (long y : {0, 1, 2, 3}) for (long z : {0, 1, 2, 3}) {
            one<U1>("uniform1d", x, y, z, uniform(1, {2, 3, 5, 9, 14}, x, y, z), x < 100 && (x || y || z));
        }
        for (long x : edges({1, 2, 5, 7}, true)) for (long y : edges({1, 2, 5, 7}, true)) for (long z : {0, 1, 2, 3}) {
            one<U2>("uniform2d", x, y, z, uniform(2, {1, 2, 5, 7}, x, y, z), x < 100 && y < 100 && (x || y || z));
        }
    }
    if (mine(1)) {
        for (long x : edges({1, 3, 4, 6}, true)) for (long y : edges({1, 3, 4, 6}, true)) for (long z : edges({1, 3, 4, 6}, true)) {
            one<U3>("uniform3d", x, y, z, uniform(3, {1, 3, 4, 6}, x, y, z), x < 100 && y < 100 && z < 100 && (x || y || z));
        }
    }
    // built-in lists: all boundaries
    std::vector<long> e1 = edges(L1, false), e2 = edges(L2, false), e3 = edges(L3, false);
    if (mine(2)) {
        for (long x : e1) for (long y : {0, 1, 2}) for (long z : {0, 1, 2}) {
            one<D1>("builtin1d", x, y, z, uniform(1, L1, x, y, z), false);
        }
        for (long x : e2) for (long y : e2) for (long z : {0, 1, 2}) {
            one<D2U>("builtin2d_uniform", x, y, z, uniform(2, L2, x, y, z), false);
        }
    }
    if (mine(3)) {
        for (long x : e3) for (long y : e3) for (long z : e3) {
            one<D3U>("builtin3d_uniform", x, y, z, uniform(3, L3, x, y, z), false);
        }
    }
    if (mine(4)) {
        // no size list given: 1D, 2D or 3D list by shape
        for (long x : e1) for (long y : {0, 1}) for (long z : {0, 1, 2, 33}) {
            one<D>("none_given_1d", x, y, z, uniform(1, L1, x, y, z), x < 70 && (x || y || z));
        }
        for (long x : e2) for (long y : e2) {
            if (y > 1) {
                one<D>("none_given_2d", x, y, 1, uniform(2, L2, x, y, 1), x < 70 && y < 70);
                one<D>("none_given_2d", x, y, 0, uniform(2, L2, x, y, 0), x < 70 && y < 70);
            }
        }
        for (long x : e3) for (long y : e3) for (long z : e3) {
            if (y > 1 && z > 1) {
                one<D>("none_given_3d", x, y, z, uniform(3, L3, x, y, z), x < 34 && y < 34 && z < 34 && (x + y + z) % (t ? 1 : 13) == 0);
            }
        }
    }
    if (mine(5)) {
        for (long x : e2) for (long y : e2) for (long z : {0, 1, 2}) {
            one<D2>("builtin2d", x, y, z, per_axis(L2, L2, {1}, x, y, z), false);
        }
    }
    if (mine(6)) {
        for (long x : e3) for (long y : e3) for (long z : e3) {
            one<D3>("builtin3d", x, y, z, per_axis(L3, L3, L3, x, y, z), false);
        }
    }
    mc::sample("shape (5,6,3) of list (2)(3)(5)(8)/(1)(4)(6)/(3)(7) -> extents (5,6,3)");
    mc::sample("shape (33,1,1), no list given -> extents (64,1,1)");
    mc::sample("shape (1073741857,1,1), built-in 1D list -> out_of_range, functor not run");
    return mc::finish();
}
