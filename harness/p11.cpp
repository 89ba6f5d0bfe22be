// P11: two-grid callbacks. Every pair of shapes, every receiver constness,
// symmetric and asymmetric types, checked through addresses, extents and values.
#include "cells.hpp"
#include <array>
#include <memory>

using namespace LibFlatArray;

MIX_BODY(Sym, class API { public: LIBFLATARRAY_CUSTOM_SIZES((1)(2)(4), (1)(2)(3), (1)(3)) };);
MIX_REGISTER(Sym)
MIX_BODY(Asym, class API : public api_traits::has_asymmetric_dual_callback { public: LIBFLATARRAY_CUSTOM_SIZES((1)(2)(4), (1)(2)(3), (1)(3)) };);
MIX_REGISTER(Asym)
MIX_BODY(NoAsym, class API : public api_traits::has_no_asymmetric_dual_callback { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((1)(2)(4)) };);
MIX_REGISTER(NoAsym)
MIX_BODY(AsymU, class API : public api_traits::has_asymmetric_dual_callback { public: LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((1)(3)(4)) };);
MIX_REGISTER(AsymU)

MIX_BODY(SymH, class API { public: LIBFLATARRAY_CUSTOM_SIZES((65568), (65568), (2)(4)) };);
MIX_REGISTER(SymH)
MIX_BODY(AsymH, class API : public api_traits::has_asymmetric_dual_callback { public: LIBFLATARRAY_CUSTOM_SIZES((32)(65568), (65568), (2)(4)) };);
MIX_REGISTER(AsymH)
MIX_BODY(SymD, );
MIX_REGISTER(SymD)
MIX_BODY(AsymL, class API : public api_traits::has_asymmetric_dual_callback { public: LIBFLATARRAY_CUSTOM_SIZES((2)(40)(300), (2)(70), (2)(66)) };);
MIX_REGISTER(AsymL)

struct Side { long x, y, z, index; const char *data; };

template<typename CELL>
struct Dual
{
    int *runs;
    Side *a, *b;
    const soa_grid<CELL> *ga;
    soa_grid<CELL> *gb;
    bool swap_contents;

    template<long X1, long Y1, long Z1, long I1, long X2, long Y2, long Z2, long I2>
    void operator()(soa_accessor<CELL, X1, Y1, Z1, I1>& p, soa_accessor<CELL, X2, Y2, Z2, I2>& q) const
    {
        ++*runs;
        *a = Side{X1, Y1, Z1, p.index() + I1, p.data()};
        *b = Side{X2, Y2, Z2, q.index() + I2, q.data()};
        if (!swap_contents) return;
        // copy the common part of the first grid to the second, cell by cell
        for (long z = 0; z < long(std::min(ga->dim_z(), gb->dim_z())); ++z) {
            for (long y = 0; y < long(std::min(ga->dim_y(), gb->dim_y())); ++y) {
                for (long x = 0; x < long(std::min(ga->dim_x(), gb->dim_x())); ++x) {
                    p.index() = soa_accessor<CELL, X1, Y1, Z1, I1>::gen_index(x, y, z);
                    q.index() = soa_accessor<CELL, X2, Y2, Z2, I2>::gen_index(x, y, z);
                    CELL c;
                    p >> c;
                    q << c;
                }
            }
        }
    }
};

template<typename CELL>
struct NonConstDual
{
    // same, but with a non-const call operator and its own state
    Dual<CELL> d;
    template<typename A, typename B>
    void operator()(A& p, B& q) const { d(p, q); }
};

template<typename CELL>
void fill(soa_grid<CELL>& g, int base)
{
    int n = 0;
    for (std::size_t z = 0; z < g.dim_z(); ++z)
        for (std::size_t y = 0; y < g.dim_y(); ++y)
            for (std::size_t x = 0; x < g.dim_x(); ++x)
                g.set(x, y, z, CELL::make(base + n++));
}

template<typename CELL>
void pair(const char *label, int maxx, int maxy, int maxz, bool asym, long x1, long y1, long z1, long x2, long y2, long z2)
{
    for (int mode = 0; mode < 3; ++mode) {
        if (!mc::begin(label, {x1, y1, z1, x2, y2, z2, mode})) continue;
        soa_grid<CELL> a(x1, y1, z1), b(x2, y2, z2);
        fill(a, 10);
        fill(b, 200);
        const soa_grid<CELL>& ca = a;
        int runs = 0;
        Side sa, sb;
        Dual<CELL> f = {&runs, &sa, &sb, &a, &b, mode != 1};
        NonConstDual<CELL> nf = {f};
        int thrown = 0;
        try {
            if (mode == 0) a.callback(&b, f);
            else if (mode == 1) ca.callback(&b, f);
            else a.callback(&b, nf);
        } catch (const std::invalid_argument&) {
            thrown = 1;
        } catch (const std::exception&) {
            thrown = 2;
        }
        mc::step();
        bool same = x1 == x2 && y1 == y2 && z1 == z2;
        if (!asym && !same) {
            MC_CHECK(thrown == 1, "grids of different shape were %s", thrown ? "rejected with the wrong exception" : "accepted");
            MC_CHECK(runs == 0, "functor was run on mismatched grids");
        } else {
            MC_CHECK(!thrown, "callback raised an exception");
            MC_CHECK(runs == 1, "functor was run %d times", runs);
            MC_CHECK(sa.data == a.data() && sb.data == b.data(), "accessors are bound to the wrong grids (first: %s, second: %s)",
                     sa.data == a.data() ? "receiver" : sa.data == b.data() ? "argument" : "neither",
                     sb.data == a.data() ? "receiver" : sb.data == b.data() ? "argument" : "neither");
            MC_CHECK(sa.index == 0 && sb.index == 0, "accessors do not start at the first cell: %ld, %ld", sa.index, sb.index);
            // (a grid without storage has no extents of its own)
            MC_CHECK(!a.data() || sa.x == long(a.extent_x()) && sa.y == long(a.extent_y()) && sa.z == long(a.extent_z()), "first accessor has extents (%ld,%ld,%ld)", sa.x, sa.y, sa.z);
            MC_CHECK(!b.data() || sb.x == long(b.extent_x()) && sb.y == long(b.extent_y()) && sb.z == long(b.extent_z()), "second accessor has extents (%ld,%ld,%ld)", sb.x, sb.y, sb.z);
            mc::count_label("nontrivial");
        }
        // contents: first grid untouched, second has the common part
        bool copied = runs == 1 && mode != 1;
        int n = 0;
        for (long z = 0; z < z1; ++z) for (long y = 0; y < y1; ++y) for (long x = 0; x < x1; ++x) {
            MC_CHECK(ca.get(x, y, z).is(10 + n), "receiver's cell (%ld,%ld,%ld) changed", x, y, z);
            ++n;
        }
        n = 0;
        for (long z = 0; z < z2; ++z) for (long y = 0; y < y2; ++y) for (long x = 0; x < x2; ++x) {
            int expected = 200 + n++;
            if (copied && x < x1 && y < y1 && z < z1) expected = 10 + int((z * y1 + y) * x1 + x);
            MC_CHECK(b.get(x, y, z).is(expected), "argument grid's cell (%ld,%ld,%ld) is wrong after the callback", x, y, z);
        }
        uint64_t h = 5;
        for (long v : {x1, y1, z1, x2, y2, z2}) h = mc::mix(h, v);
        mc::state(h);
    }
}

template<typename CELL>
void all(const char *label, int mx, int my, int mz, bool asym)
{
    int k = 0;
    for (long x1 = 1; x1 <= mx; ++x1) for (long y1 = 1; y1 <= my; ++y1) for (long z1 = 1; z1 <= mz; ++z1)
    for (long x2 = 1; x2 <= mx; ++x2) for (long y2 = 1; y2 <= my; ++y2) for (long z2 = 1; z2 <= mz; ++z2) {
        if (!mc::g().replay && (k++ % mc::g().shards) != mc::g().shard) continue;
        pair<CELL>(label, mx, my, mz, asym, x1, y1, z1, x2, y2, z2);
    }
    if (mc::g().replay) return;
    // the same grid on both sides
    for (long x = 1; x <= mx; ++x) for (long y = 1; y <= my; ++y) for (long z = 1; z <= mz; ++z) {
        soa_grid<CELL> a(x, y, z);
        fill(a, 10);
        int runs = 0;
        Side sa, sb;
        Dual<CELL> f = {&runs, &sa, &sb, &a, &a, true};
        a.callback(&a, f);
        MC_CHECK(runs == 1 && sa.data == a.data() && sb.data == a.data(), "callback of a grid with itself is wrong");
        int n = 0;
        for (long zz = 0; zz < z; ++zz) for (long yy = 0; yy < y; ++yy) for (long xx = 0; xx < x; ++xx) {
            MC_CHECK(a.get(xx, yy, zz).is(10 + n++), "callback of a grid with itself changed cells");
        }
    }
}

// pairs of given shapes
template<typename CELL>
void some(const char *label, const std::vector<std::array<long, 3> >& shapes, bool asym)
{
    int k = 0;
    for (auto& a : shapes) for (auto& b : shapes) {
        if (!mc::g().replay && (k++ % mc::g().shards) != mc::g().shard) continue;
        pair<CELL>(label, 0, 0, 0, asym, a[0], a[1], a[2], b[0], b[1], b[2]);
    }
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool t = mc::thorough();
#ifdef HUGE_EXTENTS
    // extents beyond 2^32 cells (address space is reserved only)
    if (!ledger::huge_possible()) { mc::extra("huge_extents_not_possible_here", 1); return mc::finish(); }
    all<SymH>("huge_symmetric", 2, 2, 3, false);
    all<AsymH>("huge_asymmetric", 2, 2, 3, true);
    some<AsymH>("huge_asymmetric_rows", {{1, 1, 1}, {33, 2, 2}, {32, 2, 4}, {3000, 3, 1}}, true);
    return mc::finish();
#endif
    // shapes that differ from each other by multiples of powers of two
    some<SymD>("built_in_sizes", {{1, 1, 1}, {2, 1, 1}, {32, 1, 1}, {33, 1, 1}, {65, 1, 1}, {257, 1, 1}, {258, 1, 1}, {513, 1, 1}, {1025, 1, 1}, {4097, 1, 1}, {2, 2, 1}, {2, 3, 1}, {34, 33, 1}, {33, 34, 1}, {2, 258, 1}, {258, 2, 1}, {2, 2, 2}, {2, 2, 34}, {34, 2, 2}, {2, 34, 2}, {2, 2, 258}}, false);
    some<AsymL>("large_asymmetric", {{1, 1, 1}, {3, 1, 1}, {40, 1, 1}, {41, 1, 1}, {257, 1, 2}, {300, 2, 1}, {1, 65, 1}, {2, 70, 3}, {1, 1, 66}, {39, 3, 65}, {257, 66, 2}}, true);
    // empty grids of all kinds
    std::vector<std::array<long, 3> > empty = {{0, 0, 0}, {0, 1, 1}, {1, 0, 1}, {1, 1, 0}, {0, 3, 3}, {4, 0, 3}, {4, 3, 0}, {0, 0, 3}, {1, 1, 1}, {2, 2, 1}, {4, 3, 3}};
    some<Sym>("symmetric_empty", empty, false);
    some<Asym>("asymmetric_empty", empty, true);
    all<Sym>("symmetric", 4, 3, 3, false);
    all<Asym>("asymmetric", 4, 3, 3, true);
    all<NoAsym>("explicitly_symmetric", t ? 4 : 3, t ? 4 : 3, t ? 4 : 3, false);
    all<AsymU>("asymmetric_uniform2d", 4, 4, 1, true);
    mc::sample("symmetric: (2,3,1) with (2,3,2), const receiver -> invalid_argument, functor not run");
    mc::sample("asymmetric: (4,1,3) with (1,3,2) -> extents (4,1,3)/(1,3,3), common part copied");
    mc::sample("asymmetric_uniform2d: (3,4,1) with (1,1,1)");
    return mc::finish();
}
