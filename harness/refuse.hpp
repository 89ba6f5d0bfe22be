// Requests far beyond what a container can hold: every one of them has to be
// refused with the documented exception and to leave all contents as they were
// (narrowed or overflowing request sizes show up only here).
#ifndef VERIF_REFUSE_HPP
#define VERIF_REFUSE_HPP

#include "containers.hpp"

namespace refuse {

inline std::vector<std::size_t> beyond(std::size_t cap)
{
    std::vector<std::size_t> r;
    auto add = [&](std::size_t v) { if (v > cap) r.push_back(v); };
    for (int b : {7, 8, 15, 16, 31, 32, 33, 48, 62, 63}) for (std::size_t d = 0; d <= 2 * cap + 2; ++d) {
        add((std::size_t(1) << b) + d);
        add((std::size_t(1) << b) - 1 - d);
    }
    for (std::size_t d = 0; d <= 2 * cap + 2; ++d) add(~std::size_t(0) - d);
    for (std::size_t d = 1; d <= 2 * cap + 2; ++d) add(cap + d);
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}

#define REFUSE_CASE(...)                                                \
    if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue; \
    if (!mc::begin(label, {__VA_ARGS__})) continue;

template<typename CELL, int N, int M>
void arrays(const char *label)
{
    typedef soa_array<CELL, N> A;
    typedef soa_array<CELL, M> B;
    long serial = 0;
    std::vector<std::size_t> huge = beyond(N);
    auto same = [](const auto& a, int n, int from) {
        MC_CHECK(int(a.size()) == n, "size is %zu, expected %d", a.size(), n);
        for (int i = 0; i < n; ++i) {
            CELL x;
            a[i] >> x;
            MC_CHECK(x.is(from + i), "element %d is %s, expected %s", i, x.str().c_str(), token_str<CELL>(from + i).c_str());
        }
    };
    for (int na = 0; na <= N; ++na) for (int k = 0; k < 6; ++k) for (std::size_t h : huge) for (std::size_t n2 = 0; n2 <= N; ++n2) {
        if (n2 > 0 && k < 3) break;
        REFUSE_CASE(N, M, na, k, long(h), long(n2));
        static const char *names[] = {"array(n)", "array(n, value)", "load of n", "load of n at o", "load of o at n", "load of n at SIZE_MAX - n + o"};
        std::snprintf(mc::g().note, sizeof(mc::g().note), "array<%d> with %d elements, source array<%d>: %s, n=%zu, o=%zu", N, na, M, names[k], h, n2);
        if (k == 4 && n2 == 0) continue; // an empty run
        {
            ledger::Track track;
            A a;
            B b;
            for (int i = 0; i < na; ++i) a.push_back(CELL::make(i + 1));
            for (int i = 0; i < M; ++i) b.push_back(CELL::make(i + 100));
            Outcome r = guarded(-1, [&]() {
                switch (k) {
                case 0: { A c(h); break; }
                case 1: { A c(h, CELL::make(5)); break; }
                case 2: a.load(b.at(0), h); break;
                case 3: a.load(b.at(0), h, n2); break;
                case 4: a.load(b.at(0), n2, h); break;
                case 5: a.load(b.at(0), h, ~std::size_t(0) - h + n2); break;
                }
            });
            MC_CHECK(r == REFUSED_RANGE, "%s, expected: %s", outcome_name(r), outcome_name(REFUSED_RANGE));
            same(a, na, 1);
            same(b, M, 100);
            if (na < N) { a.push_back(CELL::make(na + 1)); same(a, na + 1, 1); }
        }
        check_all_released("after all arrays were destroyed");
        mc::g().transitions += na + M + 2;
        ++mc::g().traces;
        mc::state(mc::mix(mc::mix(na, k), mc::mix(h, n2)));
    }
}

template<typename CELL>
void vectors(const char *label, int largest)
{
    typedef soa_vector<CELL> V;
    long serial = 0;
    for (int n = 0; n <= largest; ++n) for (int k = 0; k < 4; ++k) for (std::size_t h : beyond(largest)) {
        REFUSE_CASE(n, k, long(h));
        static const char *names[] = {"vector(n)", "vector(n, value)", "resize(n)", "reserve(n)"};
        std::snprintf(mc::g().note, sizeof(mc::g().note), "vector with %d elements: %s, n=%zu", n, names[k], h);
        {
            ledger::Track track;
            V v;
            for (int i = 0; i < n; ++i) v.push_back(CELL::make(i + 1));
            std::size_t cap = v.capacity();
            Outcome r = guarded(-1, [&]() {
                switch (k) {
                case 0: { V c(h); break; }
                case 1: { V c(h, CELL::make(5)); break; }
                case 2: v.resize(h); break;
                case 3: v.reserve(h); break;
                }
            });
            MC_CHECK(r == REFUSED_RANGE, "%s, expected: %s", outcome_name(r), outcome_name(REFUSED_RANGE));
            MC_CHECK(v.capacity() == cap, "capacity is %zu, was %zu", v.capacity(), cap);
            auto same = [&](int n) {
                MC_CHECK(int(v.size()) == n, "size is %zu, expected %d", v.size(), n);
                for (int i = 0; i < n; ++i) MC_CHECK(v.get(i).is(i + 1), "element %d is %s, expected %s", i, v.get(i).str().c_str(), token_str<CELL>(i + 1).c_str());
            };
            same(n);
            if (n < largest) { v.push_back(CELL::make(n + 1)); same(n + 1); }
        }
        check_all_released("after the vector was destroyed");
        mc::g().transitions += n + 2;
        ++mc::g().traces;
        mc::state(mc::mix(mc::mix(n, k), h));
    }
}

// DIM: number of axes on which extents up to `largest` exist
template<typename CELL>
void grids(const char *label, const std::vector<Shape>& shapes, Shape largest)
{
    typedef soa_grid<CELL> Grid;
    long serial = 0;
    std::vector<std::size_t> axes[3];
    axes[0] = beyond(largest.x);
    axes[1] = beyond(largest.y);
    axes[2] = beyond(largest.z);
    for (std::size_t i = 0; i < shapes.size(); ++i) for (int axis = 0; axis < 3; ++axis) for (std::size_t h : axes[axis]) for (int rest = 0; rest < 4; ++rest) for (int k = 0; k < 2; ++k) {
        REFUSE_CASE(long(i), axis, long(h), rest, k);
        Shape s = shapes[i];
        std::size_t d[3] = {std::size_t(rest & 1), std::size_t(rest & 2 ? 1 : 0), 0};
        if (rest == 3) d[0] = largest.x, d[1] = largest.y, d[2] = largest.z;
        if (rest == 2) d[0] = s.x, d[1] = s.y, d[2] = s.z;
        if (rest == 1) d[0] = d[1] = d[2] = 1;
        d[axis] = h;
        std::snprintf(mc::g().note, sizeof(mc::g().note), "grid %dx%dx%d: %s(%zu,%zu,%zu)", s.x, s.y, s.z, k ? "resize" : "construct", d[0], d[1], d[2]);
        {
            ledger::Track track;
            Grid g(s.x, s.y, s.z);
            for (int z = 0; z < s.z; ++z) for (int y = 0; y < s.y; ++y) for (int x = 0; x < s.x; ++x) g.set(x, y, z, CELL::make(x + 10 * y + 100 * z));
            Outcome r = guarded(-1, [&]() {
                if (k) g.resize(d[0], d[1], d[2]);
                else Grid c(d[0], d[1], d[2]);
            });
            MC_CHECK(r == REFUSED_RANGE, "%s, expected: %s", outcome_name(r), outcome_name(REFUSED_RANGE));
            MC_CHECK(int(g.dim_x()) == s.x && int(g.dim_y()) == s.y && int(g.dim_z()) == s.z, "shape is (%zu,%zu,%zu)", g.dim_x(), g.dim_y(), g.dim_z());
            for (int z = 0; z < s.z; ++z) for (int y = 0; y < s.y; ++y) for (int x = 0; x < s.x; ++x) {
                MC_CHECK(g.get(x, y, z).is(x + 10 * y + 100 * z), "cell (%d,%d,%d) is %s", x, y, z, g.get(x, y, z).str().c_str());
            }
            g.resize(1, 1, 1);
            g.set(0, 0, 0, CELL::make(3));
            MC_CHECK(g.get(0, 0, 0).is(3), "grid is not usable after a refused request");
        }
        check_all_released("after the grid was destroyed");
        mc::g().transitions += 3;
        ++mc::g().traces;
        mc::state(mc::mix(mc::mix(i * 3 + axis, h), rest * 2 + k));
    }
}

}

#endif
