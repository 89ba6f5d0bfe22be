// Large instances: the same comparisons as the small-scope explorations, with
// every size, position and length around powers of two and registered extents
// (chunking, counter width and block-copy shortcuts show up only there).
#ifndef VERIF_LARGE_HPP
#define VERIF_LARGE_HPP

#include "containers.hpp"

namespace large {

// 0, 1 and everything next to a power of two or a default extent, up to limit
inline std::vector<long> boundaries(long limit)
{
    std::vector<long> r;
    auto add = [&](long v) { if (v >= 0 && v <= limit) r.push_back(v); };
    for (long p = 1; p <= limit + 1; p *= 2) for (long d = -1; d <= 1; ++d) add(p + d);
    for (long e : {192L, 544L, 1056L, 2080L, 4128L}) for (long d = -1; d <= 1; ++d) add(e + d);
    add(limit);
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}

inline std::vector<long> few(long limit)
{
    std::vector<long> r;
    for (long v : {0L, 1L, 31L, 32L, 33L, 63L, 64L, 65L, 127L, 129L, 255L, 256L, 257L, 1023L, 1024L, 1025L, 2047L, 2049L, limit}) if (v <= limit) r.push_back(v);
    return r;
}

// thorough: every position and length of rows up to 300 cells
// beyond 16 bits: around 2^15, 2^16, 2^17 only
inline std::vector<long> far(long limit)
{
    std::vector<long> r;
    for (long v : {0L, 1L, 32767L, 32768L, 65535L, 65536L, 65537L, 131071L, 131072L, 131073L, limit}) if (v <= limit) r.push_back(v);
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}

inline std::vector<long> positions(long limit)
{
    if (limit > 40000) return far(limit);
    if (!mc::thorough() || limit > 300) return boundaries(limit);
    std::vector<long> r;
    for (long i = 0; i <= limit; ++i) r.push_back(i);
    return r;
}

template<typename CELL>
void same_row(const soa_grid<CELL>& g, int y, int z, const std::vector<int>& row)
{
    std::vector<CELL> out(row.size() + 2);
    out.front().poison();
    out.back().poison();
    g.get(0, y, z, out.data() + 1, row.size());
    MC_CHECK(out.front().is(99) && out.back().is(99), "read of a row of %zu cells wrote outside of its target", row.size());
    for (std::size_t x = 0; x < row.size(); ++x) {
        MC_CHECK(token_ok(out[x + 1], row[x]), "cell (%zu,%d,%d) is %s, expected %s", x, y, z, out[x + 1].str().c_str(), token_str<CELL>(row[x]).c_str());
    }
}

// writes of every boundary length at every boundary position of a long row
template<typename CELL>
void rows(const char *label, int dx, int dy, int dz, int y, int z)
{
    typedef soa_grid<CELL> Grid;
    long serial = 0;
    for (long x : positions(dx - 1)) for (long n : positions(dx - x)) for (int kind = 0; kind < 3; ++kind) {
        if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
        if (!mc::begin(label, {dx, dy, dz, x, n, kind})) continue;
        static const char *names[] = {"set of a run", "broadcast", "read of a run"};
        std::snprintf(mc::g().note, sizeof(mc::g().note), "%s of %ld cells at (%ld,%d,%d) of a %dx%dx%d grid", names[kind], n, x, y, z, dx, dy, dz);
        Grid g(dx, dy, dz);
        std::vector<int> row(dx, -1), other(dx, -1);
        std::vector<CELL> cells;
        if (kind == 2) {
            for (int i = 0; i < dx; ++i) { row[i] = i; cells.push_back(CELL::make(i)); }
            g.set(0, y, z, cells.data(), dx);
            std::vector<CELL> out(n + 2);
            out.front().poison();
            out.back().poison();
            g.get(x, y, z, out.data() + 1, n);
            MC_CHECK(out.front().is(99) && out.back().is(99), "read wrote outside of its target");
            for (long i = 0; i < n; ++i) MC_CHECK(out[i + 1].is(row[x + i]), "cell %ld of the run is %s, expected %s", i, out[i + 1].str().c_str(), token_str<CELL>(row[x + i]).c_str());
        } else if (kind == 1) {
            g.broadcast(x, y, z, CELL::make(7), n);
            for (long i = 0; i < n; ++i) row[x + i] = 7;
        } else {
            for (long i = 0; i < n; ++i) { row[x + i] = int(i); cells.push_back(CELL::make(int(i))); }
            g.set(x, y, z, cells.data(), n);
        }
        same_row(g, y, z, row);
        if (y) same_row(g, y - 1, z, other);
        if (y + 1 < dy) same_row(g, y + 1, z, other);
        if (z) same_row(g, y, z - 1, other);
        if (z + 1 < dz) same_row(g, y, z + 1, other);
        for (long i : few(dx - 1)) MC_CHECK(token_ok(g.get(i, y, z), row[i]), "single read of cell %ld is wrong", i);
        mc::g().transitions += 2;
        ++mc::g().traces;
        mc::state(mc::mix(mc::mix(dx, x), mc::mix(n, kind)));
    }
}

// save and load of long runs, buffers with room in front of and behind the data
template<typename CELL, int AGG>
void transfers(const char *label, int dx, int dy, int dz, int y, int z)
{
    typedef soa_grid<CELL> Grid;
    struct Run { long origin[3]; long n; long length() const { return n; } };
    Grid g(dx, dy, dz);
    {
        std::vector<CELL> cells;
        for (int i = 0; i < dx; ++i) cells.push_back(CELL::make(i));
        g.set(0, y, z, cells.data(), dx);
    }
    long serial = 0;
    for (long x : positions(dx - 1)) for (long n : positions(dx - x)) for (int kind = 0; kind < 2; ++kind) {
        if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
        if (!mc::begin(label, {dx, dy, dz, x, n, kind})) continue;
        std::snprintf(mc::g().note, sizeof(mc::g().note), "transfer of %ld cells at (%ld,%d,%d) of a %dx%dx%d grid%s", n, x, y, z, dx, dy, dz, kind ? " as two runs" : "");
        std::size_t bytes = std::size_t(n) * AGG;
        std::vector<char> buf(bytes + 16, char(0x5b)), want(buf);
        // element arrays one after the other, cells in order
        Grid h(dx, dy, dz);
        std::vector<int> row(dx, -1);
        std::vector<Run> runs = {Run{{x, y, z}, kind ? n / 2 : n}, Run{{x + n / 2, y, z}, n - n / 2}};
        if (kind) {
            g.save(runs.begin(), runs.end(), buf.data() + 8, n);
            h.load(runs.begin(), runs.end(), buf.data() + 8, n);
        } else {
            g.save(x, y, z, buf.data() + 8, n);
            h.load(x, y, z, buf.data() + 8, n);
        }
        for (long i = 0; i < n; ++i) row[x + i] = int(x + i);
        same_row(h, y, z, row);
        for (int i = 0; i < 8; ++i) MC_CHECK(buf[i] == 0x5b && buf[bytes + 8 + i] == 0x5b, "save wrote outside of the buffer");
        for (long i = 0; i < n; ++i) {
            CELL c = CELL::make(int(x + i));
            const char *p = buf.data() + 8;
            double d;
            int k;
            memcpy(&d, p + i * 8, 8);
            memcpy(&k, p + n * 8 + i * 4, 4);
            MC_CHECK(d == c.d && k == c.i, "buffer: cell %ld of the run is wrong (members d, i)", i);
            for (int e = 0; e < 3; ++e) MC_CHECK(p[n * (12 + e) + i] == c.c[e], "buffer: cell %ld of the run is wrong (member c[%d])", i, e);
            for (int e = 0; e < 2; ++e) {
                short s;
                memcpy(&s, p + n * (19 + 2 * e) + i * 2, 2);
                MC_CHECK(s == c.s[e], "buffer: cell %ld of the run is wrong (member s[%d])", i, e);
            }
        }
        mc::g().transitions += 2;
        ++mc::g().traces;
        mc::state(mc::mix(mc::mix(dx, x), mc::mix(n, kind)));
    }
}

// resizing to and fro between all boundary lengths
template<typename CELL>
void resizes(const char *label)
{
    typedef soa_grid<CELL> Grid;
    long serial = 0;
    for (int axis = 0; axis < 3; ++axis) for (long n1 : boundaries(axis ? 300 : 4200)) for (long n2 : boundaries(axis ? 300 : 4200)) {
        if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
        if (!mc::begin(label, {axis, n1, n2})) continue;
        long d1[3] = {2, 2, 2}, d2[3] = {2, 2, 2};
        if (axis == 0) d1[1] = d1[2] = d2[1] = d2[2] = 1;
        if (axis == 1) d1[2] = d2[2] = 1;
        d1[axis] = n1;
        d2[axis] = n2;
        if (axis && (n1 < 2 || n2 < 2)) continue;
        std::snprintf(mc::g().note, sizeof(mc::g().note), "(%ld,%ld,%ld) resized to (%ld,%ld,%ld)", d1[0], d1[1], d1[2], d2[0], d2[1], d2[2]);
        Grid g(d1[0], d1[1], d1[2]);
        auto dims = [&](const long *d) {
            MC_CHECK(long(g.dim_x()) == d[0] && long(g.dim_y()) == d[1] && long(g.dim_z()) == d[2], "shape is (%zu,%zu,%zu)", g.dim_x(), g.dim_y(), g.dim_z());
            Grid fresh(d[0], d[1], d[2]);
            MC_CHECK(g.extent_x() == fresh.extent_x() && g.extent_y() == fresh.extent_y() && g.extent_z() == fresh.extent_z() && g.byte_size() == fresh.byte_size(),
                     "extents (%zu,%zu,%zu) differ from those of a new grid of that shape (%zu,%zu,%zu)", g.extent_x(), g.extent_y(), g.extent_z(), fresh.extent_x(), fresh.extent_y(), fresh.extent_z());
        };
        dims(d1);
        if (d1[0]) for (long z = 0; z < d1[2]; ++z) for (long y = 0; y < d1[1]; ++y) g.broadcast(0, y, z, CELL::make(5), d1[0]);
        g.resize(d2[0], d2[1], d2[2]);
        dims(d2);
        std::vector<int> expected(d2[0], n1 == n2 ? 5 : -1);
        for (long z = 0; z < d2[2]; ++z) for (long y = 0; y < d2[1]; ++y) same_row(g, y, z, expected);
        mc::g().transitions += 2;
        ++mc::g().traces;
        mc::state(mc::mix(mc::mix(axis, n1), mc::mix(n2, 991)));
    }
}

// copies of large grids
template<typename CELL>
void copies(const char *label, const std::vector<Shape>& shapes)
{
    typedef soa_grid<CELL> Grid;
    long serial = 0;
    auto fill = [](Grid& g, int salt) {
        std::vector<CELL> row;
        for (std::size_t z = 0; z < g.dim_z(); ++z) for (std::size_t y = 0; y < g.dim_y(); ++y) {
            row.clear();
            for (std::size_t x = 0; x < g.dim_x(); ++x) row.push_back(CELL::make(int(salt + x * 3 + y * 1000 + z * 100000)));
            g.set(0, y, z, row.data(), row.size());
        }
    };
    auto same = [](const Grid& g, Shape s, int salt) {
        MC_CHECK(int(g.dim_x()) == s.x && int(g.dim_y()) == s.y && int(g.dim_z()) == s.z, "shape is %zux%zux%zu, expected %dx%dx%d", g.dim_x(), g.dim_y(), g.dim_z(), s.x, s.y, s.z);
        std::vector<int> row(s.x);
        for (int z = 0; z < s.z; ++z) for (int y = 0; y < s.y; ++y) {
            for (int x = 0; x < s.x; ++x) row[x] = salt < 0 ? -1 : salt + x * 3 + y * 1000 + z * 100000;
            same_row(g, y, z, row);
        }
    };
    for (std::size_t i = 0; i < shapes.size(); ++i) for (std::size_t j = 0; j < shapes.size(); ++j) for (int k = 0; k < 4; ++k) {
        if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
        if (!mc::begin(label, {long(i), long(j), k})) continue;
        Shape a = shapes[i], b = shapes[j];
        static const char *names[] = {"copy construction", "assignment", "swap", "resize"};
        std::snprintf(mc::g().note, sizeof(mc::g().note), "%s, grids %dx%dx%d and %dx%dx%d", names[k], a.x, a.y, a.z, b.x, b.y, b.z);
        Grid g(a.x, a.y, a.z), h(b.x, b.y, b.z);
        fill(g, 1);
        fill(h, 2);
        switch (k) {
        case 0: { Grid c(h); fill(h, 5); same(c, b, 2); same(g, a, 1); same(h, b, 5); break; }
        case 1: g = h; fill(h, 5); same(g, b, 2); same(h, b, 5); break;
        case 2: g.swap(h); same(g, b, 2); same(h, a, 1); break;
        case 3: g.resize(b.x, b.y, b.z); same(g, b, (a.x == b.x && a.y == b.y && a.z == b.z) ? 1 : -1); same(h, b, 2); break;
        }
        mc::g().transitions += 3;
        ++mc::g().traces;
        mc::state(mc::mix(mc::mix(i, j), k + 99));
    }
}

// long fixed-capacity arrays
inline std::vector<long> sizes(long limit) { return limit > 40000 ? far(limit) : limit > 1000 ? few(limit) : boundaries(limit); }

template<typename CELL, int N, int M>
void arrays(const char *label)
{
    typedef soa_array<CELL, N> A;
    typedef soa_array<CELL, M> B;
    long serial = 0;
    auto same = [](auto& a, const std::vector<int>& m) {
        MC_CHECK(a.size() == m.size(), "size is %zu, expected %zu", a.size(), m.size());
        const auto& c = a;
        for (std::size_t i = 0; i < m.size(); ++i) {
            CELL x;
            c[int(i)] >> x;
            MC_CHECK(token_ok(x, m[i]), "element %zu is %s, expected %s", i, x.str().c_str(), token_str<CELL>(m[i]).c_str());
        }
        MC_CHECK(a.begin().index() == 0 && a.end().index() == long(m.size()), "begin() is element %ld, end() is element %ld of %zu", long(a.begin().index()), long(a.end().index()), m.size());
        if (m.size()) {
            CELL x = a.back();
            MC_CHECK(token_ok(x, m.back()), "back() is %s, expected %s", x.str().c_str(), token_str<CELL>(m.back()).c_str());
        }
    };
    for (long na : sizes(N)) for (long nb : sizes(M)) for (int k = 0; k < 9; ++k) {
        if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
        if (!mc::begin(label, {N, M, na, nb, k})) continue;
        std::snprintf(mc::g().note, sizeof(mc::g().note), "array<%d> with %ld and array<%d> with %ld elements, operation %d", N, na, M, nb, k);
        std::unique_ptr<A> a(new A()), a2(new A());
        std::unique_ptr<B> b(new B());
        std::vector<int> ma, mb;
        for (long i = 0; i < na; ++i) { a->push_back(CELL::make(int(i))); ma.push_back(int(i)); }
        for (long i = 0; i < nb; ++i) { *b << CELL::make(int(i + 5000)); mb.push_back(int(i + 5000)); }
        Outcome expected = DONE, r = DONE;
        std::vector<int> m = ma;
        long half = nb / 2;
        switch (k) {
        case 0: m = mb; if (nb > N) expected = REFUSED_RANGE; break;
        case 1: m.insert(m.end(), mb.begin(), mb.end()); break;
        case 2: m.insert(m.end(), mb.begin() + half, mb.end()); break;
        case 3: for (long i = 0; i < nb; ++i) { if (i < long(m.size())) m[i] = mb[i]; else m.push_back(mb[i]); } break;
        case 4: for (long i = half; i < nb; ++i) { if (i < long(m.size())) m[i] = mb[i]; else m.resize(i + 1, -2), m[i] = mb[i]; } break;
        case 5: break;
        case 6: case 7: m.assign(nb, 4321); break;
        case 8: m.clear(); break;
        }
        if (m.size() > std::size_t(N)) expected = REFUSED_RANGE;
        if (k == 4 && half == nb) continue;
        r = guarded(-1, [&]() {
            switch (k) {
            case 0: *a = *b; break;
            case 1: a->load(b->at(0), nb); break;
            case 2: if (half < M) a->load(b->at(int(half)), nb - half); break;
            case 3: a->load(b->at(0), nb, 0); break;
            case 4: a->load(b->at(int(half)), nb - half, half); break;
            case 5: { using std::swap; swap(*a, *a2); swap(*a2, *a); A c(*a); *a2 = c; break; }
            case 6: a.reset(new A(nb, CELL::make(4321))); break;
            case 7: { A c(nb, CELL::make(4321)); *a = c; break; }
            case 8: a->clear(); break;
            }
        });
        MC_CHECK(r == expected, "operation %d: %s, expected: %s", k, outcome_name(r), outcome_name(expected));
        same(*a, r == DONE ? m : ma);
        same(*b, mb);
        if (k == 5) same(*a2, ma);
        mc::g().transitions += 2;
        ++mc::g().traces;
        mc::state(mc::mix(mc::mix(na, nb), mc::mix(N * 1000 + M, k)));
    }
}

// vectors growing through the built-in extents
template<typename CELL>
void vectors(const char *label, long limit)
{
    typedef soa_vector<CELL> V;
    long serial = 0;
    auto same = [](const V& v, const std::vector<int>& m) {
        MC_CHECK(v.size() == m.size(), "size is %zu, expected %zu", v.size(), m.size());
        MC_CHECK(v.capacity() >= v.size(), "capacity %zu is below the size %zu", v.capacity(), v.size());
        for (std::size_t i = 0; i < m.size(); ++i) {
            CELL c = v.get(i);
            MC_CHECK(token_ok(c, m[i]), "element %zu is %s, expected %s", i, c.str().c_str(), token_str<CELL>(m[i]).c_str());
        }
    };
    for (long n : sizes(limit)) for (long n2 : sizes(limit)) for (int k = 0; k < 6; ++k) {
        if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
        if (!mc::begin(label, {n, n2, k})) continue;
        static const char *names[] = {"resize", "reserve", "push until", "resize", "reserve", "clear, push one, resize"};
        std::snprintf(mc::g().note, sizeof(mc::g().note), "%ld elements %s, then %s %ld, then a push and a copy", n, k < 3 ? "pushed" : "of the same value constructed", names[k], n2);
        V v;
        std::vector<int> m;
        if (k < 3) for (long i = 0; i < n; ++i) { v.push_back(CELL::make(int(i))); m.push_back(int(i)); ++mc::g().transitions; }
        else {
            v.~V();
            new (&v) V(n, CELL::make(4711));
            m.assign(n, 4711);
            same(v, m);
        }
        switch (k) {
        case 5: v.clear(); v.push_back(CELL::make(11)); m.assign(1, 11); // fall through
        case 0: case 3: v.resize(n2); m.resize(n2, -2); break;
        case 1: case 4: v.reserve(n2); MC_CHECK(long(v.capacity()) >= n2, "capacity is %zu after reserving %ld", v.capacity(), n2); break;
        case 2: for (long i = n; i < n2; ++i) { v.emplace_back(CELL::make(int(i + 9))); m.push_back(int(i + 9)); } break;
        }
        v.push_back(CELL::make(77777));
        m.push_back(77777);
        V w(v);
        int first = m[0];
        v.set(0, CELL::make(3));
        m[0] = 3;
        same(v, m);
        m[0] = first;
        same(w, m);
        v = w;
        same(v, m);
        v.pop_back();
        m.pop_back();
        same(v, m);
        mc::g().transitions += 5;
        ++mc::g().traces;
        mc::state(mc::mix(mc::mix(n, n2), k + 55));
    }
}

}

#endif
