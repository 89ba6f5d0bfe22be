// P01: a grid is a dense array of structs.
// All histories of set / row set / broadcast (every coordinate, every run
// length) up to a depth, on every small shape; after each step every cell is
// read back singly, as whole rows and (on the last step) as every sub-run.
#include "cells.hpp"
#include <memory>

using namespace LibFlatArray;

MIX_BODY(CellN, class API { public: LIBFLATARRAY_CUSTOM_SIZES((2)(3)(5)(7), (1)(2)(4), (1)(3)(4)) };);
MIX_REGISTER(CellN)
MIX_BODY(Cell1, class API { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((1)(3)(8)) };);
MIX_REGISTER(Cell1)
MIX_BODY(Cell2, class API { public: LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((2)(3)(6)) };);
MIX_REGISTER(Cell2)
MIX_BODY(Cell3, class API { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((1)(3)(5)) };);
MIX_REGISTER(Cell3)
WIDE_BODY(CellW, class API { public: LIBFLATARRAY_CUSTOM_SIZES((2)(3)(5), (1)(2), (1)(2)) };);
WIDE_REGISTER(CellW)
MIX_BODY(CellD, );
MIX_REGISTER(CellD)

struct Op { int kind; int x, y, z, n; };

static void ops_for(int dx, int dy, int dz, std::vector<Op>& ops)
{
    for (int kind = 0; kind < 3; ++kind) { // 0 set, 1 row set, 2 broadcast
        for (int z = 0; z < dz; ++z) {
            for (int y = 0; y < dy; ++y) {
                for (int x = 0; x < dx; ++x) {
                    if (kind == 0) {
                        ops.push_back(Op{0, x, y, z, 1});
                        continue;
                    }
                    for (int n = 0; n <= dx - x; ++n) {
                        if (n == 0 && (x || y || z)) continue;
                        ops.push_back(Op{kind, x, y, z, n});
                    }
                }
            }
        }
    }
}

static int unpack(long cfg, int i) { return int((cfg >> (8 * i)) & 255); }
static long pack(int dx, int dy, int dz) { return dx | (dy << 8) | (dz << 16); }

template<typename CELL>
struct Sys
{
    static std::vector<Op>& ops(long cfg)
    {
        static std::unordered_map<long, std::vector<Op> > m;
        std::vector<Op>& v = m[cfg];
        if (v.empty()) {
            ops_for(unpack(cfg, 0), unpack(cfg, 1), unpack(cfg, 2), v);
        }
        return v;
    }
    static int nops(long cfg) { return int(ops(cfg).size()); }
    static std::string opname(long cfg, int i)
    {
        static const char *names[] = {"set", "set_row", "broadcast"};
        Op o = ops(cfg)[i];
        char buf[64];
        std::snprintf(buf, sizeof(buf), "%s(%d,%d,%d n=%d)", names[o.kind], o.x, o.y, o.z, o.n);
        return buf;
    }

    int dx, dy, dz;
    soa_grid<CELL> grid;
    std::vector<int> model; // token per cell, -1 default
    int step;
    bool fresh_checked;

    explicit Sys(long cfg) :
        dx(unpack(cfg, 0)), dy(unpack(cfg, 1)), dz(unpack(cfg, 2)),
        grid(dx, dy, dz), model(dx * dy * dz, -1), step(0)
    {}

    int& m(int x, int y, int z) { return model[(z * dy + y) * dx + x]; }

    bool ok(const CELL& c, int t) { return t < 0 ? c.is_default() : c.is(t); }

    bool apply(int op)
    {
        const Op& o = ops(pack(dx, dy, dz))[op];
        if (o.n > 0) {
            // the last cell addressed is read right before and right after
            // the operation: nothing remembered from a read may go stale
            one(o.x + o.n - 1, o.y, o.z);
        }
        if (o.kind == 0) {
            int t = 1 + step * 9;
            grid.set(o.x, o.y, o.z, CELL::make(t));
            m(o.x, o.y, o.z) = t;
        } else if (o.kind == 1) {
            std::vector<CELL> row;
            for (int k = 0; k < o.n; ++k) {
                row.push_back(CELL::make(1 + step * 9 + k));
                m(o.x + k, o.y, o.z) = 1 + step * 9 + k;
            }
            grid.set(o.x, o.y, o.z, row.data(), row.size());
        } else {
            int t = 1 + step * 9;
            CELL c = CELL::make(t);
            grid.broadcast(o.x, o.y, o.z, c, o.n);
            for (int k = 0; k < o.n; ++k) {
                m(o.x + k, o.y, o.z) = t;
            }
        }
        if (o.n > 0) {
            one(o.x + o.n - 1, o.y, o.z);
        }
        ++step;
        check();
        return true;
    }

    void one(int x, int y, int z)
    {
        const soa_grid<CELL>& cg = grid;
        CELL c = cg.get(x, y, z);
        MC_CHECK(ok(c, m(x, y, z)), "cell (%d,%d,%d) reads %s, expected token %d", x, y, z, c.str().c_str(), m(x, y, z));
    }

    // reads run forwards and backwards in turn
    void check()
    {
        const soa_grid<CELL>& cg = grid;
        std::vector<CELL> row(dx + 2);
        for (int zi = 0; zi < dz; ++zi) {
            int z = (step & 1) ? dz - 1 - zi : zi;
            for (int yi = 0; yi < dy; ++yi) {
                int y = (step & 1) ? dy - 1 - yi : yi;
                for (int xi = 0; xi < dx; ++xi) {
                    one((step & 1) ? dx - 1 - xi : xi, y, z);
                }
                for (auto& c : row) c.poison();
                cg.get(0, y, z, &row[1], dx);
                for (int x = 0; x < dx; ++x) {
                    MC_CHECK(ok(row[x + 1], m(x, y, z)), "row read: cell (%d,%d,%d) reads %s, expected token %d", x, y, z, row[x + 1].str().c_str(), m(x, y, z));
                }
                MC_CHECK(row[0].is(99) && row[dx + 1].is(99), "row read wrote outside of its target");
            }
        }
    }

    uint64_t hash()
    {
        uint64_t h = pack(dx, dy, dz);
        for (int t : model) h = mc::mix(h, uint64_t(t));
        return h;
    }

    void done()
    {
        // every sub-run read
        for (int z = 0; z < dz; ++z) {
            for (int y = 0; y < dy; ++y) {
                for (int x = 0; x < dx; ++x) {
                    for (int n = 0; x + n <= dx; ++n) {
                        std::vector<CELL> row(n + 2);
                        for (auto& c : row) c.poison();
                        grid.get(x, y, z, &row[1], n);
                        MC_CHECK(row[0].is(99) && row[n + 1].is(99), "read of run (%d,%d,%d)+%d wrote outside of its target", x, y, z, n);
                        for (int k = 0; k < n; ++k) {
                            MC_CHECK(ok(row[k + 1], m(x + k, y, z)), "run (%d,%d,%d)+%d: cell %d wrong", x, y, z, n, k);
                        }
                    }
                }
            }
        }
        MC_CHECK(int(grid.dim_x()) == dx && int(grid.dim_y()) == dy && int(grid.dim_z()) == dz, "writes changed the grid's shape");
    }
};

template<typename CELL>
void run(const char *name, int mx, int my, int mz, long deep_limit, long deeper_limit)
{
    // depth by number of sequences: shapes are enumerated completely at depth
    // 1; deeper wherever the number of sequences stays below the limits
    for (int dz = 1; dz <= mz; ++dz) {
        for (int dy = 1; dy <= my; ++dy) {
            for (int dx = 1; dx <= mx; ++dx) {
                long cfg = pack(dx, dy, dz);
                double n = Sys<CELL>::nops(cfg);
                int depth = 1;
                if (n * n <= deep_limit) depth = 2;
                if (n * n * n <= deeper_limit) depth = 3;
                if (n * n * n * n <= deeper_limit) depth = 4;
                mc::explore<Sys<CELL> >(name, cfg, depth, false);
                mc::count_label(("shapes_explored_to_depth_" + std::to_string(depth)).c_str());
            }
        }
    }
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool t = mc::thorough();
    long l2 = t ? 400000 : 10000, l3 = t ? 12000000 : 150000;
    run<CellN>("custom3d", 7, 4, 4, l2, l3);
    run<Cell1>("uniform1d", 8, 1, 1, l2, l3);
    run<Cell2>("uniform2d", 6, 6, 1, l2, l3);
    run<Cell3>("uniform3d", 5, 5, 5, l2, l3);
    // array members of many arities
    run<CellW>("wide", 3, 2, 2, t ? 10000 : 1500, t ? 100000 : 5000);
    // built-in default sizes: representative of 1D, 2D and 3D selection, large
    // coordinates included
    for (long cfg : {pack(1, 1, 1), pack(33, 1, 1), pack(4, 2, 1), pack(2, 3, 1), pack(3, 2, 2), pack(2, 2, 33), pack(1, 34, 2)}) {
        mc::explore<Sys<CellD> >("default", cfg, 1, false);
    }
    return mc::finish();
}
