// P20: containers on a CUDA device (emulated, see cuda/cuda_emu.hpp): all
// histories of the host-side interface against a reference model; every access
// of kernels and host code is checked, as are the launches, transfers and all
// device memory.
#include "cells.hpp"
#include <libflatarray/cuda_array.hpp>
#include <list>
#include <memory>

using namespace LibFlatArray;

// an element that notices when it is constructed, used or destroyed out of turn
struct Active
{
    enum { ALIVE = 0x600d, DEAD = 0xdead, WRONG = 0xbad };
    Active() { state = cuda_emu::in_device_memory(this) && state == ALIVE ? WRONG : ALIVE; v = 0; }
    Active(const Active& o) : state(ALIVE), v(o.v) {}
    Active& operator=(const Active& o) { if (state != ALIVE) state = WRONG; v = o.v; return *this; }
    ~Active() { state = state == ALIVE ? DEAD : WRONG; }
    int state, v;
};

#define DEV_BODY(NAME, API_CLASS)                                       \
class NAME                                                              \
{                                                                       \
public:                                                                 \
    LIBFLATARRAY_ACCESS                                                 \
    API_CLASS                                                           \
    NAME() : d(0), extra(-7), c(), i(0) {}                              \
    static NAME make(int t)                                             \
    {                                                                   \
        NAME x;                                                         \
        x.d = t * 1.25 + 0.5;                                           \
        x.a.v = t * 3 + 1;                                              \
        for (int k = 0; k < 3; ++k) x.c[k] = char(1 + ((t * 3 + k * 41) & 0x7e)); \
        for (int k = 0; k < 2; ++k) x.b[k].v = t * 11 + k * 5003 + 3;   \
        x.i = t * 7 + 1;                                                \
        return x;                                                       \
    }                                                                   \
    bool same(const NAME& o) const                                      \
    {                                                                   \
        return d == o.d && a.v == o.a.v && c[0] == o.c[0] && c[1] == o.c[1] && c[2] == o.c[2] && b[0].v == o.b[0].v && b[1].v == o.b[1].v && i == o.i; \
    }                                                                   \
    bool is(int t) const { return same(t < 0 ? NAME() : make(t)); }     \
    bool sane() const { return a.state == Active::ALIVE && b[0].state == Active::ALIVE && b[1].state == Active::ALIVE; } \
    double d;                                                           \
    int extra; /* not registered: stays with the host */                \
    char c[3];                                                          \
    Active a;                                                           \
    Active b[2];                                                        \
private:                                                                \
    int i;                                                              \
}
#define DEV_REGISTER(NAME)                                              \
LIBFLATARRAY_REGISTER_SOA(NAME, ((double)(d))((Active)(a))((char)(c)(3))((Active)(b)(2))((int)(i)))
enum { AGG = 8 + 8 + 3 + 16 + 4 };
enum { OFF_A = 8, OFF_B = 19 };

DEV_BODY(Small, class API { public: LIBFLATARRAY_CUSTOM_SIZES((1)(2)(4)(520)(1040), (1)(3)(6), (1)(2)(3)) };);
DEV_REGISTER(Small)
DEV_BODY(Plain, );
DEV_REGISTER(Plain)

DEV_BODY(Long, class API { public: LIBFLATARRAY_CUSTOM_SIZES((1)(70000), (1)(70000), (1)(33000)) };);
DEV_REGISTER(Long)

// looks at the cells before their memory is returned
static std::size_t destroyed_dims[3];
static bool destroyed_check = true;

template<typename T, std::size_t NOTHING = 0>
struct probe_allocator : cuda_allocator<T>
{
    static void (*probe)(const char *p, std::size_t n);
    void deallocate(T *p, std::size_t n)
    {
        if (probe && p) probe(p, n);
        cuda_allocator<T>().deallocate(p, n);
    }
};
template<typename T, std::size_t N> void (*probe_allocator<T, N>::probe)(const char*, std::size_t) = 0;

static void all_dead(const char *p, std::size_t n)
{
    // number of cells in the extents
    std::size_t cells = n / AGG, dead = 0, wrong = 0, alive = 0;
    MC_CHECK(cells * AGG == n, "%zu bytes are released for cells of %d bytes", n, int(AGG));
    auto look = [&](std::size_t off) {
        for (std::size_t k = 0; k < cells; ++k) {
            int s;
            cuda_emu::peek(&s, p + off * cells + k * 8, 4);
            dead += s == Active::DEAD;
            wrong += s == Active::WRONG;
            alive += s == Active::ALIVE;
        }
    };
    look(OFF_A);
    look(OFF_B);
    look(OFF_B + 8);
    MC_CHECK(wrong == 0, "%zu members on the device were constructed, used or destroyed out of turn", wrong);
    MC_CHECK(alive == 0, "%zu members on the device are not destroyed before their memory is released", alive);
    std::size_t want = 3 * destroyed_dims[0] * destroyed_dims[1] * destroyed_dims[2];
    MC_CHECK(!destroyed_check || dead == want, "%zu members on the device were constructed and destroyed, expected %zu", dead, want);
}

static void no_error(const char *op)
{
    cudaError_t e = cudaGetLastError();
    MC_CHECK(e == cudaSuccess, "%s left a CUDA error behind: %d", op, int(e));
}

struct Fault
{
    // runs f with the k-th cudaMalloc failing; true: f threw
    template<typename F> static bool run(long k, F f, bool *hit)
    {
        long before = cuda_emu::mallocs;
        cuda_emu::fail_malloc = k ? before + k : 0;
        bool thrown = false;
        try { f(); } catch (const std::exception&) { thrown = true; }
        cuda_emu::fail_malloc = 0;
        *hit = k && cuda_emu::mallocs >= before + k;
        if (*hit) cudaGetLastError(); // the failed allocation's own error
        return thrown;
    }
};

// ------------------------------------------------------------------- the grid
struct Shape { long x, y, z; };

template<typename CELL>
struct Model
{
    Shape s = {0, 0, 0};
    std::vector<int> t;
    bool backwards = false;
    int& at(long x, long y, long z) { return t[(z * s.y + y) * s.x + x]; }
    void reset(Shape n) { s = n; t.assign(n.x * n.y * n.z, -1); }
};

template<typename CELL>
struct Device
{
    typedef soa_grid<CELL, probe_allocator<char>, true> Grid;
    static void full_check(const Grid& g, Model<CELL>& m, bool rows)
    {
        const Shape s = m.s;
        MC_CHECK(long(g.dim_x()) == s.x && long(g.dim_y()) == s.y && long(g.dim_z()) == s.z, "shape is (%zu,%zu,%zu), expected (%ld,%ld,%ld)", g.dim_x(), g.dim_y(), g.dim_z(), s.x, s.y, s.z);
        std::vector<CELL> row(s.x + 2);
        // cells are read forwards and backwards in turn
        const bool backwards = m.backwards = !m.backwards;
        for (long yz = 0; yz < s.y * s.z; ++yz) {
            const long at = backwards ? s.y * s.z - 1 - yz : yz;
            const long y = at % s.y, z = at / s.y;
            for (CELL& c : row) { c = CELL::make(77); c.extra = 5; }
            g.get(0, y, z, row.data() + 1, s.x);
            for (long x = 0; x < s.x; ++x) {
                CELL& c = row[x + 1];
                MC_CHECK(c.is(m.at(x, y, z)), "cell (%ld,%ld,%ld) has a wrong value (read as part of a row, expected token %d)", x, y, z, m.at(x, y, z));
                MC_CHECK(c.sane(), "cell (%ld,%ld,%ld): member objects were used without being constructed", x, y, z);
                MC_CHECK(c.extra == 5, "reading a row changed a member that isn't registered");
            }
            MC_CHECK(row[0].is(77) && row[s.x + 1].is(77), "reading a row wrote beyond the target");
            if (s.x > 16) {
                for (long x : {0L, 1L, s.x / 2, s.x - 1}) single(g, m, x, y, z);
            } else {
                for (long x = 0; x < s.x; ++x) single(g, m, backwards ? s.x - 1 - x : x, y, z);
            }
        }
        no_error("reading");
        if (!rows) return;
        // serialised: one run with guard bytes
        for (long z = 0; z < s.z; ++z) for (long y = 0; y < s.y; ++y) {
            if (s.x == 0) continue;
            std::vector<char> buf(s.x * AGG + 32, char(0x5e));
            g.save(0, y, z, buf.data() + 16, s.x);
            for (int k = 0; k < 16; ++k) MC_CHECK(buf[k] == 0x5e && buf[buf.size() - 1 - k] == 0x5e, "saving a row wrote beyond the buffer");
            for (long x = 0; x < s.x; ++x) {
                double d;
                std::memcpy(&d, buf.data() + 16 + x * 8, 8);
                CELL want = m.at(x, y, z) < 0 ? CELL() : CELL::make(m.at(x, y, z));
                MC_CHECK(d == want.d && buf[16 + s.x * 16 + x] == want.c[0] && buf[16 + s.x * 18 + x] == want.c[2], "saved row (%ld,%ld) is wrong at %ld", y, z, x);
            }
        }
        no_error("saving");
    }
    static void single(const Grid& g, Model<CELL>& m, long x, long y, long z)
    {
        CELL c = g.get(x, y, z);
        MC_CHECK(c.is(m.at(x, y, z)), "cell (%ld,%ld,%ld) has a wrong value (expected token %d)", x, y, z, m.at(x, y, z));
        MC_CHECK(c.sane() && c.extra == -7, "cell (%ld,%ld,%ld) has other members than the host's", x, y, z);
    }
};

static const Shape SHAPES[] = {{0, 0, 0}, {2, 1, 1}, {3, 2, 1}, {1, 3, 2}, {2, 4, 1}, {0, 2, 1}};
enum { N_SHAPES = 6 };

// cfg: first shape * N_SHAPES + shape of the second grid
struct GridSys
{
    typedef Small CELL;
    typedef Device<CELL> D;
    enum { SET = 4, ROW = 4, BCAST = 5, RESIZE = N_SHAPES, LOAD = 4, OTHER = 5, FAULT = 4 };
    static int nops(long) { return SET + ROW + BCAST + RESIZE + LOAD + OTHER + FAULT; }
    static std::string opname(long, int i)
    {
        static const char *n[] = {"set", "set row", "broadcast", "resize", "load", "other", "fault"};
        static const int c[] = {SET, ROW, BCAST, RESIZE, LOAD, OTHER, FAULT};
        int k = 0;
        while (i >= c[k]) i -= c[k++];
        char buf[64];
        std::snprintf(buf, sizeof(buf), "%s#%d", n[k], i);
        return buf;
    }
    std::unique_ptr<D::Grid> g[2];
    Model<CELL> m[2];
    int token = 1;
    explicit GridSys(long cfg)
    {
        cuda_emu::reset();
        destroyed_check = false;
        for (int k = 0; k < 2; ++k) {
            Shape s = SHAPES[k ? cfg % N_SHAPES : cfg / N_SHAPES];
            g[k].reset(new D::Grid(s.x, s.y, s.z));
            m[k].reset(s);
        }
        no_error("construction");
    }
    bool apply(int i)
    {
        Shape s = m[0].s;
        long n = s.x * s.y * s.z;
        if (i < SET) {
            static const int pick[] = {0, 1, 2, 3};
            if (n == 0 || (i && n <= i)) return false;
            long k = pick[i] == 3 ? n - 1 : pick[i] == 2 ? n / 2 : pick[i];
            long x = k % s.x, y = k / s.x % s.y, z = k / s.x / s.y;
            CELL c = CELL::make(token);
            g[0]->set(x, y, z, c);
            m[0].at(x, y, z) = token++;
        } else if ((i -= SET) < ROW) {
            if (n == 0) return false;
            // whole last row, tail of the first row, one cell, nothing
            long y = i == 0 ? s.y - 1 : 0, z = i == 0 ? s.z - 1 : 0;
            long x = i == 1 ? s.x / 2 : 0, count = i == 0 ? s.x : i == 1 ? s.x - s.x / 2 : i == 2 ? 1 : 0;
            std::vector<CELL> row;
            for (long k = 0; k < count; ++k) { row.push_back(CELL::make(token)); m[0].at(x + k, y, z) = token++; }
            row.push_back(CELL::make(9999));
            g[0]->set(x, y, z, row.data(), count);
        } else if ((i -= ROW) < BCAST) {
            if (n == 0) return false;
            long y = i == 0 ? s.y - 1 : 0, z = i == 0 ? s.z - 1 : 0;
            long x = i == 1 ? s.x / 2 : 0, count = i == 0 ? s.x : i == 1 ? s.x - s.x / 2 : i == 2 ? 1 : i == 3 ? 0 : s.x;
            CELL c = CELL::make(token);
            g[0]->broadcast(x, y, z, c, count);
            for (long k = 0; k < count; ++k) m[0].at(x + k, y, z) = token;
            ++token;
        } else if ((i -= BCAST) < RESIZE) {
            Shape t = SHAPES[i];
            g[0]->resize(t.x, t.y, t.z);
            if (t.x != s.x || t.y != s.y || t.z != s.z) m[0].reset(t);
        } else if ((i -= RESIZE) < LOAD) {
            if (!transfer(i)) return false;
        } else if ((i -= LOAD) < OTHER) {
            if (i == 0) { g[0]->swap(*g[1]); std::swap(m[0], m[1]); }
            if (i == 1) { std::vector<CELL> cells(1, CELL::make(token)); if (n == 0) return false; g[0]->set(0, 0, 0, cells.data(), 1); m[0].at(0, 0, 0) = token++; }
            if (i == 2) { g[0].reset(new D::Grid()); m[0].reset(SHAPES[0]); }
            if (i == 3) { if (n == 0) return false; kernel(); }
            if (i == 4) { g[0].reset(new D::Grid(s.x, s.y, s.z)); m[0].reset(s); }
        } else {
            i -= OTHER;
            if (!fault(i)) return false;
        }
        no_error("an operation");
        D::full_check(*g[0], m[0], true);
        D::full_check(*g[1], m[1], false);
        mc::step();
        return true;
    }
    // runs of the first grid are saved and loaded into the second one (or itself)
    bool transfer(int i)
    {
        Model<CELL>& to = m[i & 1];
        Shape s = m[0].s, t = to.s;
        if (s.x < 1 || s.y < 1 || s.z < 1 || t.x < 1 || t.y < 1 || t.z < 1) return false;
        typedef detail::flat_array::simple_streak Streak;
        if (i < 2) {
            long n = std::min(s.x, t.x);
            std::vector<char> buf(n * AGG);
            g[0]->save(s.x - n, s.y - 1, s.z - 1, buf.data(), n);
            g[i & 1]->load(0, 0, 0, buf.data(), n);
            std::vector<int> v;
            for (long k = 0; k < n; ++k) v.push_back(m[0].at(s.x - n + k, s.y - 1, s.z - 1));
            for (long k = 0; k < n; ++k) to.at(k, 0, 0) = v[k];
            return true;
        }
        // two runs and an empty one, with one slot to spare; its bytes stay as they are
        if (s.y < 2 || t.y < 2) return false;
        long n0 = 1, n1 = std::min(s.x, t.x), total = n0 + n1 + 1;
        Streak from[] = {Streak(s.x - 1, 0, 0, 1), Streak(0, 0, 0, 0), Streak(0, 1, 0, n1)};
        Streak dest[] = {Streak(0, 1, 0, 1), Streak(0, 0, 0, 0), Streak(0, 0, 0, n1)};
        std::list<Streak> lf(from, from + 3), ld(dest, dest + 3);
        std::vector<char> buf(total * AGG, char(0x3d));
        g[0]->save(lf.begin(), lf.end(), buf.data(), total);
        static const int size[] = {8, 8, 1, 1, 1, 8, 8, 4};
        std::size_t at = 0;
        for (int k = 0; k < 8; ++k) {
            at += size[k] * (total - 1);
            for (int q = 0; q < size[k]; ++q, ++at) MC_CHECK(buf[at] == 0x3d, "saving changed byte %zu of the buffer, which belongs to no run", at);
        }
        g[i & 1]->load(ld.begin(), ld.end(), buf.data(), total);
        int a = m[0].at(s.x - 1, 0, 0);
        std::vector<int> v;
        for (long k = 0; k < n1; ++k) v.push_back(m[0].at(k, 1, 0));
        to.at(0, 1, 0) = a;
        for (long k = 0; k < n1; ++k) to.at(k, 0, 0) = v[k];
        return true;
    }
    // a kernel of the user's on the storage a callback hands out
    template<long X, long Y, long Z>
    static void user_kernel(char *data, long dx, long dy, long dz)
    {
        long x = blockDim.x * blockIdx.x + threadIdx.x, y = blockIdx.y, z = blockIdx.z;
        if (x >= dx || y >= dy || z >= dz) return;
        long index = soa_accessor_light<CELL, X, Y, Z, 0>::gen_index(x, y, z);
        soa_accessor_light<CELL, X, Y, Z, 0> acc(data, index);
        acc[coord<0, 0, 0>()].d() += 1000;
        acc.c()[1] = char(acc.c()[1] ^ 1);
    }
    struct User
    {
        long x, y, z;
        template<long X, long Y, long Z, long I>
        void operator()(soa_accessor<CELL, X, Y, Z, I>& acc) const
        {
            cuda_emu::launch(dim3((x + 31) / 32, y, z), dim3(32), [](auto... a) { user_kernel<X, Y, Z>(a...); }, acc.data(), x, y, z);
        }
    };
    void kernel()
    {
        Shape s = m[0].s;
        User u = {s.x, s.y, s.z};
        g[0]->callback(u);
        for (long z = 0; z < s.z; ++z) for (long y = 0; y < s.y; ++y) for (long x = 0; x < s.x; ++x) {
            CELL want = m[0].at(x, y, z) < 0 ? CELL() : CELL::make(m[0].at(x, y, z));
            want.d += 1000;
            want.c[1] ^= 1;
            CELL got = g[0]->get(x, y, z);
            MC_CHECK(got.same(want), "a kernel launched by a callback worked on the wrong cells");
        }
        // back to what the model knows
        for (long z = 0; z < s.z; ++z) for (long y = 0; y < s.y; ++y) for (long x = 0; x < s.x; ++x) {
            g[0]->set(x, y, z, m[0].at(x, y, z) < 0 ? CELL() : CELL::make(m[0].at(x, y, z)));
        }
    }
    bool fault(int i)
    {
        Shape s = m[0].s;
        bool hit = false, thrown = false;
        if (i == 0) {
            thrown = Fault::run(1, [&] { g[0]->resize(4, 2, 2); }, &hit);
            if (!hit) { MC_CHECK(!thrown, "resize failed"); m[0].reset(Shape{4, 2, 2}); return true; }
            // the grid may have kept its state or be empty
            if (g[0]->dim_x() == 0 && g[0]->dim_y() == 0 && g[0]->dim_z() == 0) m[0].reset(SHAPES[0]);
        } else if (i == 1) {
            if (s.x < 1 || s.y < 1 || s.z < 1) return false;
            std::vector<CELL> row;
            for (long k = 0; k < s.x; ++k) row.push_back(CELL::make(token + k));
            thrown = Fault::run(1, [&] { g[0]->set(0, 0, 0, row.data(), s.x); }, &hit);
            if (!hit) { for (long k = 0; k < s.x; ++k) m[0].at(k, 0, 0) = token + k; }
            token += s.x;
        } else if (i == 2) {
            if (s.x < 1 || s.y < 1 || s.z < 1) return false;
            CELL c;
            thrown = Fault::run(1, [&] { c = g[0]->get(0, 0, 0); }, &hit);
            if (!hit) MC_CHECK(c.is(m[0].at(0, 0, 0)), "wrong value read");
        } else {
            thrown = Fault::run(1, [&] { D::Grid q(2, 2, 1); }, &hit);
        }
        MC_CHECK(thrown == hit, hit ? "a failing device allocation was not reported" : "an exception without a reason");
        return true;
    }
    uint64_t hash()
    {
        uint64_t h = 1;
        for (auto& x : m) { h = mc::mix(h, x.s.x * 100 + x.s.y * 10 + x.s.z); for (int t : x.t) h = mc::mix(h, t + 2); }
        return h;
    }
    void done()
    {
        for (auto& x : g) x.reset();
        MC_CHECK(cuda_emu::live() == 0, "%d device allocations are never released", cuda_emu::live());
        no_error("destruction");
    }
};

// shapes around the sizes of the thread blocks, one grid, every operation once
template<typename CELL>
void shapes(const char *label, std::vector<long> xs, std::vector<long> ys, std::vector<long> zs)
{
    typedef Device<CELL> D;
    int k = 0;
    for (long x : xs) for (long y : ys) for (long z : zs) {
        if (y == 1 && z > 1) continue; // not a shape the built-in sizes offer
        if (!mc::g().replay && (k++ % mc::g().shards) != mc::g().shard) continue;
        for (int op = 0; op < 4; ++op) {
            if (!mc::begin(label, {x, y, z, op})) continue;
            cuda_emu::reset();
            destroyed_check = true;
            destroyed_dims[0] = x; destroyed_dims[1] = y; destroyed_dims[2] = z;
            {
                typename D::Grid g(x, y, z);
                Model<CELL> m;
                m.reset(Shape{x, y, z});
                no_error("construction");
                for (long pz : {0L, z - 1}) for (long py : {0L, y / 2, y - 1}) {
                    if (op == 0) {
                        for (long px : {0L, x / 2, x - 1}) { g.set(px, py, pz, CELL::make(int(px + 3))); m.at(px, py, pz) = int(px + 3); }
                        continue;
                    }
                    for (long from : {0L, x / 3, 5L, 511L, 512L, x - 1}) {
                        for (long count : {1L, 2L, 31L, 127L, 128L, 129L, 511L, 512L, 513L, 1023L, 1025L, x - from}) {
                            if (from >= x || from + count > x || count > 140 && count != x - from && (count + from) % 3) continue;
                            if (op == 1) {
                                std::vector<CELL> row;
                                for (long q = 0; q < count; ++q) row.push_back(CELL::make(int(q * 2 + from + count)));
                                g.set(from, py, pz, row.data(), count);
                                for (long q = 0; q < count; ++q) m.at(from + q, py, pz) = int(q * 2 + from + count);
                            } else if (op == 2) {
                                g.broadcast(from, py, pz, CELL::make(int(from + count)), count);
                                for (long q = 0; q < count; ++q) m.at(from + q, py, pz) = int(from + count);
                            } else {
                                // through the host: a row saved here is loaded there
                                std::vector<char> buf(count * AGG);
                                std::vector<int> v;
                                g.set(from, py, pz, CELL::make(int(count)));
                                m.at(from, py, pz) = int(count);
                                g.save(from, py, pz, buf.data(), count);
                                for (long q = 0; q < count; ++q) v.push_back(m.at(from + q, py, pz));
                                g.load(x - count, y - 1, 0, buf.data(), count);
                                for (long q = 0; q < count; ++q) m.at(x - count + q, y - 1, 0) = v[q];
                            }
                            mc::step();
                        }
                    }
                }
                D::full_check(g, m, true);
                mc::state(mc::mix(x * 10000 + y * 100 + z, op));
                mc::count_label("nontrivial");
            }
            MC_CHECK(cuda_emu::live() == 0, "%d device allocations are never released", cuda_emu::live());
            no_error("destruction");
        }
    }
}

// axes beyond the range of narrow counters
static void long_axes()
{
    typedef Device<Long> D;
    int k = 0;
    static const Shape shapes[] = {{65537, 1, 1}, {1, 65537, 1}, {1, 1, 32800}, {66000, 1, 1}};
    for (const Shape& s : shapes) {
        if (!mc::g().replay && (k++ % mc::g().shards) != mc::g().shard) continue;
        if (!mc::begin("long_axes", {s.x, s.y, s.z})) continue;
        cuda_emu::reset();
        destroyed_check = true;
        destroyed_dims[0] = s.x; destroyed_dims[1] = s.y; destroyed_dims[2] = s.z;
        {
            D::Grid g(s.x, s.y, s.z);
            Model<Long> m;
            m.reset(s);
            no_error("construction");
            long n = s.x * s.y * s.z;
            std::vector<long> at;
            for (long p : {0L, 1L, 254L, 255L, 256L, 257L, 464L, 32767L, 32768L, 32769L, 65535L, 65536L, 65999L, n - 2, n - 1}) if (p < n) at.push_back(p);
            auto look = [&]() {
                for (long p : at) {
                    D::single(g, m, s.x > 1 ? p : 0, s.y > 1 ? p : 0, s.z > 1 ? p : 0);
                    Long c;
                    g.get(s.x > 1 ? p : 0, s.y > 1 ? p : 0, s.z > 1 ? p : 0, &c, 1);
                    MC_CHECK(c.is(m.t[p]), "cell %ld of a row of %ld is wrong", p, n);
                }
            };
            look();
            for (long p : at) { g.set(s.x > 1 ? p : 0, s.y > 1 ? p : 0, s.z > 1 ? p : 0, Long::make(int(p % 1000 + 1))); m.t[p] = int(p % 1000 + 1); }
            look();
            for (long p : at) {
                Long c = Long::make(int(p % 1000 + 5));
                if (p % 2) g.set(s.x > 1 ? p : 0, s.y > 1 ? p : 0, s.z > 1 ? p : 0, &c, 1);
                else g.broadcast(s.x > 1 ? p : 0, s.y > 1 ? p : 0, s.z > 1 ? p : 0, c, 1);
                m.t[p] = int(p % 1000 + 5);
            }
            look();
            if (s.x > 1) {
                std::vector<Long> row(n);
                for (long p = 0; p < n; ++p) { row[p] = Long::make(int(p % 1013)); m.t[p] = int(p % 1013); }
                g.set(0, 0, 0, row.data(), n);
                g.broadcast(7, 0, 0, Long::make(3), n - 9);
                for (long p = 7; p < n - 2; ++p) m.t[p] = 3;
                look();
                std::vector<Long> got(n);
                g.get(0, 0, 0, got.data(), n);
                for (long p = 0; p < n; ++p) MC_CHECK(got[p].is(m.t[p]), "cell %ld of %ld is wrong, expected token %d", p, n, m.t[p]);
                std::vector<char> buf(n * AGG);
                g.save(0, 0, 0, buf.data(), n);
                g.broadcast(0, 0, 0, Long::make(9), n);
                g.load(0, 0, 0, buf.data(), n);
                look();
            }
            no_error("an operation");
            mc::step(at.size());
            mc::state(mc::mix(s.x * 3 + s.y * 5 + s.z * 7, 23));
            mc::count_label("nontrivial");
        }
        MC_CHECK(cuda_emu::live() == 0, "%d device allocations are never released", cuda_emu::live());
        no_error("destruction");
    }
}

// -------------------------------------------------------------- device arrays
struct Item
{
    int a; float b; int c;
    static Item make(int t) { Item i = {t, t * 0.5f, ~t}; return i; }
    bool is(int t) const { return a == t && b == t * 0.5f && c == ~t; }
};

struct ArraySys
{
    typedef cuda_array<Item> A;
    enum { CTORS = 13, ASSIGN = 2, RESIZE = 5, RESIZEV = 5, RESERVE = 4, LOAD = 1, FAULT = 7 };
    static int nops(long) { return CTORS + ASSIGN + RESIZE + RESIZEV + RESERVE + LOAD + 1 + FAULT; }
    static std::string opname(long, int i)
    {
        static const char *n[] = {"construct", "assign", "resize", "resize with value", "reserve", "load", "exchange", "fault"};
        static const int c[] = {CTORS, ASSIGN, RESIZE, RESIZEV, RESERVE, LOAD, 1, FAULT};
        int k = 0;
        while (i >= c[k]) i -= c[k++];
        char buf[64];
        std::snprintf(buf, sizeof(buf), "%s#%d", n[k], i);
        return buf;
    }
    std::unique_ptr<A> a[2];
    std::vector<int> m[2];    // tokens up to the size, -1: unspecified
    int token = 1;
    explicit ArraySys(long)
    {
        cuda_emu::reset();
        a[0].reset(new A());
        a[1].reset(new A(2, Item::make(token)));
        m[1].assign(2, token++);
        no_error("construction");
    }
    static long size(int i) { static const long s[] = {0, 1, 3, 5, 700}; return s[i]; }
    void grow(long n, int value)
    {
        m[0].resize(n, value); // without a value: unspecified
    }
    bool apply(int i)
    {
        std::vector<Item> host;
        if (i < CTORS) {
           
            if (i < 4) { long n = size(i); a[0].reset(new A(n)); m[0].assign(n, -1); }
            else if (i < 8) { long n = size(i == 7 ? 4 : i - 4); a[0].reset(new A(n, Item::make(token))); m[0].assign(n, token++); }
            else if (i < 12) {
                long n = size(i == 11 ? 2 : i - 8);
                m[0].clear();
                for (long k = 0; k < n; ++k) { m[0].push_back(token); host.push_back(Item::make(token++)); }
                if (i == 11) a[0].reset(new A(host));
                else { host.push_back(Item::make(0)); a[0].reset(new A(host.data(), n)); }
            } else { a[0].reset(new A(*a[1])); m[0] = m[1]; }
        } else if ((i -= CTORS) < ASSIGN) {
            if (i == 0) { *a[0] = *a[1]; m[0] = m[1]; }
            else { A& self = *a[0]; *a[0] = self; }
        } else if ((i -= ASSIGN) < RESIZE) {
            a[0]->resize(size(i));
            grow(size(i), -1);
        } else if ((i -= RESIZE) < RESIZEV) {
            Item v = Item::make(token);
            a[0]->resize(size(i), v);
            grow(size(i), token++);
        } else if ((i -= RESIZEV) < RESERVE) {
            std::size_t before = a[0]->capacity();
            a[0]->reserve(size(i + 1));
            MC_CHECK(long(a[0]->capacity()) >= size(i + 1) && a[0]->capacity() >= before, "capacity is %zu after reserve(%ld), was %zu", a[0]->capacity(), size(i + 1), before);
        } else if ((i -= RESERVE) < LOAD) {
            for (int& t : m[0]) { t = token; host.push_back(Item::make(token++)); }
            host.push_back(Item::make(0));
            a[0]->load(host.data());
        } else if ((i -= LOAD) < 1) {
            a[0].swap(a[1]); m[0].swap(m[1]);
        } else {
            --i;
            if (!fault(i)) return false;
        }
        no_error("an operation");
        check(0);
        check(1);
        mc::step();
        return true;
    }
    bool fault(int i)
    {
        bool hit = false, thrown = false;
        std::vector<Item> host(6, Item::make(3));
        if (i == 0) { thrown = Fault::run(1, [&] { *a[0] = *a[1]; }, &hit); if (!hit) { m[0] = m[1]; } }
        if (i == 1) { thrown = Fault::run(1, [&] { a[0]->resize(6); }, &hit); if (!hit) grow(6, -1); }
        if (i == 2) { thrown = Fault::run(1, [&] { a[0]->resize(6, host[0]); }, &hit); if (!hit) grow(6, 3); }
        if (i == 3) { thrown = Fault::run(1, [&] { a[0]->reserve(7); }, &hit); }
        if (i == 4) { thrown = Fault::run(1, [&] { A x(*a[1]); A y(host); A z(host.data(), 3); }, &hit); }
        if (i == 5) { thrown = Fault::run(3, [&] { A x(4, host[0]); A y(3); A z(host.data(), 3); }, &hit); }
        if (i == 6) {
            // requests beyond the address space
            for (std::size_t n : {~std::size_t(0) / sizeof(Item) + 2, ~std::size_t(0) / 2 + 1, ~std::size_t(0)}) {
                thrown = false;
                try { A x(n); } catch (const std::exception&) { thrown = true; }
                cudaGetLastError();
                MC_CHECK(thrown, "an array of %zu elements was granted", n);
                thrown = false;
                try { a[0]->reserve(n); } catch (const std::exception&) { thrown = true; }
                cudaGetLastError();
                MC_CHECK(thrown, "room for %zu elements was granted", n);
            }
            return true;
        }
        MC_CHECK(thrown == hit, hit ? "a failing device allocation was not reported" : "an exception without a reason");
        if (hit && a[0]->size() == 0) { m[0].clear(); } // "may instead be empty"
        return true;
    }
    void check(int k)
    {
        A& x = *a[k];
        std::size_t n = m[k].size();
        MC_CHECK(x.size() == n, "array %d has size %zu, expected %zu", k, x.size(), n);
        MC_CHECK(x.capacity() >= n && x.byte_size() == n * sizeof(Item), "array %d of size %zu has capacity %zu, byte size %zu", k, n, x.capacity(), x.byte_size());
        std::vector<Item> host(n + 2, Item::make(-5));
        x.save(host.data() + 1);
        MC_CHECK(host[0].is(-5) && host[n + 1].is(-5), "saving array %d wrote beyond its %zu elements", k, n);
        for (std::size_t q = 0; q < n; ++q) MC_CHECK(m[k][q] < 0 || host[q + 1].is(m[k][q]), "element %zu of %zu of array %d is wrong (expected token %d, got %d)", q, n, k, m[k][q], host[q + 1].a);
        MC_CHECK(a[0]->data() == 0 || a[0]->data() != a[1]->data(), "two arrays share their storage");
    }
    uint64_t hash()
    {
        uint64_t h = 7;
        for (int k = 0; k < 2; ++k) {
            h = mc::mix(h, m[k].size() * 1000 + a[k]->capacity());
            for (int t : m[k]) h = mc::mix(h, t < 0 ? 0 : 1);
        }
        return h;
    }
    void done()
    {
        a[0].reset();
        a[1].reset();
        MC_CHECK(cuda_emu::live() == 0, "%d device allocations are never released", cuda_emu::live());
        no_error("destruction");
    }
};

static void room(const cuda_array<Item>& a, long n)
{
    MC_CHECK(long(a.size()) == n && long(a.capacity()) >= n && a.byte_size() == n * sizeof(Item), "array of %ld elements has size %zu, capacity %zu, byte size %zu", n, a.size(), a.capacity(), a.byte_size());
}

// sizes around the thread blocks'
static void array_sizes()
{
    int k = 0;
    for (long n : {0L, 1L, 31L, 32L, 33L, 511L, 512L, 513L, 1023L, 1024L, 1025L, 1536L, 5000L, 66000L}) {
        if (!mc::g().replay && (k++ % mc::g().shards) != mc::g().shard) continue;
        if (!mc::begin("array_sizes", {n})) continue;
        cuda_emu::reset();
        {
            cuda_array<Item> a(n, Item::make(4));
            std::vector<Item> host(n + 1, Item::make(9));
            a.save(host.data());
            for (long i = 0; i < n; ++i) MC_CHECK(host[i].is(4), "element %ld of %ld was not initialised", i, n);
            MC_CHECK(host[n].is(9), "saving wrote beyond the target");
            a.resize(n + 40, Item::make(6));
            host.resize(n + 41, Item::make(9));
            a.save(host.data());
            for (long i = 0; i < n + 40; ++i) MC_CHECK(host[i].is(i < n ? 4 : 6), "element %ld is wrong after growth", i);
            room(a, n + 40);
            // the same through a copy, an assignment, room obtained before and a shorter array
            cuda_array<Item> b(a), c(3, Item::make(1)), d(2), e(host.data(), n + 40);
            c = a;
            d.reserve(n + 40);
            room(d, 2);
            MC_CHECK(long(d.capacity()) >= n + 40, "capacity is %zu after reserve(%ld)", d.capacity(), n + 40);
            d.resize(n + 40);
            d.load(host.data());
            a.resize(n / 2);
            room(a, n / 2);
            cuda_array<Item> *all[] = {&b, &c, &d, &e, &a};
            for (int q = 0; q < 5; ++q) {
                long size = q == 4 ? n / 2 : n + 40;
                room(*all[q], size);
                std::vector<Item> got(size + 1, Item::make(9));
                all[q]->save(got.data());
                for (long i = 0; i < size; ++i) MC_CHECK(got[i].is(i < n ? 4 : 6), "element %ld of %ld is wrong after %s", i, size, (const char*[]){"a copy", "an assignment", "reserve and load", "construction from host data", "shrinking"}[q]);
                MC_CHECK(got[size].is(9), "saving wrote beyond the target");
            }
            mc::step();
            mc::state(mc::mix(n, 17));
            no_error("an array operation");
        }
        MC_CHECK(cuda_emu::live() == 0, "device memory is not released");
    }
}

// -------------------------------------------- fixed-capacity arrays in kernels
typedef soa_array<Small, 24> Fixed;
static void append_kernel(Fixed *a, int n)
{
    for (int k = 0; k < n; ++k) { Small c = (*a)[k]; c.d += 1; *a << c; }
}
static void modify_kernel(Fixed *a)
{
    int i = blockDim.x * blockIdx.x + threadIdx.x;
    if (i >= int(a->size())) return;
    (*a)[i].d() += i;
    (*a)[i].c()[2] = char(i);
}
static void fixed_arrays()
{
    if (mc::g().shard != 0 && !mc::g().replay) return;
    for (int n = 0; n <= 12; ++n) for (int add = 0; add <= n; ++add) for (int block : {1, 7, 32}) {
        if (!mc::begin("fixed_array", {n, add, block})) continue;
        cuda_emu::reset();
        Fixed host;
        for (int k = 0; k < n; ++k) host << Small::make(k);
        Fixed *dev = 0;
        cudaMalloc(&dev, sizeof(Fixed));
        cudaMemcpy(dev, &host, sizeof(Fixed), cudaMemcpyHostToDevice);
        cuda_emu::launch(dim3(1), dim3(1), [](auto... a) { append_kernel(a...); }, dev, add);
        cuda_emu::launch(dim3((n + add) / block + 1), dim3(block), [](auto... a) { modify_kernel(a...); }, dev);
        cudaMemcpy(&host, dev, sizeof(Fixed), cudaMemcpyDeviceToHost);
        cudaFree(dev);
        MC_CHECK(int(host.size()) == n + add, "array has %zu elements, expected %d", host.size(), n + add);
        for (int k = 0; k < n + add; ++k) {
            Small want = Small::make(k < n ? k : k - n), got = host[k];
            want.d += k + (k < n ? 0 : 1);
            want.c[2] = char(k);
            MC_CHECK(got.same(want), "element %d of %d is wrong after the kernels", k, n + add);
        }
        mc::step(2);
    }
}

static void report(const char *text) { mc::fail("%s", text); }

static void on_alarm(int sig) { cuda_emu::unmonitored(mc::on_alarm, sig); }

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    signal(SIGALRM, on_alarm);
    cuda_emu::report = report;
    cuda_emu::reset();
    bool t = mc::thorough();
    probe_allocator<char>::probe = all_dead;
    shapes<Small>("blocks", t ? std::vector<long>{1, 2, 4, 127, 128, 129, 511, 512, 513, 520, 1023, 1024, 1025, 1040} : std::vector<long>{1, 4, 127, 129, 512, 513, 1025, 1040}, {1, 3, 4, 5, 6}, {1, 2, 3});
    shapes<Plain>("built_in_sizes", {1, 33, 60}, {1, 5, 33}, {1, 2});
    long_axes();
    array_sizes();
    fixed_arrays();
    mc::explore<ArraySys>("array", 0, t ? 4 : 3, false);
    mc::explore<ArraySys>("array_deep", 0, t ? 7 : 5, true);
    for (long cfg = 0; cfg < N_SHAPES * N_SHAPES; ++cfg) {
        bool deep = cfg % 7 == 2;
        mc::explore<GridSys>("grid", cfg, t ? (deep ? 4 : 3) : (deep ? 3 : 2), false);
    }
    mc::extra("kernel_launches", cuda_emu::launches);
    mc::extra("device_threads", cuda_emu::device_threads);
    mc::extra("kernel_accesses_checked", cuda_emu::accesses);
    mc::extra("launches_with_dependent_threads", cuda_emu::conflicting);
    return mc::finish();
}
