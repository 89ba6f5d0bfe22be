// P17: concurrent const access, disjoint updates through callbacks, separate
// containers. Compiled with -fsanitize=thread, linked with p17_rt.cpp.
//
// For every pair (and triple) of operations all schedules with a bounded number
// of preemptions are executed on the real code; every execution is checked for
// data races (vector clocks over every memory access), every thread's results
// are compared with the results it gets alone, and the final state with the one
// of a sequential execution. Without synchronisation between the threads a
// race-free execution is equivalent to all its interleavings, so the verdict
// extends to any number of preemptions.
#include "mc.hpp"
#include "p17_rt.hpp"
#include <libflatarray/flat_array.hpp>

using namespace LibFlatArray;

struct Member
{
    Member(int v = 0) : v(v), w(v * 3) {}
    Member(const Member& o) : v(o.v), w(o.w) {}
    ~Member() { v = -1; }
    Member& operator=(const Member& o) { v = o.v; w = o.w; return *this; }
    int v;
    short w;
};

#define CELL_BODY(NAME)                                                 \
    explicit NAME(int t = 0) : a(t * 0.5), m(t * 7), b(char(t)) { for (int i = 0; i < 3; ++i) c[i] = t * 10 + i; for (int i = 0; i < 2; ++i) k[i] = Member(t + i); } \
    double a; int c[3]; Member m; char b; Member k[2];                  \
    uint64_t hash() const { uint64_t h = uint64_t(a * 2 + 1000) * 31 + b; for (int i = 0; i < 3; ++i) h = h * 131 + c[i]; h = h * 131 + m.v; h = h * 131 + m.w; for (int i = 0; i < 2; ++i) h = h * 131 + k[i].v; return h; }

struct Cell
{
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((2)(4), (3)(5), (2)(3))
    };
    CELL_BODY(Cell)
};
struct ACell
{
    class API : public api_traits::has_custom_sizes, public api_traits::has_asymmetric_dual_callback
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((2)(4), (3)(5), (2)(3))
    };
    CELL_BODY(ACell)
};
struct LCell
{
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((2)(4)(7))
    };
    CELL_BODY(LCell)
};
// no API class: built-in size lists
struct DCell { CELL_BODY(DCell) };

#define MEMBERS ((double)(a))((int)(c)(3))((Member)(m))((char)(b))((Member)(k)(2))
LIBFLATARRAY_REGISTER_SOA(Cell, MEMBERS)
LIBFLATARRAY_REGISTER_SOA(ACell, MEMBERS)
LIBFLATARRAY_REGISTER_SOA(LCell, MEMBERS)
LIBFLATARRAY_REGISTER_SOA(DCell, MEMBERS)

typedef soa_grid<Cell> Grid;
typedef soa_grid<ACell> AGrid;
typedef soa_grid<DCell> DGrid;
typedef soa_vector<LCell> Vector;
typedef soa_array<LCell, 6> Array;
typedef soa_array<LCell, 4> SmallArray;

const int DX = 3, DY = 3, DZ = 2;

struct Run
{
    Run(long x, long y, long z, long n) : n(n) { origin[0] = x; origin[1] = y; origin[2] = z; }
    long length() const { return n; }
    long origin[3];
    long n;
};

// everything an execution uses; [t]: belongs to thread t
struct Env
{
    Env() :
        shared(DX, DY, DZ), ashared(DX, DY, DZ), dshared(3, 3, 1), list(3), array(4)
    {
        fill(shared, DX, DY, DZ, 10);
        fill(ashared, DX, DY, DZ, 40);
        fill(dshared, 3, 3, 1, 70);
        for (int i = 0; i < 3; ++i) list.set(i, LCell(60 + i));
        for (int i = 0; i < 4; ++i) array[i] = LCell(80 + i);
        for (int t = 0; t < rt::MAX_THREADS; ++t) {
            grid[t] = new Grid(2, 2, 1);
            other[t] = new Grid(DX, DY, DZ);
            agrid[t] = new AGrid(2, 3, 2);
            vec[t] = new Vector(2);
            arr[t] = new Array(3);
            small[t] = new SmallArray(2);
            fill(*grid[t], 2, 2, 1, 100 + 20 * t);
            fill(*other[t], DX, DY, DZ, 200 + 20 * t);
            fill(*agrid[t], 2, 3, 2, 300 + 20 * t);
            for (int i = 0; i < 2; ++i) vec[t]->set(i, LCell(400 + 10 * t + i));
            for (int i = 0; i < 3; ++i) (*arr[t])[i] = LCell(500 + 10 * t + i);
            for (int i = 0; i < 2; ++i) (*small[t])[i] = LCell(600 + 10 * t + i);
            result[t] = 0;
        }
    }
    ~Env()
    {
        for (int t = 0; t < rt::MAX_THREADS; ++t) {
            delete grid[t];
            delete other[t];
            delete agrid[t];
            delete vec[t];
            delete arr[t];
            delete small[t];
        }
    }

    template<typename G>
    static void fill(G& g, int x, int y, int z, int token)
    {
        typedef typename G::value_type C;
        for (int k = 0; k < z; ++k) for (int j = 0; j < y; ++j) for (int i = 0; i < x; ++i) g.set(i, j, k, C(token++));
    }

    template<typename G>
    static uint64_t digest(const G& g)
    {
        uint64_t h = g.dim_x() * 10000 + g.dim_y() * 100 + g.dim_z();
        for (std::size_t k = 0; k < g.dim_z(); ++k) for (std::size_t j = 0; j < g.dim_y(); ++j) for (std::size_t i = 0; i < g.dim_x(); ++i) h = h * 1000003 + g.get(i, j, k).hash();
        return h;
    }
    static uint64_t digest(const Vector& v)
    {
        uint64_t h = v.size();
        for (std::size_t i = 0; i < v.size(); ++i) h = h * 1000003 + v.get(i).hash();
        return h;
    }
    template<int N>
    static uint64_t digest(const soa_array<LCell, N>& a)
    {
        uint64_t h = a.size();
        for (std::size_t i = 0; i < a.size(); ++i) h = h * 1000003 + LCell(a[int(i)]).hash();
        return h;
    }
    uint64_t digest() const
    {
        uint64_t h = digest(shared) + 3 * digest(ashared) + 5 * digest(dshared) + 7 * digest(list) + 11 * digest(array);
        for (int t = 0; t < rt::MAX_THREADS; ++t) {
            h = h * 1000003 + digest(*grid[t]);
            h = h * 1000003 + digest(*other[t]);
            h = h * 1000003 + digest(*agrid[t]);
            h = h * 1000003 + digest(*vec[t]);
            h = h * 1000003 + digest(*arr[t]);
            h = h * 1000003 + digest(*small[t]);
        }
        return h;
    }

    Grid shared;
    AGrid ashared;
    DGrid dshared;
    Vector list;
    Array array;

    Grid *grid[rt::MAX_THREADS], *other[rt::MAX_THREADS];
    AGrid *agrid[rt::MAX_THREADS];
    Vector *vec[rt::MAX_THREADS];
    Array *arr[rt::MAX_THREADS];
    SmallArray *small[rt::MAX_THREADS];
    uint64_t result[rt::MAX_THREADS];
};

struct SumAll
{
    explicit SumAll(uint64_t *r, int x = DX, int y = DY, int z = DZ) : r(r), x(x), y(y), z(z) {}
    template<typename A> void operator()(A& a) const
    {
        uint64_t h = 0;
        for (int k = 0; k < z; ++k) for (int j = 0; j < y; ++j) {
            a.index() = A::gen_index(0L, long(j), long(k));
            for (int i = 0; i < x; ++i) {
                h = h * 31 + uint64_t(a.a()) + a.c()[1] + a.template c<2>() + a.m().v + a.b() + a.k()[1].w;
                h = h * 31 + uint64_t(a[coord<0, 0, 0>()].a());
                ++a;
            }
        }
        *r = h;
    }
    uint64_t *r;
    int x, y, z;
};

struct CopyRows
{
    explicit CopyRows(uint64_t *r, long nx, long ny) : r(r), nx(nx), ny(ny) {}
    template<typename A, typename B> void operator()(A& a, B& b) const
    {
        uint64_t h = 0;
        for (long j = 0; j < ny; ++j) {
            a.index() = A::gen_index(0L, j, 0L);
            b.index() = B::gen_index(0L, j, 0L);
            for (long i = 0; i < nx; ++i) {
                h = h * 31 + uint64_t(a.a()) + a.m().v + a.c()[0];
                b.a() = a.a() + 1;
                b.m() = a.m();
                ++a;
                ++b;
            }
        }
        *r = h;
    }
    uint64_t *r;
    long nx, ny;
};

// updates of row y of slice z in several ways
struct UpdateRow
{
    UpdateRow(int how, int y, int token, uint64_t *r, int dx = DX) : how(how), y(y), token(token), r(r), dx(dx) {}
    template<typename A> void operator()(A& a) const
    {
        typedef typename A::element_type C;
        uint64_t h = 0;
        long base = A::gen_index(0L, long(y), 0L);
        a.index() = base;
        if (how == 0) {
            for (int i = 0; i < dx; ++i) {
                a.a() = a.a() + token;
                a.c()[1] += token;
                a.m() = Member(token + i);
                a.b() = char(token);
                ++a;
            }
        }
        if (how == 1) {
            for (int i = 0; i < dx; ++i) {
                a << C(token + i);
                C c;
                a >> c;
                h = h * 31 + c.hash();
                ++a;
            }
        }
        if (how == 2) {
            char buf[3 * aggregated_member_size<C>::VALUE];
            a.save(buf, 2, 0, 3);
            a.index() = base + 1;
            a.load(buf, 2, 0, 3);
        }
        if (how == 3) {
            A from(a.data(), base);
            a.index() = base + 1;
            a.copy_members(from, 1);
        }
        if (how == 4) {
            a.index() = base + 1;
            a[coord<1, 0, 0>()].a() = token;
            a[coord<-1, 0, 0>()].c()[2] = token;
            a[coord<-1, 0, 0>()].m() = a[coord<1, 0, 0>()].m();
        }
        if (how == 5) {
            a.index() = base;
            a.destroy_members();
            a.construct_members();
        }
        *r = h;
    }
    int how, y, token;
    uint64_t *r;
    int dx;
};

struct UpdateElement
{
    explicit UpdateElement(int t) : t(t) {}
    template<typename A> void operator()(A& a) const
    {
        a.index() = t;
        a << LCell(900 + t);
        a.c()[0] = t;
    }
    int t;
};

typedef void (*Function)(Env&, int, uint64_t *);
struct Op { const char *name; Function f; };

// ---- const operations on the shared containers
static const Op READ[] = {
    {"get(1,0,0)", [](Env& e, int, uint64_t *r) { const Grid& g = e.shared; *r = g.get(1, 0, 0).hash(); }},
    {"get(2,2,1)", [](Env& e, int, uint64_t *r) { const Grid& g = e.shared; *r = g.get(2, 2, 1).hash(); }},
    {"get run of 3", [](Env& e, int, uint64_t *r) { const Grid& g = e.shared; Cell c[3]; g.get(0, 1, 1, c, 3); *r = c[0].hash() + 3 * c[1].hash() + 5 * c[2].hash(); }},
    {"save run", [](Env& e, int, uint64_t *r) { const Grid& g = e.shared; char b[3 * aggregated_member_size<Cell>::VALUE]; memset(b, 0, sizeof(b)); g.save(0, 2, 0, b, 3); uint64_t h = 0; for (unsigned i = 0; i < sizeof(b); ++i) h = h * 31 + b[i]; *r = h; }},
    {"save list of runs", [](Env& e, int, uint64_t *r) { const Grid& g = e.shared; char b[4 * aggregated_member_size<Cell>::VALUE]; memset(b, 0, sizeof(b)); std::vector<Run> runs; runs.push_back(Run(0, 0, 0, 2)); runs.push_back(Run(1, 2, 1, 1)); g.save(runs.begin(), runs.end(), b, 4); uint64_t h = 0; for (unsigned i = 0; i < sizeof(b); ++i) h = h * 31 + b[i]; *r = h; }},
    {"callback", [](Env& e, int, uint64_t *r) { const Grid& g = e.shared; g.callback(SumAll(r)); }},
    {"two-grid callback as source", [](Env& e, int t, uint64_t *r) { const Grid& g = e.shared; g.callback(e.other[t], CopyRows(r, DX, DY)); }},
    {"two-grid callback as source (asymmetric)", [](Env& e, int t, uint64_t *r) { const AGrid& g = e.ashared; g.callback(e.agrid[t], CopyRows(r, 2, 3)); }},
    {"copy", [](Env& e, int, uint64_t *r) { const Grid& g = e.shared; Grid c(g); *r = Env::digest(c); }},
    {"assign to another grid", [](Env& e, int t, uint64_t *r) { const Grid& g = e.shared; *e.grid[t] = g; *r = Env::digest(*e.grid[t]); }},
    {"shape and data", [](Env& e, int, uint64_t *r) { const Grid& g = e.shared; *r = g.dim_x() + g.dim_y() * 10 + g.dim_z() * 100 + g.extent_x() * 1000 + g.extent_y() * 10000 + g.extent_z() * 100000 + g.byte_size() * 1000000 + g.data()[0] + g.data()[8]; }},
    {"get (asymmetric type)", [](Env& e, int, uint64_t *r) { const AGrid& g = e.ashared; *r = g.get(1, 1, 1).hash(); }},
    {"get (built-in sizes)", [](Env& e, int, uint64_t *r) { const DGrid& g = e.dshared; *r = g.get(2, 1, 0).hash(); }},
    {"get run (built-in sizes)", [](Env& e, int, uint64_t *r) { const DGrid& g = e.dshared; DCell c[2]; g.get(1, 2, 0, c, 2); *r = c[0].hash() + 3 * c[1].hash(); }},
    {"callback (built-in sizes)", [](Env& e, int, uint64_t *r) { const DGrid& g = e.dshared; g.callback(SumAll(r, 3, 3, 1)); }},
    {"vector get", [](Env& e, int, uint64_t *r) { const Vector& v = e.list; *r = v.get(1).hash() + v.size() + v.capacity() + v.empty(); }},
    {"vector callback", [](Env& e, int, uint64_t *r) { const Vector& v = e.list; v.callback(SumAll(r, 3, 1, 1)); }},
    {"vector copy", [](Env& e, int, uint64_t *r) { const Vector& v = e.list; Vector c(v); *r = Env::digest(c); }},
    {"vector assign", [](Env& e, int t, uint64_t *r) { const Vector& v = e.list; *e.vec[t] = v; *r = Env::digest(*e.vec[t]); }},
    {"array elements", [](Env& e, int, uint64_t *r) { const Array& a = e.array; *r = LCell(a[1]).hash() + LCell(a.at(2)).hash() * 3 + a[0].m().v + a.size() + a.capacity() + a.byte_size(); }},
    {"array copy", [](Env& e, int, uint64_t *r) { const Array& a = e.array; Array c(a); *r = Env::digest(c); }},
    {"array assign to smaller array", [](Env& e, int t, uint64_t *r) { const Array& a = e.array; *e.small[t] = a; *r = Env::digest(*e.small[t]); }},
};

// ---- updates of row t of the shared grid through callbacks
static const Op WRITE[] = {
    {"update members of row", [](Env& e, int t, uint64_t *r) { e.shared.callback(UpdateRow(0, t, 33 + t, r)); }},
    {"write cells of row", [](Env& e, int t, uint64_t *r) { e.shared.callback(UpdateRow(1, t, 43 + t, r)); }},
    {"save/load within row", [](Env& e, int t, uint64_t *r) { e.shared.callback(UpdateRow(2, t, 53 + t, r)); }},
    {"copy within row", [](Env& e, int t, uint64_t *r) { e.shared.callback(UpdateRow(3, t, 63 + t, r)); }},
    {"update neighbours in row", [](Env& e, int t, uint64_t *r) { e.shared.callback(UpdateRow(4, t, 73 + t, r)); }},
    {"recreate cell in row", [](Env& e, int t, uint64_t *r) { e.shared.callback(UpdateRow(5, t, 73 + t, r)); }},
    {"update row (built-in sizes)", [](Env& e, int t, uint64_t *r) { e.dshared.callback(UpdateRow(1, t, 83 + t, r)); }},
    {"update row (asymmetric)", [](Env& e, int t, uint64_t *r) { e.ashared.callback(UpdateRow(0, t, 83 + t, r)); }},
    {"update vector element", [](Env& e, int t, uint64_t *r) { e.list.callback(UpdateElement(t)); *r = 0; }},
    {"update array element", [](Env& e, int t, uint64_t *r) { e.array[t] = LCell(700 + t); e.array.at(t).a() += 1; e.array[t].m() = Member(t); *r = 0; }},
    // reading what nobody writes
    {"get from the other slice", [](Env& e, int t, uint64_t *r) { const Grid& g = e.shared; *r = g.get(t, t, 1).hash(); }},
    {"save the other slice", [](Env& e, int t, uint64_t *r) { const Grid& g = e.shared; char b[3 * aggregated_member_size<Cell>::VALUE]; memset(b, 0, sizeof(b)); g.save(0, t, 1, b, 3); uint64_t h = 0; for (unsigned i = 0; i < sizeof(b); ++i) h = h * 31 + b[i]; *r = h; }},
};

// ---- anything on the thread's own containers
template<typename S> static void peel(long& x, long end, uint64_t *sum) { for (; x < end; x += S::ARITY) *sum += S::ARITY * x; }

static const Op OWN[] = {
    {"set", [](Env& e, int t, uint64_t *r) { e.grid[t]->set(1, 1, 0, Cell(5)); *r = e.grid[t]->get(1, 1, 0).hash(); }},
    {"set run", [](Env& e, int t, uint64_t *r) { Cell c[2] = {Cell(6), Cell(7)}; e.grid[t]->set(0, 1, 0, c, 2); *r = e.grid[t]->get(0, 1, 0).hash(); }},
    {"broadcast", [](Env& e, int t, uint64_t *r) { e.grid[t]->broadcast(0, 1, 0, Cell(8), 2); *r = e.grid[t]->get(1, 1, 0).hash(); }},
    {"get", [](Env& e, int t, uint64_t *r) { Cell c[2]; e.grid[t]->get(0, 1, 0, c, 2); *r = c[0].hash() + 3 * c[1].hash(); }},
    {"save and load", [](Env& e, int t, uint64_t *r) { char b[2 * aggregated_member_size<Cell>::VALUE]; e.grid[t]->save(0, 0, 0, b, 2); e.grid[t]->load(0, 1, 0, b, 2); *r = e.grid[t]->get(0, 1, 0).hash(); }},
    {"save and load runs", [](Env& e, int t, uint64_t *r) { char b[2 * aggregated_member_size<Cell>::VALUE]; Run f[2] = {Run(0, 0, 0, 1), Run(1, 1, 0, 1)}; Run g[2] = {Run(1, 0, 0, 1), Run(0, 1, 0, 1)}; e.grid[t]->save(f + 0, f + 2, b, 2); e.grid[t]->load(g + 0, g + 2, b, 2); *r = e.grid[t]->get(1, 0, 0).hash(); }},
    {"resize", [](Env& e, int t, uint64_t *r) { e.grid[t]->resize(3, 1, 1); *r = e.grid[t]->extent_x() * 100 + e.grid[t]->byte_size(); }},
    {"refused resize", [](Env& e, int t, uint64_t *r) { *r = 0; try { e.grid[t]->resize(99, 1, 1); } catch (const std::out_of_range&) { *r = 1; } }},
    {"create and destroy", [](Env& e, int t, uint64_t *r) { Grid g(2, 1, 1); g.set(0, 0, 0, Cell(t)); *r = g.get(0, 0, 0).hash(); }},
    {"copy and swap", [](Env& e, int t, uint64_t *r) { Grid g(*e.grid[t]); g.set(0, 0, 0, Cell(3)); swap(g, *e.grid[t]); *r = e.grid[t]->get(0, 0, 0).hash(); }},
    {"callback", [](Env& e, int t, uint64_t *r) { e.grid[t]->callback(UpdateRow(0, 1, 5, r, 2)); }},
    {"two-grid callback", [](Env& e, int t, uint64_t *r) { Grid g(DX, DY, DZ); e.other[t]->callback(&g, CopyRows(r, DX, DY)); }},
    {"refused two-grid callback", [](Env& e, int t, uint64_t *r) { *r = 0; try { e.other[t]->callback(e.grid[t], CopyRows(r, 1, 1)); } catch (const std::invalid_argument&) { *r = 1; } }},
    {"two-grid callback (asymmetric)", [](Env& e, int t, uint64_t *r) { AGrid g(3, 3, 2); e.agrid[t]->callback(&g, CopyRows(r, 2, 3)); }},
    {"push_back", [](Env& e, int t, uint64_t *r) { e.vec[t]->push_back(LCell(11)); *r = Env::digest(*e.vec[t]); }},
    {"push_back until it grows", [](Env& e, int t, uint64_t *r) { for (int i = 0; i < 3; ++i) e.vec[t]->push_back(LCell(11 + i)); *r = Env::digest(*e.vec[t]) + e.vec[t]->capacity(); }},
    {"pop_back", [](Env& e, int t, uint64_t *r) { e.vec[t]->pop_back(); *r = Env::digest(*e.vec[t]); }},
    {"vector resize/reserve/clear", [](Env& e, int t, uint64_t *r) { e.vec[t]->resize(1); e.vec[t]->reserve(6); *r = Env::digest(*e.vec[t]) + e.vec[t]->capacity(); e.vec[t]->clear(); }},
    {"vector set/get", [](Env& e, int t, uint64_t *r) { e.vec[t]->set(1, LCell(12)); *r = e.vec[t]->get(1).hash(); }},
    {"vector create", [](Env& e, int t, uint64_t *r) { Vector v(3, LCell(4)); *r = Env::digest(v); }},
    {"array append and remove", [](Env& e, int t, uint64_t *r) { *e.arr[t] << LCell(13) << LCell(14); e.arr[t]->pop_back(); *r = Env::digest(*e.arr[t]); }},
    {"array copies", [](Env& e, int t, uint64_t *r) { Array a(*e.small[t]); *e.arr[t] = a; *r = Env::digest(*e.arr[t]); }},
    {"array swap", [](Env& e, int t, uint64_t *r) { Array a(2, LCell(15)); swap(a, *e.arr[t]); *r = Env::digest(a) + 3 * Env::digest(*e.arr[t]); }},
    {"array load", [](Env& e, int t, uint64_t *r) { e.arr[t]->load((*e.small[t])[0], 2); e.arr[t]->load((*e.small[t])[1], 1, 0); *r = Env::digest(*e.arr[t]); }},
    {"array refused", [](Env& e, int t, uint64_t *r) { *r = 0; try { for (int i = 0; i < 5; ++i) e.small[t]->push_back(LCell(16)); } catch (const std::out_of_range&) { *r = 1; } }},
    {"allocate", [](Env& e, int t, uint64_t *r) { aligned_allocator<double, 64> a; double *p = a.allocate(4); p[0] = 3; p[3] = 4; *r = uint64_t(p[0] + p[3]) + reinterpret_cast<std::size_t>(p) % 64; a.deallocate(p, 4); }},
    {"vector arithmetic", [](Env& e, int t, uint64_t *r) { alignas(64) double d[8] = {1, 2, 3, 4, 5, 6, 7, 8}; short_vec<double, 8> a(d), b(t + 2.0); a += b * a / sqrt(b); int o[8] = {7, 6, 5, 4, 3, 2, 1, 0}; a.scatter(d, o); b.gather(d, o); a.blend(a < b, b); a.store(d); *r = uint64_t(d[0] * 1000 + d[7]); }},
    {"vector arithmetic (float, int)", [](Env& e, int t, uint64_t *r) { alignas(64) float d[16]; alignas(64) int o[16]; for (int i = 0; i < 16; ++i) { d[i] = i + t + 1; o[i] = 15 - i; } short_vec<float, 16> a, b; a.load(d); b.gather(d, o); a = sqrt(a * b); a -= b / a; a.store(d); short_vec<int, 16> x, y(3); x.load(o); x *= y; x = x / y; x.store(o); *r = uint64_t(d[0] * 1000 + 100000) + o[15] + a.any(); }},
    {"loop peeling", [](Env& e, int t, uint64_t *r) { typedef short_vec<double, 4> V; uint64_t s = 0; long x = 3; LIBFLATARRAY_LOOP_PEELER(V, long, x, 17, peel, &s); long y = 5; loop_peeler<V>(&y, 19L, [&](auto v, long *c, long end) { typedef decltype(v) S; for (; *c < end; *c += S::ARITY) s += S::ARITY * *c; }); *r = s; }},
    {"member offsets", [](Env& e, int t, uint64_t *r) { *r = member_ptr_to_offset()(&Cell::m) + 100 * member_ptr_to_offset()(&Cell::k); }},
};

template<int N> static int count(const Op (&)[N]) { return N; }

static uint64_t ACCESSES = 0, SCHEDULES = 0, CONFLICTS = 0;

struct Threads : public rt::Scenario
{
    int n;
    const Op *op[rt::MAX_THREADS];
    Env *env;
    uint64_t expected[rt::MAX_THREADS], final_state;

    Threads() : n(0), env(0) {}

    int threads() override { return n; }
    void setup() override { env = new Env; }
    void thread(int i) override { op[i]->f(*env, i, &env->result[i]); }
    void check() override
    {
        for (int i = 0; i < n; ++i) {
            MC_CHECK(env->result[i] == expected[i], "thread %d (%s) got other results than alone; %s", i, op[i]->name, rt::schedule());
        }
        MC_CHECK(env->digest() == final_state, "the final state differs from the one after a sequential execution; %s", rt::schedule());
        // the explored state: how far each thread was when it was preempted
        uint64_t h = 1469598103934665603ull;
        const std::string key = mc::case_string() + rt::schedule();
        for (const char *c = key.c_str(); *c; ++c) h = (h ^ (unsigned char)*c) * 1099511628211ull;
        mc::state(h);
        if (h % 509 == 3) mc::sample(std::string(mc::g().note) + ": " + rt::schedule());
        mc::g().transitions += n;
        ++mc::g().traces;
    }
    void teardown() override { delete env; env = 0; }

    void explore(int bound)
    {
        // what each operation does alone
        for (int i = 0; i < n; ++i) {
            Env alone;
            op[i]->f(alone, i, &alone.result[i]);
            expected[i] = alone.result[i];
        }
        {
            Env sequential;
            for (int i = 0; i < n; ++i) op[i]->f(sequential, i, &sequential.result[i]);
            final_state = sequential.digest();
        }
        char *note = mc::g().note;
        std::snprintf(note, sizeof(mc::g().note), "threads: %s | %s%s%s", op[0]->name, op[1]->name, n > 2 ? " | " : "", n > 2 ? op[2]->name : "");
        rt::Stats st;
        rt::explore(*this, bound, 20000000, &st);
        if (st.conflicts && bound < 2) {
            // the threads synchronise: more interleavings matter
            rt::explore(*this, 2, 2000000, &st);
        }
        ACCESSES += st.accesses;
        SCHEDULES += st.schedules;
        CONFLICTS += st.conflicts;
        mc::count_label("nontrivial");
    }
};

static void report(const char *text) { mc::fail("%s; %s", text, rt::schedule()); }

static void pairs(const char *label, const Op *a, int na, const Op *b, int nb, bool symmetric, int bound, long& serial)
{
    for (int i = 0; i < na; ++i) {
        for (int j = symmetric ? i : 0; j < nb; ++j) {
            if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
            if (!mc::begin(label, {i, j})) continue;
            Threads t;
            t.n = 2;
            t.op[0] = a + i;
            t.op[1] = b + j;
            t.explore(bound);
        }
    }
}

static void triples(const char *label, const Op *a, int n, int bound, long& serial, int step)
{
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) for (int k = j; k < n; ++k) {
        if ((i + 3 * j + 7 * k) % step) continue;
        if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
        if (!mc::begin(label, {i, j, k})) continue;
        Threads t;
        t.n = 3;
        t.op[0] = a + i;
        t.op[1] = a + j;
        t.op[2] = a + k;
        t.explore(bound);
    }
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    rt::report = report;
    long serial = 0;
    int nr = count(READ), nw = count(WRITE), no = count(OWN);
    bool th = mc::g().thorough;
    pairs("readers", READ, nr, READ, nr, true, 1, serial);
    pairs("disjoint_writers", WRITE, nw, WRITE, nw, false, 1, serial);
    pairs("separate_containers", OWN, no, OWN, no, true, 1, serial);
    pairs("reader_and_own", READ, nr, OWN, no, false, 1, serial);
    if (th) {
        triples("three_readers", READ, nr, 1, serial, 1);
        triples("three_writers", WRITE, nw, 1, serial, 1);
        triples("three_separate", OWN, no, 0, serial, 1);
        pairs("readers_2", READ, nr, READ, nr, true, 2, serial);
        pairs("disjoint_writers_2", WRITE, nw, WRITE, nw, false, 2, serial);
    } else {
        triples("three_readers", READ, nr, 0, serial, 1);
        triples("three_writers", WRITE, nw, 0, serial, 1);
    }
    mc::count_label("schedules", SCHEDULES);
    mc::count_label("memory_accesses", ACCESSES);
    mc::count_label("synchronised_conflicts", CONFLICTS);
    mc::finish();
    return 0;
}
