// P03: accessors keep designating their cell while other operations on the
// same or other containers run inside the callback; with THROWING (P08):
// exceptions thrown by functors reach the caller and change nothing else.
#include "cells.hpp"
#include <list>
#include <memory>
#include <string>

using namespace LibFlatArray;

MIX_BODY(NestS, class API { public: LIBFLATARRAY_CUSTOM_SIZES((3)(4)(7), (2)(3), (1)(2)) };);
MIX_REGISTER(NestS)
MIX_BODY(NestA, class API : public api_traits::has_asymmetric_dual_callback { public: LIBFLATARRAY_CUSTOM_SIZES((3)(4)(7), (2)(3), (1)(2)) };);
MIX_REGISTER(NestA)
MIX_BODY(NestV, class API { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((3)(5)(8)) };);
MIX_REGISTER(NestV)
MIX_BODY(NestO, class API { public: LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((2)(4)(9)) };);
MIX_REGISTER(NestO)

enum { DX = 3, DY = 2, DZ = 1, CELLS = 6, AGG = sizeof(double) + sizeof(int) + 3 + sizeof(float) + 4 + 1 };

template<typename CELL>
struct Env
{
    soa_grid<CELL> g, h;
    soa_grid<NestO> o;
    soa_vector<NestV> v;
    int mg[CELLS], mh[CELLS], next;
    Env() : g(DX, DY, DZ), h(DX, DY, DZ), o(2, 2, 1), v(4), next(40)
    {
        for (int i = 0; i < CELLS; ++i) {
            g.set(i % DX, i / DX, 0, CELL::make(mg[i] = 1 + i));
            h.set(i % DX, i / DX, 0, CELL::make(mh[i] = 20 + i));
        }
        for (int i = 0; i < 4; ++i) {
            o.set(i % 2, i / 2, 0, NestO::make(60 + i));
            v.set(i, NestV::make(70 + i));
        }
    }
    void check(const char *when)
    {
        const soa_grid<CELL>& cg = g;
        for (int i = 0; i < CELLS; ++i) {
            MC_CHECK(cg.get(i % DX, i / DX, 0).is(mg[i]), "%s: cell %d of the grid is %s, expected token %d", when, i, cg.get(i % DX, i / DX, 0).str().c_str(), mg[i]);
            MC_CHECK(h.get(i % DX, i / DX, 0).is(mh[i]), "%s: cell %d of the other grid isn't token %d", when, i, mh[i]);
        }
        for (int i = 0; i < 4; ++i) {
            MC_CHECK(o.get(i % 2, i / 2, 0).is(60 + i), "%s: a grid of another type changed", when);
            MC_CHECK(v.get(i).is(70 + i), "%s: a vector changed", when);
        }
    }
};

// moves its accessor through all cells; writes the cell (unless negative)
template<typename CELL>
struct Walk
{
    int cell, token;
    const int *want;
    template<long X, long Y, long Z, long I>
    void operator()(soa_accessor<CELL, X, Y, Z, I>& a)
    {
        read(a);
        if (cell < 0) return;
        a.index() = soa_accessor<CELL, X, Y, Z, I>::gen_index(long(cell % DX), long(cell / DX), 0L);
        a << CELL::make(token);
    }
    template<long X, long Y, long Z, long I>
    void operator()(const_soa_accessor<CELL, X, Y, Z, I>& a) { read(a); }
    template<typename A>
    void read(A& a)
    {
        for (int i = CELLS - 1; i >= 0; --i) {
            a.index() = A::gen_index(long(i % DX), long(i / DX), 0L);
            CELL c;
            a >> c;
            MC_CHECK(c.is(want[i]), "nested callback sees %s in cell %d, expected token %d", c.str().c_str(), i, want[i]);
        }
    }
};

// copies one cell from the first to the second grid
template<typename CELL>
struct CopyOne
{
    int from, to;
    template<typename A, typename B>
    void operator()(A& a, B& b) const
    {
        a.index() = A::gen_index(long(from % DX), long(from / DX), 0L);
        b.index() = B::gen_index(long(to % DX), long(to / DX), 0L);
        CELL c;
        a >> c;
        b << c;
    }
};

struct WalkVec
{
    template<typename A> void operator()(A& a)
    {
        for (int i = 0; i < 4; ++i) {
            a.index() = A::gen_index(long(i), long(0), 0L);
            NestV c;
            a >> c;
            MC_CHECK(c.is(70 + i), "vector callback within a grid's callback is wrong");
        }
    }
};

struct WalkOther
{
    template<typename A> void operator()(A& a)
    {
        for (int i = 0; i < 4; ++i) {
            a.index() = A::gen_index(long(i % 2), long(i / 2), 0L);
            NestO c;
            a >> c;
            MC_CHECK(c.is(60 + i), "callback of a grid of another type within a grid's callback is wrong");
        }
    }
};

enum { INNER = 21 };

template<typename CELL>
static void inner(Env<CELL>& e, int op, int cell)
{
    const int x = cell % DX, y = cell / DX;
    const soa_grid<CELL>& cg = e.g;
    const int n = DX - x;
    switch (op) {
    case 0: MC_CHECK(cg.get(x, y, 0).is(e.mg[cell]), "get() within a callback is wrong"); break;
    case 1: e.g.set(x, y, 0, CELL::make(e.mg[cell] = e.next++)); break;
    case 2: {
        std::vector<CELL> row(n);
        cg.get(x, y, 0, row.data(), n);
        for (int i = 0; i < n; ++i) MC_CHECK(row[i].is(e.mg[cell + i]), "reading a row within a callback is wrong");
        break;
    }
    case 3: {
        std::vector<CELL> row;
        for (int i = 0; i < n; ++i) row.push_back(CELL::make(e.mg[cell + i] = e.next++));
        e.g.set(x, y, 0, row.data(), n);
        break;
    }
    case 4:
        for (int i = 0; i < n; ++i) e.mg[cell + i] = e.next;
        e.g.broadcast(x, y, 0, CELL::make(e.next++), n);
        break;
    case 5: {
        std::vector<char> buf(n * AGG);
        cg.save(x, y, 0, buf.data(), n);
        e.h.load(x, y, 0, buf.data(), n);
        for (int i = 0; i < n; ++i) e.mh[cell + i] = e.mg[cell + i];
        break;
    }
    case 6: {
        std::vector<char> buf(n * AGG);
        e.h.save(x, y, 0, buf.data(), n);
        e.g.load(x, y, 0, buf.data(), n);
        for (int i = 0; i < n; ++i) e.mg[cell + i] = e.mh[cell + i];
        break;
    }
    case 7: { Walk<CELL> w = {cell, e.next, e.mg}; e.g.callback(w); e.mg[cell] = e.next++; break; }
    case 8: { Walk<CELL> w = {-1, 0, e.mg}; cg.callback(w); break; }
    case 9: { Walk<CELL> w = {cell, e.next, e.mh}; e.h.callback(w); e.mh[cell] = e.next++; break; }
    case 10: { CopyOne<CELL> c = {cell, CELLS - 1 - cell}; e.g.callback(&e.h, c); e.mh[CELLS - 1 - cell] = e.mg[cell]; break; }
    case 11: { CopyOne<CELL> c = {cell, CELLS - 1 - cell}; e.h.callback(&e.g, c); e.mg[CELLS - 1 - cell] = e.mh[cell]; break; }
    case 12: { CopyOne<CELL> c = {cell, (cell + 1) % CELLS}; cg.callback(&e.g, c); e.mg[(cell + 1) % CELLS] = e.mg[cell]; break; }
    case 13: e.v.callback(WalkVec()); break;
    case 14: e.o.callback(WalkOther()); break;
    case 15: e.h = cg; std::copy(e.mg, e.mg + CELLS, e.mh); break;
    case 16: {
        soa_grid<CELL> t(cg);
        t.set(x, y, 0, CELL::make(e.next++));
        MC_CHECK(t.get(CELLS - 1 - cell == cell ? 0 : (CELLS - 1 - cell) % DX, (CELLS - 1 - cell) / DX, 0).is(e.mg[CELLS - 1 - cell]), "copy made within a callback is wrong");
        break;
    }
    case 17: { soa_grid<CELL> t(7, 3, 2); t.set(6, 2, 1, CELL::make(e.next++)); t.resize(x + 1, y + 1, 1); break; }
    case 18: { soa_grid<CELL> t(4, 3, 1); t.swap(e.h); t.swap(e.h); break; }
    case 19: { soa_vector<NestV> w(e.v); w.push_back(NestV::make(e.next++)); w.resize(8); MC_CHECK(w.get(3).is(73), "copy of a vector is wrong"); break; }
    case 20: { soa_array<CELL, 5> a; a << CELL::make(e.next++); a << cg.get(x, y, 0); CELL c; a[1] >> c; MC_CHECK(c.is(e.mg[cell]), "array within a callback is wrong"); break; }
    }
}

#ifndef THROWING
template<typename CELL>
struct Outer
{
    Env<CELL> *e;
    int cell;
    std::vector<std::pair<int, int> > ops; // operation, cell
    int *runs;

    template<typename A>
    void go(A& a, const int *tokens, const int *seen) const
    {
        ++*runs;
        a.index() = A::gen_index(long(cell % DX), long(cell / DX), 0L);
        const long index = a.index();
        const void *d = &a.d(), *u = &a.u(), *data = a.data();
        for (auto& op : ops) {
            inner(*e, op.first, op.second);
            MC_CHECK(a.index() == index && a.data() == data && &a.d() == d && &a.u() == u, "an accessor moved while operation %d ran in its callback", op.first);
            CELL c;
            a >> c;
            MC_CHECK(c.is(seen[cell]), "after operation %d on cell %d the accessor of cell %d reads %s, expected token %d", op.first, op.second, cell, c.str().c_str(), seen[cell]);
        }
        mc::step(ops.size());
    }
    template<typename A> void operator()(A& a) const { go(a, e->mg, e->mg); }
    template<typename A, typename B> void operator()(A& a, B& b) const
    {
        b.index() = B::gen_index(long(1), long(1), 0L);
        const void *p = &b.i();
        go(a, e->mg, e->mg);
        MC_CHECK(&b.i() == p, "the second accessor moved");
        CELL c;
        b >> c;
        MC_CHECK(c.is(e->mh[DX + 1]), "the second accessor reads %s, expected token %d", c.str().c_str(), e->mh[DX + 1]);
        b << (c = CELL::make(e->mh[DX + 1] = e->next++));
    }
};

template<typename CELL>
static void nested(const char *label, int depth)
{
    long k = 0;
    for (long mode = 0; mode < 4; ++mode) for (long cell = 0; cell < CELLS; ++cell) {
        long all = 1;
        for (int i = 0; i < depth; ++i) all *= INNER * CELLS;
        for (long code = 0; code < all; ++code) {
            long c = code;
            std::vector<std::pair<int, int> > ops;
            for (int i = 0; i < depth; ++i, c /= INNER * CELLS) {
                ops.push_back(std::make_pair(int(c % INNER), int(c / INNER % CELLS)));
            }
            if (!mc::g().replay && k++ % mc::g().shards != mc::g().shard) continue;
            if (!mc::begin(label, {mode, cell, code})) continue;
            Env<CELL> e;
            int runs = 0;
            Outer<CELL> f = {&e, int(cell), ops, &runs};
            const soa_grid<CELL>& cg = e.g;
            switch (mode) {
            case 0: e.g.callback(f); break;
            case 1: cg.callback(f); break;
            case 2: e.g.callback(&e.h, f); break;
            case 3: cg.callback(&e.h, f); break;
            }
            MC_CHECK(runs == 1, "the functor ran %d times", runs);
            e.check("after nested operations");
            mc::state(mc::mix(mc::mix(mode, cell), mc::mix(code, label[0])));
            mc::count_label("nontrivial");
        }
    }
}

// callbacks within callbacks within callbacks, all with functors of one type,
// over containers of one type, with every kind of size list
MIX_BODY(NestD, ); // built-in sizes
MIX_REGISTER(NestD)
MIX_BODY(NestU, class API { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((2)(4)(9)) };);
MIX_REGISTER(NestU)

// the same operations on grids and vectors
template<typename CELL>
struct GridForest
{
    typedef soa_grid<CELL> C;
    enum { MODES = 3 };
    static C *make(const int *d) { return new C(d[0], d[1], d[2]); }
    static void set(C& c, int x, int y, int z, const CELL& v) { c.set(x, y, z, v); }
    static CELL get(const C& c, int x, int y, int z) { return c.get(x, y, z); }
    template<typename F> static void call(C& c, C& partner, int mode, const F& f)
    {
        const C& cc = c;
        if (mode == 0) c.callback(f);
        if (mode == 1) cc.callback(f);
        if (mode == 2) c.callback(&partner, f);
    }
};
template<typename CELL>
struct VecForest
{
    typedef soa_vector<CELL> C;
    enum { MODES = 2 };
    static C *make(const int *d) { return new C(d[0]); }
    static void set(C& c, int x, int, int, const CELL& v) { c.set(x, v); }
    static CELL get(const C& c, int x, int, int) { return c.get(x); }
    template<typename F> static void call(C& c, C&, int mode, const F& f)
    {
        const C& cc = c;
        if (mode == 0) c.callback(f);
        else cc.callback(f);
    }
};

template<typename CELL, typename OPS>
struct Forest
{
    typedef typename OPS::C C;
    struct Step { int who, mode, at; };
    int dim[3][3]; // 0 and 1 are of the same shape
    std::unique_ptr<C> c[3];
    std::vector<int> tok[3];
    std::vector<Step> plan;
    int next, runs;

    Forest(const int (*d)[3]) : next(1), runs(0)
    {
        for (int k = 0; k < 3; ++k) {
            std::copy(d[k], d[k] + 3, dim[k]);
            c[k].reset(OPS::make(dim[k]));
            for (int i = 0; i < cells(k); ++i) {
                tok[k].push_back(next);
                OPS::set(*c[k], x(k, i), y(k, i), z(k, i), CELL::make(next++));
            }
        }
    }
    int cells(int k) const { return dim[k][0] * dim[k][1] * dim[k][2]; }
    int x(int k, int i) const { return i % dim[k][0]; }
    int y(int k, int i) const { return i / dim[k][0] % dim[k][1]; }
    int z(int k, int i) const { return i / dim[k][0] / dim[k][1]; }

    struct Walker
    {
        Forest *f;
        int level;
        template<typename A> static void go(A& a, const Forest& f, int k, int i) { a.index() = A::gen_index(long(f.x(k, i)), long(f.y(k, i)), long(f.z(k, i))); }
        template<typename A> void operator()(A& a) const
        {
            ++f->runs;
            const Step s = f->plan[level];
            MC_CHECK(a.index() == 0, "an accessor starts at %ld", a.index());
            for (int i = 0; i < f->cells(s.who); ++i) {
                go(a, *f, s.who, i);
                if (i == s.at) f->call(level + 1);
                CELL v;
                a >> v;
                MC_CHECK(v.is(f->tok[s.who][i]), "level %d reads %s from cell %d of container %d, expected token %d", level, v.str().c_str(), i, s.who, f->tok[s.who][i]);
                if (s.mode == 0 && i % 2 == level % 2) a << CELL::make(f->tok[s.who][i] = f->next++);
            }
        }
        template<typename A, typename B> void operator()(A& a, B& b) const
        {
            ++f->runs;
            const Step s = f->plan[level];
            const int p = partner(s.who);
            MC_CHECK(a.index() == 0 && b.index() == 0, "accessors start at %ld, %ld", a.index(), b.index());
            for (int i = 0; i < f->cells(s.who); ++i) {
                const int j = f->cells(p) - 1 - i;
                go(a, *f, s.who, i);
                go(b, *f, p, j);
                if (i == s.at) f->call(level + 1);
                CELL v, w;
                a >> v;
                b >> w;
                MC_CHECK(v.is(f->tok[s.who][i]), "level %d reads %s from cell %d of container %d, expected token %d", level, v.str().c_str(), i, s.who, f->tok[s.who][i]);
                MC_CHECK(w.is(f->tok[p][j]), "level %d reads %s from cell %d of the second container %d, expected token %d", level, w.str().c_str(), j, p, f->tok[p][j]);
                if (i % 2 == level % 2) b << CELL::make(f->tok[p][j] = f->next++);
            }
        }
    };
    static int partner(int k) { return k == 2 ? 2 : 1 - k; }
    void call(int level)
    {
        if (level >= int(plan.size())) return;
        Walker w = {this, level};
        OPS::call(*c[plan[level].who], *c[partner(plan[level].who)], plan[level].mode, w);
    }
};

template<typename CELL, typename OPS>
static void forest(const char *label, int depth, const int (*dims)[3])
{
    typedef Forest<CELL, OPS> F;
    long serial = 0;
    std::vector<typename F::Step> steps;
    for (int who = 0; who < 3; ++who) for (int mode = 0; mode < OPS::MODES; ++mode) for (int at = 0; at < 3; ++at) {
        int n = dims[who][0] * dims[who][1] * dims[who][2];
        steps.push_back(typename F::Step{who, mode, at == 0 ? 0 : at == 1 ? n / 2 : n - 1});
    }
    long all = 1;
    for (int n = 1; n <= depth; ++n) {
        all *= steps.size();
        for (long code = 0; code < all; ++code) {
            if (!mc::g().replay && serial++ % mc::g().shards != mc::g().shard) continue;
            if (!mc::begin(label, {n, code})) continue;
            F f(dims);
            long q = code;
            for (int i = 0; i < n; ++i, q /= steps.size()) f.plan.push_back(steps[q % steps.size()]);
            f.call(0);
            MC_CHECK(f.runs == n, "%d functors ran, expected %d", f.runs, n);
            for (int k = 0; k < 3; ++k) for (int i = 0; i < f.cells(k); ++i) {
                CELL v = OPS::get(*f.c[k], f.x(k, i), f.y(k, i), f.z(k, i));
                MC_CHECK(v.is(f.tok[k][i]), "cell %d of container %d is %s, expected token %d", i, k, v.str().c_str(), f.tok[k][i]);
            }
            mc::step(n);
            mc::state(mc::mix(mc::mix(n, code), mc::mix(label[0], label[7])));
            mc::count_label("nontrivial");
        }
    }
}

static void forests()
{
    static const int rows[3][3] = {{3, 1, 1}, {3, 1, 1}, {5, 1, 1}};
    static const int planes[3][3] = {{2, 2, 1}, {2, 2, 1}, {3, 1, 1}};
    static const int boxes[3][3] = {{2, 1, 2}, {2, 1, 2}, {3, 2, 1}};
    forest<NestV, VecForest<NestV> >("vectors_in_callbacks", 3, rows);
    forest<NestV, GridForest<NestV> >("rows_in_callbacks", 3, rows);
    forest<NestO, GridForest<NestO> >("planes_in_callbacks", 3, planes);
    forest<NestU, GridForest<NestU> >("boxes_in_callbacks", 3, boxes);
    forest<NestS, GridForest<NestS> >("per_axis_in_callbacks", 3, boxes);
    forest<NestA, GridForest<NestA> >("asymmetric_in_callbacks", 3, boxes);
    forest<NestD, GridForest<NestD> >("built_in_rows_in_callbacks", 2, rows);
    forest<NestD, GridForest<NestD> >("built_in_planes_in_callbacks", 2, planes);
}
#endif

#ifdef THROWING
struct Own { int code; };

static void raise_it(int kind)
{
    switch (kind) {
    case 0: throw 4711;
    case 1: throw Own{42};
    case 2: throw std::runtime_error("mine");
    case 3: throw std::invalid_argument("mine");
    case 4: throw std::out_of_range("mine");
    case 5: throw std::bad_alloc();
    case 6: throw std::string("mine");
    }
}
enum { KINDS = 7 };

template<typename F>
static int caught(F f)
{
    try {
        f();
    } catch (int i) {
        return i == 4711 ? 0 : -2;
    } catch (const Own& o) {
        return o.code == 42 ? 1 : -2;
    } catch (const std::invalid_argument& e) {
        return e.what() == std::string("mine") ? 3 : -2;
    } catch (const std::out_of_range& e) {
        return e.what() == std::string("mine") ? 4 : -2;
    } catch (const std::runtime_error& e) {
        return e.what() == std::string("mine") ? 2 : -2;
    } catch (const std::bad_alloc&) {
        return 5;
    } catch (const std::string& s) {
        return s == "mine" ? 6 : -2;
    } catch (...) {
        return -3;
    }
    return -1;
}

// writes some cells (of the first or the second grid), then throws
template<typename CELL>
struct Thrower
{
    Env<CELL> *e;
    int *runs;
    int kind, writes;
    template<typename A> void put(A& a, int *tokens) const
    {
        for (int i = 0; i < writes; ++i) {
            a.index() = A::gen_index(long(i % DX), long(i / DX), 0L);
            a << CELL::make(tokens[i] = e->next++);
        }
    }
    template<long X, long Y, long Z, long I> void operator()(soa_accessor<CELL, X, Y, Z, I>& a) const { ++*runs; put(a, e->mg); raise_it(kind); }
    template<long X, long Y, long Z, long I> void operator()(const_soa_accessor<CELL, X, Y, Z, I>& a) const { ++*runs; raise_it(kind); }
    template<typename A, typename B> void operator()(A& a, B& b) const { ++*runs; put(b, e->mh); raise_it(kind); }
};

struct ThrowerVec
{
    int *runs;
    int kind;
    template<typename A> void operator()(A& a) const { ++*runs; raise_it(kind); }
};

// the exception passes through an outer callback
template<typename CELL>
struct Through
{
    Thrower<CELL> inner;
    int how;
    template<typename A> void operator()(A& a) const
    {
        const soa_grid<CELL>& cg = inner.e->g;
        if (how == 0) inner.e->g.callback(inner);
        else if (how == 1) cg.callback(inner);
        else cg.callback(&inner.e->h, inner);
    }
    template<typename A, typename B> void operator()(A& a, B& b) const { (*this)(a); }
};

template<typename CELL>
static void throwing(const char *label)
{
    long k = 0;
    for (long mode = 0; mode < 16; ++mode) for (long kind = 0; kind < KINDS; ++kind) for (long writes = 0; writes <= CELLS; ++writes) for (long op = 0; op < INNER; ++op) {
        if (!mc::g().replay && k++ % mc::g().shards != mc::g().shard) continue;
        if (!mc::begin(label, {mode, kind, writes, op})) continue;
        Env<CELL> e;
        int runs = 0;
        Thrower<CELL> f = {&e, &runs, int(kind), int(writes)};
        ThrowerVec fv = {&runs, int(kind)};
        const soa_grid<CELL>& cg = e.g;
        const soa_vector<NestV>& cv = e.v;
        int got = caught([&]() {
            switch (mode) {
            case 0: e.g.callback(f); break;
            case 1: cg.callback(f); break;
            case 2: e.g.callback(&e.h, f); break;
            case 3: cg.callback(&e.h, f); break;
            case 4: e.v.callback(fv); break;
            case 5: cv.callback(fv); break;
            case 6: e.o.callback(fv); break;
            default: {
                Through<CELL> t = {f, int(mode - 7) % 3};
                if (mode < 10) e.g.callback(t);
                else if (mode < 13) cg.callback(t);
                else e.g.callback(&e.h, t);
            }
            }
        });
        MC_CHECK(runs == 1, "the functor ran %d times", runs);
        MC_CHECK(got == kind, "the functor's exception (%ld) %s", kind, got == -1 ? "did not reach the caller" : "was replaced by another one");
        e.check("after a functor's exception");
        // everything can still be used
        for (int cell : {0, 4}) inner(e, int(op), cell);
        e.check("using the containers after a functor's exception");
        e.g.resize(1, 1, 1);
        MC_CHECK(e.g.get(0, 0, 0).is_default(), "the grid can't be resized after a functor's exception");
        mc::step();
        mc::state(mc::mix(mc::mix(mode, kind), mc::mix(writes, op)));
        mc::count_label("nontrivial");
    }
}
#endif

int main(int argc, char **argv)
{
    mc::init(argc, argv);
#ifdef THROWING
    throwing<NestS>("functor_throws");
    throwing<NestA>("asymmetric_functor_throws");
    mc::sample("const callback of a grid within its own callback throws an int after the outer functor wrote 3 cells");
#else
    nested<NestS>("nested", 1);
    nested<NestA>("asymmetric_nested", 1);
    nested<NestS>("nested_2", 2);
    nested<NestA>("asymmetric_nested_2", 2);
    forests();
    if (mc::thorough()) nested<NestS>("nested_3", 3);
    mc::sample("dual callback on (g, h), accessor at cell 4; inside: g.load(row), then h = g; the accessor still reads cell 4");
#endif
    return mc::finish();
}
