// Operation-sequence systems for soa_grid, soa_vector and soa_array: the real
// containers next to a trivial model (shape + one token per cell).
//
// Tokens: >= 0 cell written with CELL::make(token), -1 default cell,
//         -2 unspecified (readable, any value)
//
// With FAULTS every operation exists in variants in which the k-th allocation
// made by the library during that operation fails; a variant whose fault is
// not reached is a disabled operation.
#ifndef VERIF_CONTAINERS_HPP
#define VERIF_CONTAINERS_HPP

#include "cells.hpp"
#include <memory>

using namespace LibFlatArray;

enum { MAX_FAULT = 3 };

template<typename CELL>
bool token_ok(const CELL& c, int t)
{
    return t == -2 ? (c.str(), true) : t == -1 ? c.is_default() : c.is(t);
}

template<typename CELL>
std::string token_str(int t)
{
    return t == -2 ? "anything" : t == -1 ? "the default cell" : CELL::make(t).str();
}

// nothing of the library may be left over between two histories
inline void check_all_released(const char *when)
{
    std::size_t cells = Tracked::live().live;
    MC_CHECK(cells == 0, "%zu member objects were never destroyed (%s)", cells, when);
    std::size_t blocks = ledger::s().live.live;
    MC_CHECK(blocks == 0, "%zu memory blocks were never released (%s)", blocks, when);
}

enum Outcome { DONE, REFUSED_RANGE, REFUSED_ARG, NO_MEMORY, OTHER_EXCEPTION };

// run library code, optionally with the fault-th allocation failing
template<typename F>
Outcome guarded(int fault, F f)
{
    ledger::Track track;
    if (fault >= 0) ledger::arm(fault);
    Outcome r = DONE;
    try {
        f();
    } catch (const std::bad_alloc&) {
        r = NO_MEMORY;
    } catch (const std::out_of_range&) {
        r = REFUSED_RANGE;
    } catch (const std::invalid_argument&) {
        r = REFUSED_ARG;
    } catch (const std::exception&) {
        r = OTHER_EXCEPTION;
    }
    ledger::disarm();
    return r;
}

inline const char *outcome_name(Outcome o)
{
    static const char *n[] = {"completed", "out_of_range", "invalid_argument", "bad_alloc", "another exception"};
    return n[o];
}

// ------------------------------------------------------------------- grids
// CFG: cell_type, AGG, SLOTS, shapes(), extents(dx,dy,dz,e[3]) -> supported?
struct Shape { int x, y, z; };

struct NullDual
{
    int *runs;
    template<typename A1, typename A2>
    void operator()(A1&, A2&) const { ++*runs; }
};

template<typename CFG, bool FAULTS, bool REFUSALS>
struct GridSys
{
    typedef typename CFG::cell_type CELL;
    typedef soa_grid<CELL> Grid;
    enum Kind { CTOR, COPY_CTOR, ASSIGN, SWAP_MEMBER, SWAP_FREE, RESIZE, SET_LAST, FILL, DUAL };
    struct Op { Kind kind; int a, b; Shape s; int fault; };

    static const std::vector<Op>& ops()
    {
        static std::vector<Op> v;
        if (!v.empty()) return v;
        std::vector<Op> base;
        for (int a = 0; a < CFG::SLOTS; ++a) {
            for (Shape s : CFG::shapes()) {
                int e[3];
                bool ok = (s.x == 0 && s.y == 0 && s.z == 0) || CFG::extents(s.x, s.y, s.z, e);
                if (!ok && !REFUSALS) continue;
                base.push_back(Op{RESIZE, a, 0, s, -1});
                if (a == 0) base.push_back(Op{CTOR, a, 0, s, -1});
            }
            base.push_back(Op{SET_LAST, a, 0, Shape(), -1});
            base.push_back(Op{FILL, a, 0, Shape(), -1});
            for (int b = 0; b < CFG::SLOTS; ++b) {
                base.push_back(Op{ASSIGN, a, b, Shape(), -1});
                base.push_back(Op{COPY_CTOR, a, b, Shape(), -1});
                if (a <= b) {
                    base.push_back(Op{SWAP_MEMBER, a, b, Shape(), -1});
                    if (a != b) base.push_back(Op{SWAP_FREE, b, a, Shape(), -1});
                }
                if (REFUSALS && a != b) base.push_back(Op{DUAL, a, b, Shape(), -1});
            }
        }
        for (auto o : base) {
            v.push_back(o);
            if (FAULTS && o.kind != SET_LAST && o.kind != FILL && o.kind != DUAL) {
                for (int k = 0; k < MAX_FAULT; ++k) {
                    Op f = o;
                    f.fault = k;
                    v.push_back(f);
                }
            }
        }
        return v;
    }
    static int nops(long) { return int(ops().size()); }
    static std::string opname(long, int i)
    {
        static const char *n[] = {"g%d=grid", "g%d=grid(copy of g%d)", "g%d=g%d", "g%d.swap(g%d)", "swap(g%d,g%d)", "g%d.resize", "g%d.set(last)", "g%d.fill", "g%d.callback(g%d)"};
        const Op& o = ops()[i];
        char buf[96];
        int l = std::snprintf(buf, sizeof(buf), n[o.kind], o.a, o.b);
        if (o.kind == CTOR || o.kind == RESIZE) l += std::snprintf(buf + l, sizeof(buf) - l, "(%d,%d,%d)", o.s.x, o.s.y, o.s.z);
        if (o.fault >= 0) std::snprintf(buf + l, sizeof(buf) - l, " with allocation #%d failing", o.fault);
        return buf;
    }

    struct Slot
    {
        std::unique_ptr<Grid> p;
        Shape d;
        std::vector<int> tok;
        bool backwards = false;
        bool empty() const { return d.x == 0 && d.y == 0 && d.z == 0; }
        void reset(Shape s, int t)
        {
            d = s;
            tok.assign(std::size_t(s.x) * s.y * s.z, t);
        }
    };
    Slot slots[CFG::SLOTS];
    int stamp;
    int lastop;
    int last() const { return lastop; }
    bool aborted; // model not kept up to date: only check the release

    explicit GridSys(long) : stamp(1), aborted(false)
    {
        ledger::Track track;
        for (auto& s : slots) {
            s.p.reset(new Grid());
            s.reset(Shape{0, 0, 0}, -1);
        }
    }

    static bool supported(Shape s)
    {
        int e[3];
        return (s.x == 0 && s.y == 0 && s.z == 0) || CFG::extents(s.x, s.y, s.z, e);
    }

    // the target of a failed resize/assignment is unchanged or empty
    void after_failure(Slot& s)
    {
        Grid& g = *s.p;
        if (g.dim_x() == 0 && g.dim_y() == 0 && g.dim_z() == 0) {
            s.reset(Shape{0, 0, 0}, -1);
        }
    }

    bool apply(int i)
    {
        const Op& o = ops()[i];
        lastop = o.kind * 8 + o.fault;
        Slot& a = slots[o.a];
        Slot& b = slots[o.b];
        int runs = 0;
        int t = stamp;
        std::unique_ptr<Grid> fresh;
        Outcome r = guarded(o.fault, [&]() {
            switch (o.kind) {
            case CTOR:
                fresh.reset(new Grid(o.s.x, o.s.y, o.s.z));
                break;
            case COPY_CTOR:
                fresh.reset(new Grid(static_cast<const Grid&>(*b.p)));
                break;
            case ASSIGN:
                *a.p = *b.p;
                break;
            case SWAP_MEMBER:
                a.p->swap(*b.p);
                break;
            case SWAP_FREE: {
                using std::swap;
                swap(*a.p, *b.p);
                break;
            }
            case RESIZE:
                a.p->resize(o.s.x, o.s.y, o.s.z);
                break;
            case SET_LAST:
                if (!a.tok.empty()) {
                    ledger::Track off(false);
                    a.p->set(a.d.x - 1, a.d.y - 1, a.d.z - 1, CELL::make(t));
                }
                break;
            case FILL: {
                ledger::Track off(false);
                for (int z = 0; z < a.d.z; ++z) {
                    for (int y = 0; y < a.d.y; ++y) {
                        for (int x = 0; x < a.d.x; ++x) {
                            a.p->set(x, y, z, CELL::make(t + (z * a.d.y + y) * a.d.x + x));
                        }
                    }
                }
                break;
            }
            case DUAL:
                if (!a.empty() && !b.empty()) {
                    NullDual f = {&runs};
                    a.p->callback(b.p.get(), f);
                }
                break;
            }
        });
        if (o.fault >= 0 && !ledger::s().fired) {
            aborted = true;
            return false; // operation makes fewer allocations
        }
        if (o.fault >= 0) {
            MC_CHECK(r == NO_MEMORY, "a failing allocation was not reported to the caller (operation %s)", outcome_name(r));
        } else {
            Outcome expected = DONE;
            if ((o.kind == CTOR || o.kind == RESIZE) && !supported(o.s)) expected = REFUSED_RANGE;
            if (o.kind == DUAL && !a.empty() && !b.empty() && !(a.d.x == b.d.x && a.d.y == b.d.y && a.d.z == b.d.z)) expected = REFUSED_ARG;
            MC_CHECK(r == expected, "%s: %s, expected: %s", opname(0, i).c_str(), outcome_name(r), outcome_name(expected));
            if (o.kind == DUAL) {
                MC_CHECK(runs == ((expected == DONE && !a.empty() && !b.empty()) ? 1 : 0), "functor of a two-grid callback was run %d times", runs);
            }
        }
        if (r == DONE) {
            switch (o.kind) {
            case CTOR:
                a.p.swap(fresh);
                a.reset(o.s, -1);
                break;
            case COPY_CTOR: {
                Slot m;
                m.reset(b.d, -1);
                m.tok = b.tok;
                compare_meta(*fresh, *b.p, "copy construction");
                a.p.swap(fresh);
                a.d = m.d;
                a.tok = m.tok;
                break;
            }
            case ASSIGN:
                compare_meta(*a.p, *b.p, "assignment");
                a.d = b.d;
                if (&a != &b) a.tok = b.tok;
                break;
            case SWAP_MEMBER:
            case SWAP_FREE:
                std::swap(a.d, b.d);
                if (&a != &b) a.tok.swap(b.tok);
                break;
            case RESIZE:
                if (!(a.d.x == o.s.x && a.d.y == o.s.y && a.d.z == o.s.z)) a.reset(o.s, -1);
                break;
            case SET_LAST:
                if (!a.tok.empty()) a.tok.back() = t;
                break;
            case FILL:
                for (std::size_t k = 0; k < a.tok.size(); ++k) a.tok[k] = t + int(k);
                break;
            case DUAL:
                break;
            }
        } else if (r == NO_MEMORY && (o.kind == ASSIGN || o.kind == RESIZE)) {
            after_failure(a);
        }
        stamp += 13;
        {
            ledger::Track track;
            fresh.reset();
        }
        for (int k = 0; k < CFG::SLOTS; ++k) check(slots[k], k);
        return true;
    }

    void compare_meta(Grid& x, Grid& y, const char *what)
    {
        MC_CHECK(x.extent_x() == y.extent_x() && x.extent_y() == y.extent_y() && x.extent_z() == y.extent_z(),
                 "extents differ after %s: %zu,%zu,%zu vs. %zu,%zu,%zu", what,
                 x.extent_x(), x.extent_y(), x.extent_z(), y.extent_x(), y.extent_y(), y.extent_z());
        MC_CHECK(x.byte_size() == y.byte_size(), "byte sizes differ after %s: %zu vs. %zu", what, x.byte_size(), y.byte_size());
        if (&x != &y && x.data()) {
            MC_CHECK(x.data() != y.data(), "grids share their storage after %s", what);
        }
    }

    void check(Slot& s, int k)
    {
        const Grid& g = *s.p;
        MC_CHECK(int(g.dim_x()) == s.d.x && int(g.dim_y()) == s.d.y && int(g.dim_z()) == s.d.z,
                 "grid g%d has shape (%zu,%zu,%zu), expected (%d,%d,%d)", k, g.dim_x(), g.dim_y(), g.dim_z(), s.d.x, s.d.y, s.d.z);
        if (s.empty()) return;
        int e[3] = {0, 0, 0};
        CFG::extents(s.d.x, s.d.y, s.d.z, e);
        MC_CHECK(int(g.extent_x()) == e[0] && int(g.extent_y()) == e[1] && int(g.extent_z()) == e[2],
                 "grid g%d has extents (%zu,%zu,%zu), expected (%d,%d,%d)", k, g.extent_x(), g.extent_y(), g.extent_z(), e[0], e[1], e[2]);
        MC_CHECK(g.byte_size() == std::size_t(CFG::AGG) * e[0] * e[1] * e[2], "grid g%d has byte size %zu, expected %zu", k, g.byte_size(), std::size_t(CFG::AGG) * e[0] * e[1] * e[2]);
        // every other time the cells are read in reverse, so that the first
        // cell read is the last one read before
        const std::size_t cells = s.tok.size();
        s.backwards = !s.backwards;
        {
            {
                for (std::size_t i = 0; i < cells; ++i) {
                    const std::size_t n = s.backwards ? cells - 1 - i : i;
                    const int x = int(n % s.d.x), y = int(n / s.d.x % s.d.y), z = int(n / s.d.x / s.d.y);
                    CELL c = g.get(x, y, z);
                    MC_CHECK(token_ok(c, s.tok[n]), "grid g%d cell (%d,%d,%d) is %s, expected %s", k, x, y, z, c.str().c_str(), token_str<CELL>(s.tok[n]).c_str());
                }
            }
        }
    }

    uint64_t hash()
    {
        // tokens are renamed in order of first occurrence: histories that
        // differ only in the values written are the same state
        std::unordered_map<int, int> ren;
        uint64_t h = 77;
        for (auto& s : slots) {
            h = mc::mix(h, s.d.x | (s.d.y << 8) | (s.d.z << 16));
            for (int t : s.tok) {
                if (t >= 0) t = ren.insert(std::make_pair(t, int(ren.size()))).first->second;
                h = mc::mix(h, uint64_t(t));
            }
        }
        return h;
    }

    void done()
    {
        // every container has to be fully usable still: write everything, read it back
        for (int k = 0; k < CFG::SLOTS && !aborted; ++k) {
            Slot& s = slots[k];
            std::size_t n = 0;
            for (int z = 0; z < s.d.z; ++z) {
                for (int y = 0; y < s.d.y; ++y) {
                    for (int x = 0; x < s.d.x; ++x, ++n) {
                        s.tok[n] = 900 + k * 40 + int(n);
                        s.p->set(x, y, z, CELL::make(s.tok[n]));
                    }
                }
            }
        }
        for (int k = 0; k < CFG::SLOTS && !aborted; ++k) check(slots[k], k);
        for (auto& s : slots) s.p.reset();
        check_all_released("after all grids were destroyed");
    }
};

// every pair of shapes (filled grids) x every operation between them, followed
// by a write and an assignment back: conditions on the relation of dimensions
// and padded extents of one or both grids
template<typename CFG, bool REFUSALS>
void shape_pairs(const char *label)
{
    typedef GridSys<CFG, false, REFUSALS> Sys;
    const auto& ops = Sys::ops();
    auto find = [&](typename Sys::Kind k, int a, int b, const Shape *s) {
        for (std::size_t i = 0; i < ops.size(); ++i) {
            if (ops[i].kind != k || ops[i].a != a) continue;
            if (s ? (ops[i].s.x == s->x && ops[i].s.y == s->y && ops[i].s.z == s->z) : ops[i].b == b) return int(i);
        }
        MC_CHECK(false, "no such operation");
        return -1;
    };
    std::vector<Shape> shapes;
    for (Shape s : CFG::shapes()) if (Sys::supported(s)) shapes.push_back(s);
    std::vector<int> resize[2], between;
    for (auto& s : shapes) for (int a = 0; a < 2; ++a) resize[a].push_back(find(Sys::RESIZE, a, 0, &s));
    between.push_back(find(Sys::ASSIGN, 0, 1, 0));
    between.push_back(find(Sys::COPY_CTOR, 0, 1, 0));
    between.push_back(find(Sys::SWAP_MEMBER, 0, 1, 0));
    between.push_back(find(Sys::SWAP_FREE, 1, 0, 0));
    int fill[2] = {find(Sys::FILL, 0, 0, 0), find(Sys::FILL, 1, 0, 0)};
    int back = find(Sys::ASSIGN, 1, 0, 0);
    long serial = 0;
    for (std::size_t i = 0; i < shapes.size(); ++i) {
        for (std::size_t j = 0; j < shapes.size(); ++j) {
            for (std::size_t k = 0; k <= between.size(); ++k) {
                if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
                if (!mc::begin(label, {long(i), long(j), long(k)})) continue;
                std::snprintf(mc::g().note, sizeof(mc::g().note), "g0 is (%d,%d,%d), g1 is (%d,%d,%d), then %s", shapes[i].x, shapes[i].y, shapes[i].z,
                              shapes[j].x, shapes[j].y, shapes[j].z, Sys::opname(0, k < between.size() ? between[k] : resize[0][j]).c_str());
                Sys sys(0);
                int steps[] = {resize[0][i], fill[0], resize[1][j], fill[1], k < between.size() ? between[k] : resize[0][j], fill[0], back};
                for (int o : steps) {
                    sys.apply(o);
                    mc::g().transitions++;
                    mc::state(mc::mix(sys.hash(), 4711));
                }
                sys.done();
                ++mc::g().traces;
            }
        }
    }
}

// ----------------------------------------------------------------- vectors
template<typename CELL>
struct SeeAll
{
    // reads every element through the callback's accessor
    std::vector<int> *tok;
    int *runs;
    template<long DX, long DY, long DZ, long I>
    void operator()(soa_accessor<CELL, DX, DY, DZ, I>& acc) const
    {
        ++*runs;
        for (; acc.index() < long(tok->size()); ++acc) {
            CELL c;
            acc >> c;
            int t = (*tok)[acc.index()];
            MC_CHECK(token_ok(c, t), "callback sees element %ld as %s, expected %s", long(acc.index()), c.str().c_str(), token_str<CELL>(t).c_str());
        }
    }
};

// CFG: cell_type, LARGEST, counts() (interesting sizes), SLOTS
template<typename CFG, bool FAULTS, bool REFUSALS>
struct VecSys
{
    typedef typename CFG::cell_type CELL;
    typedef soa_vector<CELL> Vec;
    enum Kind { CTOR_N, CTOR_NV, COPY_CTOR, ASSIGN, PUSH, EMPLACE, POP, CLEAR, RESIZE, RESERVE, SET, STDSWAP };
    struct Op { Kind kind; int a, b, n, fault; };

    static const std::vector<Op>& ops()
    {
        static std::vector<Op> v;
        if (!v.empty()) return v;
        std::vector<Op> base;
        for (int a = 0; a < CFG::SLOTS; ++a) {
            base.push_back(Op{PUSH, a, 0, 0, -1});
            if (!FAULTS) base.push_back(Op{EMPLACE, a, 0, 0, -1});
            base.push_back(Op{POP, a, 0, 0, -1});
            base.push_back(Op{CLEAR, a, 0, 0, -1});
            base.push_back(Op{SET, a, 0, 0, -1});
            base.push_back(Op{SET, a, 0, 1, -1});
            for (int n : CFG::counts()) {
                bool refused = n > CFG::LARGEST;
                if (refused && !REFUSALS) continue;
                base.push_back(Op{RESIZE, a, 0, n, -1});
                base.push_back(Op{RESERVE, a, 0, n, -1});
                if (a == 0) {
                    base.push_back(Op{CTOR_N, a, 0, n, -1});
                    base.push_back(Op{CTOR_NV, a, 0, n, -1});
                }
            }
            for (int b = 0; b < CFG::SLOTS; ++b) {
                base.push_back(Op{ASSIGN, a, b, 0, -1});
                base.push_back(Op{COPY_CTOR, a, b, 0, -1});
                if (a < b) base.push_back(Op{STDSWAP, a, b, 0, -1});
            }
        }
        for (auto o : base) {
            v.push_back(o);
            if (FAULTS && o.kind != POP && o.kind != CLEAR && o.kind != SET && o.kind != STDSWAP) {
                for (int k = 0; k < MAX_FAULT; ++k) {
                    Op f = o;
                    f.fault = k;
                    v.push_back(f);
                }
            }
        }
        return v;
    }
    static int nops(long) { return int(ops().size()); }
    static std::string opname(long, int i) { return describe(ops()[i]); }
    static std::string describe(const Op& o)
    {
        static const char *n[] = {"v%d=vector(n)", "v%d=vector(n,x)", "v%d=vector(copy of v%d)", "v%d=v%d", "v%d.push_back", "v%d.emplace_back", "v%d.pop_back", "v%d.clear", "v%d.resize", "v%d.reserve", "v%d.set", "swap(v%d,v%d)"};
        char buf[96];
        int l = std::snprintf(buf, sizeof(buf), n[o.kind], o.a, o.b);
        l += std::snprintf(buf + l, sizeof(buf) - l, " n=%d", o.n);
        if (o.fault >= 0) std::snprintf(buf + l, sizeof(buf) - l, " with allocation #%d failing", o.fault);
        return buf;
    }

    struct Slot { std::unique_ptr<Vec> p; std::vector<int> tok; std::size_t floor; bool backwards = false; };
    Slot slots[CFG::SLOTS];
    int stamp;
    int lastop;
    int last() const { return lastop; }
    bool aborted;

    explicit VecSys(long) : stamp(1), aborted(false)
    {
        ledger::Track track;
        for (auto& s : slots) { s.p.reset(new Vec()); s.floor = 0; }
    }

    bool apply(int i) { return perform(ops()[i]); }

    bool perform(const Op o)
    {
        lastop = o.kind * 8 + o.fault;
        Slot& a = slots[o.a];
        Slot& b = slots[o.b];
        int t = stamp;
        std::size_t n = a.tok.size();
        // preconditions of the sequence interface
        if ((o.kind == POP || o.kind == SET) && n == 0) return false;
        if (o.kind == SET && o.n == 1 && n == 1) return false;
        std::unique_ptr<Vec> fresh;
        CELL value = CELL::make(t);
        Outcome r = guarded(o.fault, [&]() {
            switch (o.kind) {
            case CTOR_N: fresh.reset(new Vec(o.n)); break;
            case CTOR_NV: fresh.reset(new Vec(o.n, value)); break;
            case COPY_CTOR: fresh.reset(new Vec(static_cast<const Vec&>(*b.p))); break;
            case ASSIGN: *a.p = *b.p; break;
            case PUSH: a.p->push_back(value); break;
            case EMPLACE: a.p->emplace_back(value); break;
            case POP: a.p->pop_back(); break;
            case CLEAR: a.p->clear(); break;
            case RESIZE: a.p->resize(o.n); break;
            case RESERVE: a.p->reserve(o.n); break;
            case SET: a.p->set(o.n ? n - 1 : 0, value); break;
            case STDSWAP: std::swap(*a.p, *b.p); break;
            }
        });
        if (o.fault >= 0 && !ledger::s().fired) {
            aborted = true;
            return false;
        }
        Outcome expected = DONE;
        if ((o.kind == CTOR_N || o.kind == CTOR_NV || o.kind == RESIZE || o.kind == RESERVE) && o.n > CFG::LARGEST) expected = REFUSED_RANGE;
        if ((o.kind == PUSH || o.kind == EMPLACE) && n >= std::size_t(CFG::LARGEST)) {
            if (!REFUSALS) {
                MC_CHECK(r == REFUSED_RANGE, "push beyond the largest registered size: %s", outcome_name(r));
                check_slots();
                return false;
            }
            expected = REFUSED_RANGE;
        }
        if (o.fault >= 0) expected = NO_MEMORY;
        MC_CHECK(r == expected, "%s: %s, expected: %s", describe(o).c_str(), outcome_name(r), outcome_name(expected));

        if (r == DONE) {
            switch (o.kind) {
            case CTOR_N:
                a.p.swap(fresh);
                a.tok.assign(o.n, -1);
                a.floor = 0;
                break;
            case CTOR_NV:
                a.p.swap(fresh);
                a.tok.assign(o.n, t);
                a.floor = 0;
                break;
            case COPY_CTOR: {
                std::vector<int> m = b.tok;
                a.p.swap(fresh);
                a.tok = m;
                a.floor = 0;
                break;
            }
            case ASSIGN: a.tok = std::vector<int>(b.tok); a.floor = 0; break;
            case PUSH: case EMPLACE: a.tok.push_back(t); break;
            case POP: a.tok.pop_back(); break;
            case CLEAR: a.tok.clear(); break;
            case RESIZE: a.tok.resize(o.n, -2); break;
            case RESERVE: a.floor = std::max<std::size_t>(a.floor, o.n); break;
            case SET: a.tok[o.n ? n - 1 : 0] = t; break;
            case STDSWAP: a.tok.swap(b.tok); a.floor = b.floor = 0; break;
            }
        } else if (r == NO_MEMORY && o.kind == ASSIGN && a.p->size() == 0) {
            a.tok.clear();
            a.floor = 0;
        }
        stamp += 7;
        {
            ledger::Track track;
            fresh.reset();
        }
        check_slots();
        return true;
    }

    void check_slots() { for (int k = 0; k < CFG::SLOTS; ++k) check(slots[k], k); }

    void check(Slot& s, int k)
    {
        const Vec& v = *s.p;
        MC_CHECK(v.size() == s.tok.size(), "vector v%d has size %zu, expected %zu", k, v.size(), s.tok.size());
        MC_CHECK(v.empty() == s.tok.empty(), "vector v%d: empty() is wrong", k);
        MC_CHECK(v.capacity() >= v.size(), "vector v%d has capacity %zu below its size %zu", k, v.capacity(), v.size());
        MC_CHECK(v.capacity() >= s.floor, "vector v%d has capacity %zu after reserving %zu", k, v.capacity(), s.floor);
        s.backwards = !s.backwards;
        for (std::size_t at = 0; at < s.tok.size(); ++at) {
            const std::size_t i = s.backwards ? s.tok.size() - 1 - at : at;
            CELL c = v.get(i);
            MC_CHECK(token_ok(c, s.tok[i]), "vector v%d element %zu is %s, expected %s", k, i, c.str().c_str(), token_str<CELL>(s.tok[i]).c_str());
        }
        if (s.tok.size()) {
            int runs = 0;
            SeeAll<CELL> f = {&s.tok, &runs};
            v.callback(f);
            s.p->callback(f);
            MC_CHECK(runs == 2, "two vector callbacks ran the functor %d times", runs);
        }
    }

    uint64_t hash()
    {
        std::unordered_map<int, int> ren;
        uint64_t h = 78;
        for (auto& s : slots) {
            h = mc::mix(h, s.p->capacity());
            h = mc::mix(h, s.tok.size());
            for (int t : s.tok) {
                if (t >= 0) t = ren.insert(std::make_pair(t, int(ren.size()))).first->second;
                h = mc::mix(h, uint64_t(t));
            }
        }
        return h;
    }

    void done()
    {
        for (int k = 0; k < CFG::SLOTS && !aborted; ++k) {
            Slot& s = slots[k];
            for (std::size_t i = 0; i < s.tok.size(); ++i) {
                s.tok[i] = 900 + k * 40 + int(i);
                s.p->set(i, CELL::make(s.tok[i]));
            }
            if (s.tok.size() < std::size_t(CFG::LARGEST)) {
                CELL c = CELL::make(800 + k);
                {
                    ledger::Track track;
                    s.p->push_back(c);
                }
                s.tok.push_back(800 + k);
            }
        }
        if (!aborted) check_slots();
        for (auto& s : slots) s.p.reset();
        check_all_released("after all vectors were destroyed");
    }
};

// every way to get a vector of some size and capacity (constructed with c
// elements, room reserved, p pushed, q popped) x every operation with every
// parameter, followed by growth
template<typename CFG>
void vector_parameters(const char *label)
{
    typedef VecSys<CFG, false, true> Sys;
    typedef typename Sys::Op Op;
    const int L = CFG::LARGEST;
    long serial = 0;
    std::vector<Op> ops;
    for (int n = 0; n <= L + 1; ++n) {
        ops.push_back(Op{Sys::RESIZE, 0, 0, n, -1});
        ops.push_back(Op{Sys::RESERVE, 0, 0, n, -1});
        ops.push_back(Op{Sys::CTOR_N, 0, 0, n, -1});
        ops.push_back(Op{Sys::CTOR_NV, 0, 0, n, -1});
    }
    ops.push_back(Op{Sys::CLEAR, 0, 0, 0, -1});
    ops.push_back(Op{Sys::ASSIGN, 0, 0, 0, -1});
    ops.push_back(Op{Sys::ASSIGN, 0, 1, 0, -1});
    ops.push_back(Op{Sys::ASSIGN, 1, 0, 0, -1});
    ops.push_back(Op{Sys::COPY_CTOR, 1, 0, 0, -1});
    ops.push_back(Op{Sys::STDSWAP, 0, 1, 0, -1});
    for (int c = 0; c <= L; ++c) for (int r = 0; r <= L; ++r) for (int p = 0; p <= L - c; ++p) for (int q = 0; q <= c + p; ++q) {
        if (q > 2 && q < c + p - 1) continue;
        if (r && r <= c) continue;
        for (std::size_t i = 0; i < ops.size(); ++i) {
            if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
            if (!mc::begin(label, {c, r, p, q, long(i)})) continue;
            std::snprintf(mc::g().note, sizeof(mc::g().note), "constructed with %d elements, %d reserved, %d pushed, %d popped, then %s", c, r, p, q, Sys::describe(ops[i]).c_str());
            Sys sys(0);
            sys.perform(Op{Sys::CTOR_NV, 0, 0, c, -1});
            if (r) sys.perform(Op{Sys::RESERVE, 0, 0, r, -1});
            for (int k = 0; k < p; ++k) sys.perform(Op{Sys::PUSH, 0, 0, 0, -1});
            for (int k = 0; k < q; ++k) sys.perform(Op{Sys::POP, 0, 0, 0, -1});
            sys.perform(ops[i]);
            sys.perform(Op{Sys::PUSH, 0, 0, 0, -1});
            sys.perform(Op{Sys::PUSH, 1, 0, 0, -1});
            sys.perform(Op{Sys::COPY_CTOR, 1, 0, 0, -1});
            mc::g().transitions += 5 + p + q;
            mc::state(mc::mix(sys.hash(), 4713));
            sys.done();
            ++mc::g().traces;
        }
    }
}

// ------------------------------------------------------------------ arrays
// four arrays with capacities 2, 3, 3, 5; all operations between all pairs
template<typename CELL, int AGG, bool FAULTS>
struct ArrSys
{
    enum { N = 4 };
    static int cap(int k) { static const int c[] = {2, 3, 3, 5}; return c[k]; }

    enum Kind { CTOR_N, CTOR_NV, COPY_CTOR, COPY_CTOR_CONST, ASSIGN, ASSIGN_CONST, PUSH, SHIFT, POP, CLEAR, SET, SWAP, LOAD, LOAD_AT };
    struct Op { Kind kind; int a, b, n, from, off; };
    static const std::vector<Op>& ops()
    {
        static std::vector<Op> v;
        if (!v.empty()) return v;
        for (int a = 0; a < N; ++a) {
            v.push_back(Op{PUSH, a, 0, 0, 0, 0});
            v.push_back(Op{SHIFT, a, 0, 0, 0, 0});
            v.push_back(Op{POP, a, 0, 0, 0, 0});
            v.push_back(Op{CLEAR, a, 0, 0, 0, 0});
            v.push_back(Op{SET, a, 0, 0, 0, 0});
            v.push_back(Op{SET, a, 0, 1, 0, 0});
            v.push_back(Op{CTOR_N, a, 0, cap(a) - 1, 0, 0});
            v.push_back(Op{CTOR_NV, a, 0, 1, 0, 0});
            v.push_back(Op{CTOR_NV, a, 0, cap(a), 0, 0});
            v.push_back(Op{CTOR_NV, a, 0, cap(a) + 1, 0, 0});
            for (int b = 0; b < N; ++b) {
                v.push_back(Op{ASSIGN, a, b, 0, 0, 0});
                v.push_back(Op{ASSIGN_CONST, a, b, 0, 0, 0});
                v.push_back(Op{COPY_CTOR, a, b, 0, 0, 0});
                v.push_back(Op{COPY_CTOR_CONST, a, b, 0, 0, 0});
                if (a != b && a != 1 && b != 1) {
                    // append 1 or all elements from another array; place at offset
                    v.push_back(Op{LOAD, a, b, 1, 1, 0});
                    v.push_back(Op{LOAD, a, b, -1, 0, 0});
                    v.push_back(Op{LOAD_AT, a, b, 1, 0, 0});
                    v.push_back(Op{LOAD_AT, a, b, -1, 0, 1});
                }
            }
        }
        v.push_back(Op{SWAP, 1, 2, 0, 0, 0});
        v.push_back(Op{SWAP, 2, 1, 0, 0, 0});
        v.push_back(Op{SWAP, 3, 3, 0, 0, 0});
        return v;
    }
    static int nops(long) { return int(ops().size()); }
    static std::string opname(long, int i) { return describe(ops()[i]); }
    static std::string describe(const Op& o)
    {
        static const char *n[] = {"a%d=array(n)", "a%d=array(n,x)", "a%d=array(a%d)", "a%d=array(const a%d)", "a%d=a%d", "a%d=const a%d", "a%d.push_back", "a%d<<", "a%d.pop_back", "a%d.clear", "a%d[i]=", "swap(a%d,a%d)", "a%d.load(a%d)", "a%d.load(a%d,offset)"};
        char buf[96];
        int l = std::snprintf(buf, sizeof(buf), n[o.kind], o.a, o.b);
        std::snprintf(buf + l, sizeof(buf) - l, " n=%d from=%d off=%d", o.n, o.from, o.off);
        return buf;
    }

    std::unique_ptr<soa_array<CELL, 2> > a0;
    std::unique_ptr<soa_array<CELL, 3> > a1, a2;
    std::unique_ptr<soa_array<CELL, 5> > a3;
    std::vector<int> tok[N];
    int stamp;
    int lastop;
    int last() const { return lastop; }

    explicit ArrSys(long) : stamp(1)
    {
        ledger::Track track;
        a0.reset(new soa_array<CELL, 2>());
        a1.reset(new soa_array<CELL, 3>());
        a2.reset(new soa_array<CELL, 3>());
        a3.reset(new soa_array<CELL, 5>());
    }

    template<typename F> void with(int k, F f)
    {
        switch (k) {
        case 0: f(a0); break;
        case 1: f(a1); break;
        case 2: f(a2); break;
        default: f(a3); break;
        }
    }

    template<typename A> static void place(A& p, A& fresh) { p.swap(fresh); }

    bool apply(int i) { return perform(ops()[i]); }

    bool perform(const Op o)
    {
        lastop = o.kind;
        std::vector<int>& ma = tok[o.a];
        std::vector<int>& mb = tok[o.b];
        int t = stamp;
        std::size_t n = ma.size();
        std::size_t C = cap(o.a);
        if (o.kind == SET && (n == 0 || (o.n == 1 && n == 1))) return false;
        std::size_t num = o.n < 0 ? mb.size() : o.n;
        if ((o.kind == LOAD || o.kind == LOAD_AT) && (o.from + num > mb.size())) return false;
        // a range loaded behind the end leaves unspecified elements in between
        if (o.kind == LOAD_AT && num == 0 && std::size_t(o.off) > n) return false;
        // source and target range in the same array must not overlap
        if ((o.kind == LOAD || o.kind == LOAD_AT) && o.a == o.b) {
            std::size_t to = o.kind == LOAD ? n : o.off;
            if (to < o.from + num && std::size_t(o.from) < to + num) return false;
        }
        CELL value = CELL::make(t);

        Outcome r = guarded(-1, [&]() {
            with(o.a, [&](auto& pa) {
                typedef typename std::decay<decltype(*pa)>::type A;
                switch (o.kind) {
                case CTOR_N: { std::unique_ptr<A> f(new A(o.n)); pa.swap(f); break; }
                case CTOR_NV: { std::unique_ptr<A> f(new A(o.n, value)); pa.swap(f); break; }
                case COPY_CTOR: this->with(o.b, [&](auto& pb) { std::unique_ptr<A> f(new A(*pb)); pa.swap(f); }); break;
                case COPY_CTOR_CONST: this->with(o.b, [&](auto& pb) {
                    const auto& cb = *pb;
                    std::unique_ptr<A> f(new A(cb));
                    pa.swap(f);
                }); break;
                case ASSIGN: this->with(o.b, [&](auto& pb) { *pa = *pb; }); break;
                case ASSIGN_CONST: this->with(o.b, [&](auto& pb) { const auto& cb = *pb; *pa = cb; }); break;
                case PUSH: pa->push_back(value); break;
                case SHIFT: *pa << value; break;
                case POP: pa->pop_back(); break;
                case CLEAR: pa->clear(); break;
                case SET:
                    if (o.n) (*pa)[int(n - 1)] = value;
                    else pa->at(std::size_t(0)) << value;
                    break;
                case SWAP: break;
                case LOAD: this->with(o.b, [&](auto& pb) { auto acc = pb->at(o.from); pa->load(acc, num); }); break;
                case LOAD_AT: this->with(o.b, [&](auto& pb) { auto acc = pb->at(o.from); pa->load(acc, num, std::size_t(o.off)); }); break;
                }
            });
            if (o.kind == SWAP) {
                using std::swap;
                if (o.a == 1) swap(*a1, *a2);
                else if (o.a == 2) swap(*a2, *a1);
                else swap(*a3, *a3);
            }
        });
        Outcome expected = DONE;
        std::size_t result = n;
        switch (o.kind) {
        case CTOR_N: case CTOR_NV: result = o.n; break;
        case COPY_CTOR: case COPY_CTOR_CONST: case ASSIGN: case ASSIGN_CONST: result = mb.size(); break;
        case PUSH: case SHIFT: result = n + 1; break;
        case POP: if (n == 0) expected = REFUSED_RANGE; break;
        case LOAD: result = n + num; break;
        case LOAD_AT: result = std::max(n, num + o.off); break;
        default: break;
        }
        if (result > C) expected = REFUSED_RANGE;
        MC_CHECK(r == expected, "%s: %s, expected: %s", describe(o).c_str(), outcome_name(r), outcome_name(expected));
        if (r == DONE) {
            switch (o.kind) {
            case CTOR_N: ma.assign(o.n, -1); break;
            case CTOR_NV: ma.assign(o.n, t); break;
            case COPY_CTOR: case COPY_CTOR_CONST: case ASSIGN: case ASSIGN_CONST: ma = std::vector<int>(mb); break;
            case PUSH: case SHIFT: ma.push_back(t); break;
            case POP: ma.pop_back(); break;
            case CLEAR: ma.clear(); break;
            case SET: ma[o.n ? n - 1 : 0] = t; break;
            case SWAP: if (o.a != o.b) ma.swap(mb); break;
            case LOAD: ma.insert(ma.end(), mb.begin() + o.from, mb.begin() + o.from + num); break;
            case LOAD_AT:
                if (ma.size() < result) ma.resize(result, -2);
                for (std::size_t k = 0; k < num; ++k) ma[o.off + k] = mb[o.from + k];
                break;
            }
        }
        stamp += 5;
        check_slots();
        return true;
    }

    void check_slots()
    {
        for (int k = 0; k < N; ++k) with(k, [&](auto& p) { this->check(*p, k); });
    }

    void expect(const CELL& c, int k, std::size_t i, const char *how)
    {
        MC_CHECK(token_ok(c, tok[k][i]), "array a%d element %zu (%s) is %s, expected %s", k, i, how, c.str().c_str(), token_str<CELL>(tok[k][i]).c_str());
    }

    template<typename A> void check(A& a, int k)
    {
        const A& c = a;
        std::size_t n = tok[k].size();
        MC_CHECK(c.size() == n, "array a%d has size %zu, expected %zu", k, c.size(), n);
        MC_CHECK(c.capacity() == std::size_t(cap(k)), "array a%d has capacity %zu, expected %d", k, c.capacity(), cap(k));
        MC_CHECK(c.byte_size() == n * AGG, "array a%d has byte size %zu, expected %zu", k, c.byte_size(), n * AGG);
        for (std::size_t i = 0; i < n; ++i) {
            CELL x;
            a[int(i)] >> x;
            expect(x, k, i, "operator[]");
            CELL y;
            c[int(i)] >> y;
            expect(y, k, i, "const operator[]");
            CELL z = a.at(int(i));
            expect(z, k, i, "at(int)");
            CELL w = c.at(i);
            expect(w, k, i, "const at(size_t)");
            CELL u = a.at(i);
            expect(u, k, i, "at(size_t)");
            CELL v = c.at(int(i));
            expect(v, k, i, "const at(int)");
        }
        std::size_t i = 0;
        for (auto it = a.begin(); it != a.end(); ++it, ++i) {
            MC_CHECK(i < n, "iteration over array a%d runs past the end", k);
            CELL x = it;
            expect(x, k, i, "iterator");
            auto jump = a.begin();
            jump += long(i);
            MC_CHECK(jump == it && !(jump != it), "begin() + %zu of array a%d is not its %zu-th iterator", i, k, i);
            MC_CHECK(!(it == a.end()), "iterator %zu of array a%d (of %zu) equals end()", i, k, n);
        }
        {
            auto b = a.begin(), e = a.end();
            MC_CHECK((b == e) == (n == 0) && (b != e) == (n != 0), "comparison of begin() and end() of array a%d of size %zu is wrong", k, n);
            static char elsewhere[8];
            decltype(b) foreign(elsewhere, b.index());
            MC_CHECK(!(b == foreign) && b != foreign, "iterators of different arrays are equal");
        }
        MC_CHECK(i == n, "iteration over array a%d visits %zu of %zu elements", k, i, n);
        if (n) {
            CELL x = a.back();
            expect(x, k, n - 1, "back()");
        }
    }

    uint64_t hash()
    {
        std::unordered_map<int, int> ren;
        uint64_t h = 79;
        for (auto& m : tok) {
            h = mc::mix(h, m.size());
            for (int t : m) {
                if (t >= 0) t = ren.insert(std::make_pair(t, int(ren.size()))).first->second;
                h = mc::mix(h, uint64_t(t));
            }
        }
        return h;
    }

    void done()
    {
        {
            ledger::Track track;
            a0.reset(); a1.reset(); a2.reset(); a3.reset();
        }
        check_all_released("after all arrays were destroyed");
    }
};

// every pair of arrays x every pair of sizes x every operation with every
// parameter, one of each kind of follow-up
template<typename CELL, int AGG>
void array_parameters(const char *label)
{
    typedef ArrSys<CELL, AGG, false> Sys;
    typedef typename Sys::Op Op;
    long serial = 0;
    for (int a = 0; a < Sys::N; ++a) for (int b = 0; b < Sys::N; ++b) {
        for (int na = 0; na <= Sys::cap(a); ++na) for (int nb = 0; nb <= Sys::cap(b); ++nb) {
            if (a == b && na != nb) continue;
            std::vector<Op> ops;
            for (int k : {Sys::COPY_CTOR, Sys::COPY_CTOR_CONST, Sys::ASSIGN, Sys::ASSIGN_CONST}) ops.push_back(Op{typename Sys::Kind(k), a, b, 0, 0, 0});
            for (int n = 0; n <= Sys::cap(a) + 2; ++n) {
                ops.push_back(Op{Sys::CTOR_N, a, b, n, 0, 0});
                ops.push_back(Op{Sys::CTOR_NV, a, b, n, 0, 0});
            }
            if (a + b == 3 && a * b == 2) ops.push_back(Op{Sys::SWAP, a, b, 0, 0, 0});
            for (int from = 0; from <= nb && from < Sys::cap(b); ++from) for (int n = 0; n <= nb - from; ++n) {
                ops.push_back(Op{Sys::LOAD, a, b, n, from, 0});
                for (int off = 0; off <= Sys::cap(a); ++off) ops.push_back(Op{Sys::LOAD_AT, a, b, n, from, off});
            }
            for (auto& o : ops) {
                if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
                if (!mc::begin(label, {a, b, na, nb, long(&o - &ops[0])})) continue;
                std::snprintf(mc::g().note, sizeof(mc::g().note), "sizes %d and %d, then %s", na, nb, Sys::describe(o).c_str());
                Sys sys(0);
                for (int i = 0; i < na; ++i) sys.perform(Op{Sys::PUSH, a, 0, 0, 0, 0});
                for (int i = 0; i < nb && a != b; ++i) sys.perform(Op{Sys::PUSH, b, 0, 0, 0, 0});
                if (sys.perform(o)) {
                    sys.perform(Op{Sys::PUSH, a, 0, 0, 0, 0});
                    sys.perform(Op{Sys::SET, a, 0, 0, 0, 0});
                    sys.perform(Op{Sys::POP, a, 0, 0, 0, 0});
                    mc::g().transitions += 4;
                }
                mc::g().transitions += na + nb;
                mc::state(mc::mix(sys.hash(), 4712));
                sys.done();
                ++mc::g().traces;
            }
        }
    }
}

// ------------------------------------------------------- configurations
inline int smallest(std::initializer_list<int> l, int d)
{
    for (int v : l) if (v >= d) return v;
    return -1;
}

MIX_BODY(MixN, class API { public: LIBFLATARRAY_CUSTOM_SIZES((1)(2)(4), (1)(2), (1)(3)) };);
MIX_REGISTER(MixN)
MIX_BODY(MixA, class API : public LibFlatArray::api_traits::has_asymmetric_dual_callback { public: LIBFLATARRAY_CUSTOM_SIZES((1)(2)(4), (1)(2), (1)(3)) };);
MIX_REGISTER(MixA)
MIX_BODY(Mix1, class API { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((2)(3)(5)(9)) };);
MIX_REGISTER(Mix1)
MIX_BODY(Mix3, class API { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((2)(3)(4)) };);
MIX_REGISTER(Mix3)
MIX_BODY(MixU2, class API { public: LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((2)(3)) };);
MIX_REGISTER(MixU2)
MIX_BODY(MixU3, class API { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((2)(3)) };);
MIX_REGISTER(MixU3)
MIX_BODY(MixD, );
MIX_REGISTER(MixD)
TRACKED_BODY(TrkN, class API { public: LIBFLATARRAY_CUSTOM_SIZES((1)(2)(4), (1)(2), (1)(3)) };);
TRACKED_REGISTER(TrkN)
TRACKED_BODY(Trk1, class API { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((2)(3)(5)(9)) };);
TRACKED_REGISTER(Trk1)
TRACKED_BODY(TrkA, class API : public LibFlatArray::api_traits::has_asymmetric_dual_callback { public: LIBFLATARRAY_CUSTOM_SIZES((1)(2)(4), (1)(2), (1)(3)) };);
TRACKED_REGISTER(TrkA)

WIDE_BODY(Wide, class API { public: LIBFLATARRAY_CUSTOM_SIZES((1)(2)(4), (1)(2), (1)(3)) };);
WIDE_REGISTER(Wide)
WIDE_BODY(Wide1, class API { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((2)(3)(5)(9)) };);
WIDE_REGISTER(Wide1)
// rows beyond 2^16 cells
MIX_BODY(MixB, class API { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((32)(65600)(131104)) };);
MIX_REGISTER(MixB)
MIX_BODY(MixB2, class API { public: LIBFLATARRAY_CUSTOM_SIZES((65600), (2), (1)) };);
MIX_REGISTER(MixB2)
// extents beyond 2^32 cells, of which only the first few along each axis are used
MIX_BODY(MixH, class API { public: LIBFLATARRAY_CUSTOM_SIZES((65568), (65568), (2)(4)) };);
MIX_REGISTER(MixH)
MIX_BODY(MixHA, class API : public LibFlatArray::api_traits::has_asymmetric_dual_callback { public: LIBFLATARRAY_CUSTOM_SIZES((65568), (65568), (2)(4)) };);
MIX_REGISTER(MixHA)
MIX_BODY(MixHU, class API { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((2064)) };);
MIX_REGISTER(MixHU)

enum { MIX_AGG = 8 + 4 + 3 + 4 + 4 + 1, TRK_AGG = 3 * int(sizeof(Tracked)) + 4 };

template<typename CELL, int AGG_, int SLOTS_ = 2>
struct GridCfg3D
{
    typedef CELL cell_type;
    enum { AGG = AGG_, SLOTS = SLOTS_ };
    static std::vector<Shape> shapes() { return {{0, 0, 0}, {0, 1, 1}, {1, 1, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {3, 2, 2}, {5, 1, 1}, {1, 3, 1}, {1, 1, 4}}; }
    static bool extents(int x, int y, int z, int *e)
    {
        e[0] = smallest({1, 2, 4}, x);
        e[1] = smallest({1, 2}, y);
        e[2] = smallest({1, 3}, z);
        return e[0] > 0 && e[1] > 0 && e[2] > 0;
    }
};

template<typename CELL, int AGG_, int SLOTS_ = 2>
struct GridCfg1D
{
    typedef CELL cell_type;
    enum { AGG = AGG_, SLOTS = SLOTS_ };
    static std::vector<Shape> shapes() { return {{0, 0, 0}, {0, 1, 1}, {1, 1, 1}, {2, 1, 1}, {3, 1, 1}, {6, 1, 1}, {10, 1, 1}, {1, 2, 1}, {2, 1, 2}}; }
    static bool extents(int x, int y, int z, int *e)
    {
        e[0] = smallest({2, 3, 5, 9}, x);
        e[1] = e[2] = 1;
        return e[0] > 0 && y == 1 && z == 1;
    }
};

template<typename CELL>
struct GridCfgHuge
{
    typedef CELL cell_type;
    enum { AGG = MIX_AGG, SLOTS = 2 };
    static std::vector<Shape> shapes() { return {{0, 0, 0}, {1, 1, 1}, {3, 1, 1}, {1, 2, 1}, {1, 1, 2}, {2, 3, 3}, {3, 3, 2}}; }
    static bool extents(int, int, int z, int *e)
    {
        e[0] = e[1] = 65568;
        e[2] = smallest({2, 4}, z);
        return e[2] > 0;
    }
};

// all shapes of small size lists
template<typename CELL, int AGG_>
struct AllShapes3D : public GridCfg3D<CELL, AGG_, 2>
{
    static std::vector<Shape> shapes()
    {
        std::vector<Shape> r = {{0, 0, 0}};
        for (int z = 0; z <= 3; ++z) for (int y = 0; y <= 2; ++y) for (int x = 0; x <= 4; ++x) if (x || y || z) r.push_back(Shape{x, y, z});
        return r;
    }
};

template<typename CELL, int AGG_, int DIMS>
struct AllShapesUniform
{
    typedef CELL cell_type;
    enum { AGG = AGG_, SLOTS = 2 };
    static std::vector<Shape> shapes()
    {
        std::vector<Shape> r = {{0, 0, 0}};
        for (int z = DIMS > 2 ? 0 : 1; z <= (DIMS > 2 ? 3 : 1); ++z) for (int y = 0; y <= 3; ++y) for (int x = 0; x <= 3; ++x) if (x || y || z) r.push_back(Shape{x, y, z});
        return r;
    }
    static bool extents(int x, int y, int z, int *e)
    {
        e[0] = smallest({2, 3}, std::max(x, std::max(y, z)));
        e[1] = e[0];
        e[2] = DIMS > 2 ? e[0] : 1;
        return e[0] > 0;
    }
};

struct GridCfgDefault
{
    typedef MixD cell_type;
    enum { AGG = MIX_AGG, SLOTS = 2 };
    static std::vector<Shape> shapes() { return {{0, 0, 0}, {1, 1, 1}, {33, 1, 1}, {2, 2, 1}, {1, 1, 2}}; }
    static bool extents(int x, int y, int z, int *e)
    {
        if (y > 1 && z > 1) return false; // not used here
        if (y > 1) {
            e[0] = e[1] = smallest({32, 64, 128}, std::max(x, y));
            e[2] = 1;
            return z == 1;
        }
        e[0] = smallest({32, 64, 128}, x);
        e[1] = e[2] = 1;
        return y == 1 && z == 1;
    }
};

template<typename CELL, int SLOTS_ = 2>
struct VecCfg1
{
    typedef CELL cell_type;
    enum { LARGEST = 9, SLOTS = SLOTS_ };
    static std::vector<int> counts() { return {0, 1, 2, 3, 5, 6, 8, 9, 10}; }
};

template<typename CELL, int LARGEST_, int SLOTS_ = 2>
struct VecCfg3
{
    // types whose size list also has y and z extents
    typedef CELL cell_type;
    enum { LARGEST = LARGEST_, SLOTS = SLOTS_ };
    static std::vector<int> counts() { return {0, 1, 2, 3, 4, 5}; }
};

struct VecCfgD
{
    typedef MixD cell_type;
    enum { LARGEST = 1073741856, SLOTS = 1 };
    static std::vector<int> counts() { return {0, 31, 32, 33, 63, 64, 65, 129}; }
};

#endif
