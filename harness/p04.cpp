// P04: bulk save/load. Every run list within the bounds, every buffer
// offset/stride, byte-exact frame on the buffer and on the grid.
#include "mc.hpp"
#include <libflatarray/flat_array.hpp>
#include <list>

using namespace LibFlatArray;

// Types describe themselves to the oracle: registered elements in layout order.
class Mixed
{
public:
    LIBFLATARRAY_ACCESS
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((2)(4)(6), (1)(3), (1)(2)) };
    double d; int i; char c[3]; short s[2];
    Mixed() : d(0), i(0), f(0), u(0) { std::memset(c, 0, sizeof(c)); std::memset(s, 0, sizeof(s)); }
    static Mixed make(int t)
    {
        Mixed x;
        x.d = t * 1.25 + 0.5; x.i = t * 7 + 1; x.f = t + 0.75f; x.u = (unsigned char)(t * 5 + 9);
        for (int k = 0; k < 3; ++k) x.c[k] = char(1 + ((t * 3 + k * 41) & 0x7e));
        for (int k = 0; k < 2; ++k) x.s[k] = short(t * 11 + k * 5003 + 3);
        return x;
    }
    bool is(int t) const
    {
        Mixed o = make(t);
        return d == o.d && i == o.i && !std::memcmp(c, o.c, 3) && f == o.f && !std::memcmp(s, o.s, 4) && u == o.u;
    }
    template<typename V> void elements(V& v) const
    {
        v(&d, 8); v(&i, 4); for (int k = 0; k < 3; ++k) v(&c[k], 1);
        v(&f, 4); for (int k = 0; k < 2; ++k) v(&s[k], 2); v(&u, 1);
    }
    enum { AGG = 24 };
private:
    float f; unsigned char u;
};
LIBFLATARRAY_REGISTER_SOA(Mixed, ((double)(d))((int)(i))((char)(c)(3))((float)(f))((short)(s)(2))((unsigned char)(u)))

class ArrayFirst
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((1)(3)(4)) };
    char c[5]; float f[2]; short s;
    static ArrayFirst make(int t)
    {
        ArrayFirst x;
        for (int k = 0; k < 5; ++k) x.c[k] = char(t * 5 + k * 17 + 1);
        x.f[0] = t + 0.5f; x.f[1] = -t - 3.f; x.s = short(t * 101 + 7);
        return x;
    }
    bool is(int t) const { ArrayFirst o = make(t); return !std::memcmp(c, o.c, 5) && f[0] == o.f[0] && f[1] == o.f[1] && s == o.s; }
    template<typename V> void elements(V& v) const { for (int k = 0; k < 5; ++k) v(&c[k], 1); v(&f[0], 4); v(&f[1], 4); v(&s, 2); }
    enum { AGG = 15 };
};
LIBFLATARRAY_REGISTER_SOA(ArrayFirst, ((char)(c)(5))((float)(f)(2))((short)(s)))

// array members of many arities
class Many
{
public:
    LIBFLATARRAY_ACCESS
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((2)(4), (1)(3), (1)(2)) };
    int a4[4]; char a5[5]; short a6[6]; char a7[7]; double a8[8]; char a9[9]; int i; short a12[12]; char a16[16]; float a17[17]; char a31[31]; short a32[32]; char a33[33]; double a64[64]; char a65[65]; int a1[1];
    Many() { std::memset(static_cast<void*>(this), 0, sizeof(*this)); }
    template<typename V> static void sub(V& v, const void *p, std::size_t size, int n) { for (int k = 0; k < n; ++k) v(static_cast<const char*>(p) + k * size, size); }
    template<typename V> void elements(V& v) const
    {
        sub(v, a4, 4, 4); sub(v, a5, 1, 5); sub(v, a6, 2, 6); sub(v, a7, 1, 7); sub(v, a8, 8, 8); sub(v, a9, 1, 9); sub(v, &i, 4, 1); sub(v, a12, 2, 12); sub(v, a16, 1, 16);
        sub(v, a17, 4, 17); sub(v, a31, 1, 31); sub(v, a32, 2, 32); sub(v, a33, 1, 33); sub(v, a64, 8, 64); sub(v, a65, 1, 65); sub(v, a1, 4, 1);
    }
    struct Write { int t, n; void operator()(const void *p, std::size_t s) { char *c = static_cast<char*>(const_cast<void*>(p)); for (std::size_t k = 0; k < s; ++k, ++n) c[k] = char((t * 29 + n * 7) % 61 + 1); } };
    struct Same { int t, n; bool ok; void operator()(const void *p, std::size_t s) { const char *c = static_cast<const char*>(p); for (std::size_t k = 0; k < s; ++k, ++n) if (c[k] != char((t * 29 + n * 7) % 61 + 1)) ok = false; } };
    static Many make(int t) { Many x; Write w = {t, 0}; x.elements(w); return x; }
    bool is(int t) const { Same s = {t, 0, true}; elements(s); return s.ok; }
    enum { AGG = 16 + 5 + 12 + 7 + 64 + 9 + 4 + 24 + 16 + 68 + 31 + 64 + 33 + 512 + 65 + 4 };
};
LIBFLATARRAY_REGISTER_SOA(Many, ((int)(a4)(4))((char)(a5)(5))((short)(a6)(6))((char)(a7)(7))((double)(a8)(8))((char)(a9)(9))((int)(i))((short)(a12)(12))((char)(a16)(16))((float)(a17)(17))((char)(a31)(31))((short)(a32)(32))((char)(a33)(33))((double)(a64)(64))((char)(a65)(65))((int)(a1)(1)))

struct Streak { long origin[3]; int n; int length() const { return n; } };

// the oracle's buffer: struct-of-arrays order with the given stride
struct Put
{
    char *base; std::size_t stride, slot, off;
    void operator()(const void *p, std::size_t n) { std::memcpy(base + off * stride + slot * n, p, n); off += n; }
};
template<typename CELL>
void put(std::vector<char>& b, std::size_t stride, std::size_t slot, const CELL& c)
{
    Put p = {b.data(), stride, slot, 0};
    c.elements(p);
}

template<typename CELL>
void fill(soa_grid<CELL>& g, int base)
{
    int n = 0;
    for (std::size_t z = 0; z < g.dim_z(); ++z) for (std::size_t y = 0; y < g.dim_y(); ++y) for (std::size_t x = 0; x < g.dim_x(); ++x) g.set(x, y, z, CELL::make(base + n++));
}

struct Shape { int x, y, z; };

template<typename CELL>
void expect_cells(const soa_grid<CELL>& g, Shape s, const std::vector<int>& tokens, const char *when, bool backwards = false)
{
    const int cells = s.x * s.y * s.z;
    for (int i = 0; i < cells; ++i) {
        const int n = backwards ? cells - 1 - i : i;
        const int x = n % s.x, y = n / s.x % s.y, z = n / s.x / s.y;
        int t = tokens[n];
        MC_CHECK(g.get(x, y, z).is(t), "%s: cell (%d,%d,%d) is not token %d", when, x, y, z, t);
    }
}

static const char GUARD = 0x5a;

// a buffer surrounded by guard bytes
struct Buffer
{
    std::vector<char> raw;
    std::size_t n, at;
    // the buffer may start at any address
    Buffer(std::size_t n, long skew) : raw(n + 64, GUARD), n(n), at(24 + skew % 16) {}
    char *p() { return &raw[at]; }
    void check(const std::vector<char>& image, const char *when)
    {
        for (std::size_t i = 0; i < n; ++i) MC_CHECK(p()[i] == image[i], "%s: byte %zu of the buffer is 0x%02x, expected 0x%02x", when, i, (unsigned char)p()[i], (unsigned char)image[i]);
        for (std::size_t i = 0; i < at; ++i) MC_CHECK(raw[i] == GUARD, "%s wrote in front of the buffer", when);
        for (std::size_t i = at + n; i < raw.size(); ++i) MC_CHECK(raw[i] == GUARD, "%s wrote behind the buffer", when);
    }
};

static std::vector<Streak> runs_of(Shape s)
{
    std::vector<Streak> r;
    for (int z = 0; z < s.z; ++z) for (int y = 0; y < s.y; ++y) for (int x = 0; x < s.x; ++x) for (int n = 0; x + n <= s.x; ++n) r.push_back(Streak{{x, y, z}, n});
    return r;
}

template<typename CELL>
struct Lists
{
    Shape s;
    soa_grid<CELL> g; // read-only source for all saves
    std::vector<Streak> all;
    std::vector<int> source;

    explicit Lists(Shape s) : s(s), g(s.x, s.y, s.z), all(runs_of(s))
    {
        fill(g, 3);
        for (int i = 0; i < s.x * s.y * s.z; ++i) source.push_back(3 + i);
    }
    int token(const Streak& k, int i) { return source[(k.origin[2] * s.y + k.origin[1]) * s.x + k.origin[0] + i]; }
    int cell(const Streak& k, int i) { return int((k.origin[2] * s.y + k.origin[1]) * s.x + k.origin[0] + i); }
    static bool overlap(const std::vector<Streak>& l)
    {
        for (std::size_t i = 0; i < l.size(); ++i) for (std::size_t j = i + 1; j < l.size(); ++j) {
            if (l[i].origin[1] == l[j].origin[1] && l[i].origin[2] == l[j].origin[2] &&
                l[i].origin[0] < l[j].origin[0] + l[j].n && l[j].origin[0] < l[i].origin[0] + l[i].n) return true;
        }
        return false;
    }

    void list(const char *label, const std::vector<int>& ids, int slack, int form)
    {
        std::vector<Streak> l;
        std::size_t sum = 0;
        for (int i : ids) { l.push_back(all[i]); sum += all[i].n; }
        std::size_t count = sum + slack;
        std::vector<char> image(count * CELL::AGG, GUARD);
        std::size_t at = 0;
        for (auto& k : l) for (int i = 0; i < k.n; ++i) put(image, count, at++, CELL::make(token(k, i)));
        long skew = slack + 3 * form;
        for (int i : ids) skew = skew * 5 + i;
        Buffer buf(image.size(), skew);
        const soa_grid<CELL>& cg = g;
        std::list<Streak> ll(l.begin(), l.end());
        if (form == 0) cg.save(l.begin(), l.end(), buf.p(), count);
        else if (form == 1) cg.save(ll.begin(), ll.end(), buf.p(), count);
        else cg.save(std::size_t(l[0].origin[0]), std::size_t(l[0].origin[1]), std::size_t(l[0].origin[2]), buf.p(), count);
        buf.check(image, "save");
        mc::step();
        mc::state(mc::mix(mc::mix(sum, slack), mc::mix(l.size(), l.empty() ? 0 : l[0].n)));
        if (overlap(l)) return;
        // load into a different grid holding other tokens
        soa_grid<CELL> h(s.x, s.y, s.z);
        fill(h, 70);
        std::vector<int> want;
        for (int i = 0; i < s.x * s.y * s.z; ++i) want.push_back(70 + i);
        for (auto& k : l) for (int i = 0; i < k.n; ++i) want[cell(k, i)] = token(k, i);
        // cells read before the load must not be remembered after it
        for (auto& k : l) {
            if (k.n) MC_CHECK(CELL(h.get(k.origin[0], k.origin[1], k.origin[2])).is(70 + cell(k, 0)), "before load: wrong token");
        }
        if (form == 0) h.load(l.begin(), l.end(), buf.p(), count);
        else if (form == 1) h.load(ll.begin(), ll.end(), buf.p(), count);
        else h.load(std::size_t(l[0].origin[0]), std::size_t(l[0].origin[1]), std::size_t(l[0].origin[2]), buf.p(), count);
        for (std::size_t i = l.size(); i-- > 0;) {
            const Streak& k = l[i];
            if (k.n) MC_CHECK(CELL(h.get(k.origin[0], k.origin[1], k.origin[2])).is(token(k, 0)), "after load: wrong token");
        }
        expect_cells(h, s, want, "load");
        buf.check(image, "load");
        mc::step();
        ++mc::g().traces;
    }

    void run(const char *label, int depth)
    {
        int n = int(all.size());
        int k = 0;
        std::vector<std::vector<int> > lists(1);
        for (int a = 0; a < n; ++a) {
            lists.push_back({a});
            for (int b = 0; b < n; ++b) {
                lists.push_back({a, b});
                if (depth > 2) for (int c = 0; c < n; ++c) lists.push_back({a, b, c});
            }
        }
        for (auto& ids : lists) {
            if (!mc::g().replay && (k++ % mc::g().shards) != mc::g().shard) continue;
            for (int slack = 0; slack < 3; ++slack) for (int form = 0; form < 3; ++form) {
                if (form == 2 && (ids.size() != 1 || slack)) continue;
                if (form == 1 && (ids.size() > 2 || slack == 1)) continue;
                long i[5] = {-1, -1, -1, slack, form};
                for (std::size_t q = 0; q < ids.size(); ++q) i[q] = ids[q];
                if (mc::begin(label, {i[0], i[1], i[2], i[3], i[4]})) list(label, ids, slack, form);
            }
        }
        expect_cells(g, s, source, "after all saves");
    }

    // save one set of runs, load into any equally shaped set of runs
    void transfer(const char *label)
    {
        int n = int(all.size());
        int k = 0;
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
            if (!mc::g().replay && (k++ % mc::g().shards) != mc::g().shard) continue;
            std::vector<Streak> from = {all[a], all[b]};
            for (int c = 0; c < n; ++c) {
                if (all[c].n != all[a].n) continue;
                for (int d = 0; d < n; ++d) {
                    if (all[d].n != all[b].n) continue;
                    std::vector<Streak> to = {all[c], all[d]};
                    if (overlap(to)) continue;
                    if (!mc::begin(label, {a, b, c, d})) continue;
                    std::size_t count = all[a].n + all[b].n;
                    Buffer buf(count * CELL::AGG, a + 2 * b + 4 * c + 7 * d);
                    g.save(from.begin(), from.end(), buf.p(), count);
                    soa_grid<CELL> h(s.x, s.y, s.z);
                    std::vector<int> want(s.x * s.y * s.z, 55);
                    for (int z = 0; z < s.z; ++z) for (int y = 0; y < s.y; ++y) h.broadcast(0, y, z, CELL::make(55), s.x);
                    for (int r = 0; r < 2; ++r) for (int i = 0; i < to[r].n; ++i) want[cell(to[r], i)] = token(from[r], i);
                    h.load(to.begin(), to.end(), buf.p(), count);
                    expect_cells(h, s, want, "transfer");
                    mc::step(2);
                    ++mc::g().traces;
                }
            }
        }
    }
};

// ---------------------------------------------- single accessors, all flavours
template<typename CELL, long DX, long DY, long DZ>
void accessors(const char *label, int max_n, int max_off, int max_extra)
{
    const long prod = DX * DY * DZ;
    std::vector<char> image(prod * CELL::AGG);
    for (long i = 0; i < prod; ++i) put(image, prod, i, CELL::make(int(i) + 3));
    for (int f = 0; f < 6; ++f) for (long i = 0; i < prod; ++i) for (int n = 0; n <= max_n && i + n <= prod; ++n) for (int off = 0; off <= max_off; ++off) for (int extra = 0; extra <= max_extra; ++extra) for (int shortform = 0; shortform < 2; ++shortform) {
        if (shortform && (off || extra)) continue;
        if (!mc::begin(label, {f, i, n, off, extra, shortform})) continue;
        std::size_t stride = off + n + extra;
        std::vector<char> want(stride * CELL::AGG, GUARD);
        for (int k = 0; k < n; ++k) put(want, stride, off + k, CELL::make(int(i) + k + 3));
        Buffer buf(want.size(), 5 * i + n + 3 * off + 7 * extra);
        std::vector<char> data = image;
        long j = i;
        soa_accessor<CELL, DX, DY, DZ, 0> s(data.data(), i);
        const_soa_accessor<CELL, DX, DY, DZ, 0> cs(data.data(), i);
        soa_accessor_light<CELL, DX, DY, DZ, 0> l(data.data(), j);
        const_soa_accessor_light<CELL, DX, DY, DZ, 0> cl(data.data(), j);
        soa_accessor<CELL, DX, DY, DZ, 3> so(data.data(), i - 3);
        long j3 = i - 3;
        soa_accessor_light<CELL, DX, DY, DZ, 3> lo(data.data(), j3);
        if (shortform) {
            switch (f) {
            case 0: s.save(buf.p(), n); break;
            case 1: cs.save(buf.p(), n); break;
            case 2: l.save(buf.p(), n); break;
            case 3: cl.save(buf.p(), n); break;
            case 4: so.save(buf.p(), n); break;
            case 5: lo.save(buf.p(), n); break;
            }
        } else {
            switch (f) {
            case 0: s.save(buf.p(), n, off, stride); break;
            case 1: cs.save(buf.p(), n, off, stride); break;
            case 2: l.save(buf.p(), n, off, stride); break;
            case 3: cl.save(buf.p(), n, off, stride); break;
            case 4: so.save(buf.p(), n, off, stride); break;
            case 5: lo.save(buf.p(), n, off, stride); break;
            }
        }
        buf.check(want, "accessor save");
        MC_CHECK(data == image, "accessor save changed the cells");
        mc::step();
        if (f == 1 || f == 3) continue;
        // load elsewhere: other tokens below
        std::vector<char> under(prod * CELL::AGG), expect;
        for (long k = 0; k < prod; ++k) put(under, prod, k, CELL::make(int(k) + 60));
        expect = under;
        for (int k = 0; k < n; ++k) put(expect, prod, i + k, CELL::make(int(i) + k + 3));
        data = under;
        if (shortform) {
            switch (f) {
            case 0: s.load(buf.p(), n); break;
            case 2: l.load(buf.p(), n); break;
            case 4: so.load(buf.p(), n); break;
            case 5: lo.load(buf.p(), n); break;
            }
        } else {
            switch (f) {
            case 0: s.load(buf.p(), n, off, stride); break;
            case 2: l.load(buf.p(), n, off, stride); break;
            case 4: so.load(buf.p(), n, off, stride); break;
            case 5: lo.load(buf.p(), n, off, stride); break;
            }
        }
        for (std::size_t k = 0; k < data.size(); ++k) MC_CHECK(data[k] == expect[k], "accessor load: byte %zu of the storage is 0x%02x, expected 0x%02x", k, (unsigned char)data[k], (unsigned char)expect[k]);
        buf.check(want, "accessor load");
        mc::step();
        ++mc::g().traces;
        mc::state(mc::mix(mc::mix(f, i), mc::mix(n, mc::mix(off, extra))));
    }
}

// ------------------------------------- histories of saves, loads and writes
template<typename CELL>
struct History
{
    struct L { std::vector<Streak> l; int sum; };
    static const std::vector<L>& lists()
    {
        static std::vector<L> v = {
            {{}, 0},
            {{Streak{{0, 0, 0}, 1}}, 1},
            {{Streak{{2, 1, 0}, 1}}, 1},
            {{Streak{{1, 0, 0}, 2}, Streak{{0, 1, 0}, 1}}, 3},
            {{Streak{{0, 1, 0}, 3}}, 3},
            {{Streak{{2, 0, 0}, 1}, Streak{{0, 0, 0}, 1}, Streak{{1, 1, 0}, 1}}, 3},
            {{Streak{{0, 0, 0}, 3}, Streak{{0, 1, 0}, 2}}, 5}};
        return v;
    }
    enum { LISTS = 7 };
    static int nops(long) { return 2 * LISTS * 2 * 2 + 2 * 6; }
    static std::string opname(long, int op)
    {
        char b[64];
        if (op < 4 * LISTS) std::snprintf(b, sizeof(b), "save grid%d list%d -> buffer%d", op % 2, op / 4, op / 2 % 2);
        else if (op < 8 * LISTS) std::snprintf(b, sizeof(b), "load buffer%d -> grid%d list%d", (op - 4 * LISTS) / 2 % 2, op % 2, (op - 4 * LISTS) / 4);
        else std::snprintf(b, sizeof(b), "write grid%d cell%d", (op - 8 * LISTS) % 2, (op - 8 * LISTS) / 2);
        return b;
    }
    soa_grid<CELL> g[2];
    std::vector<int> m[2];      // tokens
    std::vector<char> buf[2];
    std::vector<int> saved[2];  // tokens in the buffer
    int step;
    explicit History(long) : step(0)
    {
        for (int i = 0; i < 2; ++i) {
            g[i].resize(3, 2, 1);
            fill(g[i], 10 + 20 * i);
            for (int k = 0; k < 6; ++k) m[i].push_back(10 + 20 * i + k);
        }
    }
    bool apply(int op)
    {
        ++step;
        if (op < 4 * LISTS) {
            int i = op % 2, b = op / 2 % 2;
            const L& l = lists()[op / 4];
            buf[b].assign(l.sum * CELL::AGG, 0);
            saved[b].clear();
            g[i].save(l.l.begin(), l.l.end(), buf[b].data(), l.sum);
            for (auto& k : l.l) for (int q = 0; q < k.n; ++q) saved[b].push_back(m[i][k.origin[1] * 3 + k.origin[0] + q]);
        } else if (op < 8 * LISTS) {
            int i = op % 2, b = (op - 4 * LISTS) / 2 % 2;
            const L& l = lists()[(op - 4 * LISTS) / 4];
            if (int(saved[b].size()) != l.sum) return false;
            g[i].load(l.l.begin(), l.l.end(), buf[b].data(), l.sum);
            int at = 0;
            for (auto& k : l.l) for (int q = 0; q < k.n; ++q) m[i][k.origin[1] * 3 + k.origin[0] + q] = saved[b][at++];
        } else {
            int i = (op - 8 * LISTS) % 2, k = (op - 8 * LISTS) / 2;
            m[i][k] = 60 + step;
            g[i].set(k % 3, k / 3, 0, CELL::make(60 + step));
        }
        for (int i = 0; i < 2; ++i) expect_cells(g[i], Shape{3, 2, 1}, m[i], "history", step % 2 == 0);
        for (int b = 0; b < 2; ++b) {
            std::vector<char> image(buf[b].size());
            for (std::size_t k = 0; k < saved[b].size(); ++k) put(image, saved[b].size(), k, CELL::make(saved[b][k]));
            MC_CHECK(image == buf[b], "history: buffer %d does not hold the saved cells", b);
        }
        return true;
    }
    uint64_t hash()
    {
        uint64_t h = 1;
        for (int i = 0; i < 2; ++i) { for (int t : m[i]) h = mc::mix(h, t); for (int t : saved[i]) h = mc::mix(h, t + 7); h = mc::mix(h, saved[i].size()); }
        return h;
    }
    void done() {}
};

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool t = mc::thorough();
    mc::explore<History<Mixed> >("history_mixed", 0, t ? 4 : 3, false);
    mc::explore<History<ArrayFirst> >("history_arrayfirst", 0, t ? 4 : 2, false);
    Lists<Mixed>(Shape{3, 2, 1}).run("mixed_3x2x1", 3);
    Lists<Mixed>(Shape{3, 2, 2}).run("mixed_3x2x2", 3);
    Lists<Mixed>(Shape{2, 1, 1}).run("mixed_2x1x1", 3);
    Lists<ArrayFirst>(Shape{2, 2, 2}).run("arrayfirst_2x2x2", 3);
    Lists<ArrayFirst>(Shape{4, 1, 1}).run("arrayfirst_4x1x1", 3);
    Lists<Mixed>(Shape{3, 2, 1}).transfer("transfer_mixed_3x2x1");
    Lists<ArrayFirst>(Shape{2, 2, 1}).transfer("transfer_arrayfirst_2x2x1");
    Lists<Mixed>(Shape{6, 1, 1}).run("mixed_6x1x1", 3);
    Lists<Mixed>(Shape{5, 3, 2}).run("mixed_5x3x2", 2);
    Lists<Mixed>(Shape{3, 2, 2}).transfer("transfer_mixed_3x2x2");
    if (t) {
        Lists<Mixed>(Shape{5, 2, 2}).run("mixed_5x2x2", 3);
        Lists<ArrayFirst>(Shape{4, 2, 2}).run("arrayfirst_4x2x2", 3);
        Lists<Mixed>(Shape{4, 3, 2}).transfer("transfer_mixed_4x3x2");
    }
    Lists<Many>(Shape{3, 2, 1}).run("many_3x2x1", 2);
    Lists<Many>(Shape{2, 1, 2}).run("many_2x1x2", 2);
    if (mc::g().shard == mc::g().shards / 2 || mc::g().replay) accessors<Many, 3, 2, 2>("accessor_many_3x2x2", 3, 2, 1);
    if (mc::g().shard == 0) accessors<Mixed, 4, 2, 2>("accessor_mixed_4x2x2", 5, 3, 2);
    if (mc::g().shard == mc::g().shards - 1 || mc::g().replay) {
        accessors<ArrayFirst, 3, 3, 1>("accessor_arrayfirst_3x3x1", 5, 3, 2);
        accessors<ArrayFirst, 9, 1, 1>("accessor_arrayfirst_9x1x1", 9, 3, 2);
    }
    mc::sample("mixed_3x2x2: save runs (1,0,1)+2,(0,1,0)+3 with count 6, load into another grid");
    mc::sample("accessor_mixed_4x2x2: light accessor at cell 5, save(count=3, offset=2, stride=7)");
    return mc::finish();
}
