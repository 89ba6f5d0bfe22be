// P04, large instances: transfers of boundary lengths at boundary positions.
#include "large.hpp"
#include "values.hpp"
#include <list>

// strides, offsets and extents beyond 2^32 (address space is reserved only)
struct Mapped
{
    char *p;
    std::size_t n;
    explicit Mapped(std::size_t n) : p(static_cast<char*>(ledger::reserve(n))), n(n) {}
    ~Mapped() { munmap(p, n); }
};

template<typename A>
static void far_accessors(const char *label)
{
    typedef MixH CELL;
    const long D = 65568;
    const std::size_t prod = std::size_t(D) * D * 2;
    Mapped cells(prod * MIX_AGG), others(prod * MIX_AGG);
    for (std::size_t stride : {std::size_t(5), std::size_t(65539), (std::size_t(1) << 31) + 3, (std::size_t(1) << 32) + 1, (std::size_t(1) << 33) - 1}) {
        for (std::size_t offset : {std::size_t(0), std::size_t(1), stride / 2, stride - 3}) for (long n = 1; n <= 3; ++n) for (long at : {0L, D - 2, D * D - 1, D * D, D * D + D + 5, long(prod) - 4}) {
            if (offset + n > stride) continue;
            if (!mc::begin(label, {long(stride), long(offset), n, at})) continue;
            std::snprintf(mc::g().note, sizeof(mc::g().note), "save and load of %ld cells at index %ld, offset %zu, stride %zu", n, at, offset, stride);
            Mapped buf(stride * MIX_AGG);
            A a(cells.p, at), b(others.p, at + 1);
            for (long i = 0; i < n; ++i) {
                soa_accessor<CELL, 65568, 65568, 2, 0>(cells.p, at + i) << CELL::make(int(at % 1000 + i));
            }
            a.save(buf.p, n, offset, stride);
            for (long i = 0; i < n; ++i) {
                CELL c = CELL::make(int(at % 1000 + i));
                std::size_t s = offset + i;
                double d;
                int k;
                memcpy(&d, buf.p + s * 8, 8);
                memcpy(&k, buf.p + stride * 8 + s * 4, 4);
                MC_CHECK(d == c.d && k == c.i, "buffer: cell %ld is wrong (members d, i)", i);
                for (int e = 0; e < 3; ++e) MC_CHECK(buf.p[stride * (12 + e) + s] == c.c[e], "buffer: cell %ld is wrong (member c[%d])", i, e);
                for (int e = 0; e < 2; ++e) {
                    short v;
                    memcpy(&v, buf.p + stride * (19 + 2 * e) + s * 2, 2);
                    MC_CHECK(v == c.s[e], "buffer: cell %ld is wrong (member s[%d])", i, e);
                }
            }
            b.load(buf.p, n, offset, stride);
            for (long i = 0; i < n; ++i) {
                CELL c;
                soa_accessor<CELL, 65568, 65568, 2, 0>(others.p, at + 1 + i) >> c;
                MC_CHECK(c.is(int(at % 1000 + i)), "loaded cell %ld is %s", i, c.str().c_str());
            }
            mc::g().transitions += 2;
            ++mc::g().traces;
            mc::state(mc::mix(mc::mix(stride, offset), mc::mix(n, at)));
        }
    }
}

// lists of many runs, in several orders, over a grid of many rows
template<typename CELL, typename RUNS, typename GRID>
static void save_load(const GRID& g, GRID& h, const RUNS& from, const RUNS& to, char *buf, std::size_t count)
{
    g.save(from.begin(), from.end(), buf, count);
    h.load(to.begin(), to.end(), buf, count);
}

template<typename CELL>
static void many_runs(const char *label, int dx, int dy, long max_runs)
{
    struct Run { long origin[3]; int n; int length() const { return n; } };
    typedef soa_grid<CELL> Grid;
    long serial = 0;
    const int slots = dx / 4;
    for (long runs : {4L, 5L, 6L, 7L, 8L, 9L, 10L, 12L, 15L, 16L, 17L, 20L, 31L, 32L, 33L, 63L, 64L, 65L, 100L, 127L, 128L, 129L, 255L, 256L, 257L, 511L, 512L, 513L, 1000L, 1023L, 1024L, 1025L, 2047L, 2048L, 2049L, 4095L, 4096L, 4097L, 8193L, 16385L, 32767L, 32768L, 32769L, 65535L, 65536L, 65537L})
    for (int order = 0; order < 4; ++order) for (int lengths = 0; lengths < 3; ++lengths) for (int form = 0; form < 2; ++form) {
        if (runs > max_runs) continue;
        if (runs > 5000 && (order == 1 || form || lengths == 2)) continue;
        if (serial++ % mc::g().shards != mc::g().shard && !mc::g().replay) continue;
        if (!mc::begin(label, {dx, dy, runs, order, lengths, form})) continue;
        std::snprintf(mc::g().note, sizeof(mc::g().note), "list of %ld runs, order %d, lengths %d", runs, order, lengths);
        const int dz = int((runs + slots * dy - 1) / (slots * dy));
        long stride = 1;
        for (long c : {101L, 37L, 13L, 7L, 5L, 3L, 2L}) if (runs % c) { stride = c; break; }
        std::vector<Run> from, to;
        std::size_t sum = 0;
        for (long i = 0; i < runs; ++i) {
            // which of the slots comes i-th
            long k = order == 0 ? i : order == 1 ? runs - 1 - i : i * stride % runs;
            int n = lengths == 0 ? 1 : lengths == 1 ? int(1 + i % 3) : int(i % 2 ? i / 2 % 4 : 0);
            Run r = {{k % slots * 4 + (n < 4 ? k % 2 : 0), k / slots % dy, k / slots / dy}, n};
            to.push_back(r);
            if (order == 3) { r.origin[0] = 1 + i % 3; r.origin[1] = i % 2; r.origin[2] = 0; } // overlapping sources
            from.push_back(r);
            sum += n;
        }
        const std::size_t count = sum + order;
        Grid g(dx, dy, dz), h(dx, dy, dz);
        std::vector<int> want(std::size_t(dx) * dy * dz, -1);
        for (int z = 0; z < dz; ++z) for (int y = 0; y < dy; ++y) {
            std::vector<CELL> row;
            for (int x = 0; x < dx; ++x) row.push_back(CELL::make((z * dy + y) * dx + x));
            g.set(0, y, z, row.data(), dx);
        }
        h.broadcast(0, 0, 0, CELL::make(77), 1);
        want[0] = 77;
        std::vector<char> buf(count * MIX_AGG + 16, char(0x5b));
        if (form == 0) save_load<CELL>(g, h, from, to, buf.data() + 8, count);
        else save_load<CELL>(g, h, std::list<Run>(from.begin(), from.end()), std::list<Run>(to.begin(), to.end()), buf.data() + 8, count);
        std::size_t at = 0;
        const char *p = buf.data() + 8;
        for (long i = 0; i < runs; ++i) for (int q = 0; q < from[i].n; ++q, ++at) {
            int t = int((from[i].origin[2] * dy + from[i].origin[1]) * dx + from[i].origin[0] + q);
            want[(to[i].origin[2] * dy + to[i].origin[1]) * dx + to[i].origin[0] + q] = t;
            CELL c = CELL::make(t);
            double d;
            int k;
            memcpy(&d, p + at * 8, 8);
            memcpy(&k, p + count * 8 + at * 4, 4);
            MC_CHECK(d == c.d && k == c.i, "buffer: cell %zu (run %ld) is wrong (members d, i)", at, i);
            for (int e = 0; e < 3; ++e) MC_CHECK(p[count * (12 + e) + at] == c.c[e], "buffer: cell %zu (run %ld) is wrong (member c[%d])", at, i, e);
            for (int e = 0; e < 2; ++e) {
                short v;
                memcpy(&v, p + count * (19 + 2 * e) + at * 2, 2);
                MC_CHECK(v == c.s[e], "buffer: cell %zu (run %ld) is wrong (member s[%d])", at, i, e);
            }
        }
        for (; at < count; ++at) for (int e = 0; e < 8; ++e) MC_CHECK(p[at * 8 + e] == 0x5b, "save wrote to the unused slot %zu", at);
        for (int i = 0; i < 8; ++i) MC_CHECK(buf[i] == 0x5b && buf[buf.size() - 1 - i] == 0x5b, "save wrote outside of the buffer");
        for (int z = 0; z < dz; ++z) for (int y = 0; y < dy; ++y) for (int x = 0; x < dx; ++x) {
            int t = want[(std::size_t(z) * dy + y) * dx + x];
            CELL c = h.get(x, y, z);
            MC_CHECK(token_ok(c, t), "cell (%d,%d,%d) is %s, expected %s", x, y, z, c.str().c_str(), token_str<CELL>(t).c_str());
        }
        mc::g().transitions += 2 * runs;
        ++mc::g().traces;
        mc::state(mc::mix(mc::mix(runs, order), mc::mix(lengths, form)));
    }
}

static int huge()
{
    if (!ledger::huge_possible()) { mc::extra("huge_extents_not_possible_here", 1); return mc::finish(); }
    if (mc::g().shard == 0 || mc::g().replay) far_accessors<soa_accessor<MixH, 65568, 65568, 2, 0> >("far_accessors");
    large::transfers<MixH, MIX_AGG>("huge_transfer", 40, 3, 4, 2, 3);
    large::transfers<MixH, MIX_AGG>("huge_transfer_long", 65560, 2, 2, 1, 1);
    large::transfers<MixHU, MIX_AGG>("huge_transfer_uniform", 2050, 3, 3, 2, 2);
    return mc::finish();
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
#ifdef HUGE_EXTENTS
    return huge();
#endif
    large::transfers<MixD, MIX_AGG>("transfer_4130", 4130, 1, 1, 0, 0);
    large::transfers<MixD, MIX_AGG>("transfer_200x3", 200, 3, 1, 1, 0);
    large::transfers<MixD, MIX_AGG>("transfer_70x65", 70, 65, 1, 64, 0);
    large::transfers<MixD, MIX_AGG>("transfer_65x3x3", 65, 3, 3, 1, 1);
    large::transfers<MixB, MIX_AGG>("transfer_131080", 131080, 1, 1, 0, 0);
    large::transfers<MixB2, MIX_AGG>("transfer_65600x2", 65600, 2, 1, 1, 0);
    many_runs<MixD>("many_runs", 70, 33, mc::thorough() ? 66000 : 33000);
    many_runs<MixB2>("many_runs_long_rows", 4100, 2, 2049);
    values::transfers("bit_patterns");
    mc::sample("transfer_4130: save and load of 4097 cells at (33,0,0) of a 4130x1x1 grid as two runs");
    return mc::finish();
}
