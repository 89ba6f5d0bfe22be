// P19: registered types of every supported number of members expose them all.
#include "mc.hpp"
#include <libflatarray/flat_array.hpp>

using namespace LibFlatArray;
static const int X = 3, Y = 2, Z = 2, CELLS = X * Y * Z;

template<typename CELL>
struct Test
{
    typedef soa_accessor<CELL, X, Y, Z, 0> acc;
    typedef const_soa_accessor<CELL, X, Y, Z, 0> cacc;
    std::vector<char> mem;
    std::size_t offset;
    int n;
    int seen;

    explicit Test(int n) : mem(CELLS * 1024), offset(0), n(n), seen(0)
    {
        mc::begin("members", {n});
        MC_CHECK(int(number_of_members<CELL>::VALUE) == n, "number_of_members is %d, expected %d", int(number_of_members<CELL>::VALUE), n);
    }
    void done()
    {
        MC_CHECK(seen == n, "harness");
        MC_CHECK(std::size_t(aggregated_member_size<CELL>::VALUE) * CELLS == offset, "aggregated member size is %d, expected %d", int(aggregated_member_size<CELL>::VALUE), int(offset / CELLS));
        mc::count_label("nontrivial");
    }
};

// writes through a cell, reads through both accessors and at the address the
// layout demands
#define MEMBER(CELL, TYPE, NAME, I)                                     \
    {                                                                   \
        for (int c = 0; c < CELLS; ++c) {                               \
            std::memset(&t.mem[0], 0x11, t.mem.size());                 \
            Test<CELL>::acc a(&t.mem[0], c);                            \
            Test<CELL>::cacc ca(&t.mem[0], c);                          \
            CELL cell;                                                  \
            std::memset(&cell, 0x22, sizeof(cell));                     \
            cell.NAME = TYPE(I + 3);                                    \
            a << cell;                                                  \
            MC_CHECK(a.NAME() == TYPE(I + 3), "member %d of %d: not stored", I, t.n); \
            MC_CHECK(ca.NAME() == TYPE(I + 3), "member %d of %d: const accessor reads something else", I, t.n); \
            MC_CHECK((char *)&a.NAME() == &t.mem[t.offset + c * sizeof(TYPE)], "member %d of %d: wrong address", I, t.n); \
            CELL back;                                                  \
            std::memset(&back, 0x33, sizeof(back));                     \
            a >> back;                                                  \
            MC_CHECK(back.NAME == TYPE(I + 3), "member %d of %d: not read back", I, t.n); \
            a.NAME() = TYPE(I + 9);                                     \
            ca >> back;                                                 \
            MC_CHECK(back.NAME == TYPE(I + 9), "member %d of %d: not read back by the const accessor", I, t.n); \
            mc::step(5);                                                \
        }                                                               \
        t.offset += CELLS * sizeof(TYPE);                               \
        ++t.seen;                                                       \
    }

#include "types.inc"

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    run_all();
    return mc::finish();
}
