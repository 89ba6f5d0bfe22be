// P01, large instances: runs of every boundary length at boundary positions of
// long rows, all of the grid's neighbouring rows compared too.
#include "large.hpp"
#include "values.hpp"

// extents beyond 2^32 cells (address space is reserved only)
static int huge()
{
    if (!ledger::huge_possible()) { mc::extra("huge_extents_not_possible_here", 1); return mc::finish(); }
    for (int y = 0; y < 3; ++y) for (int z = 0; z < 4; ++z) {
        large::rows<MixH>(("huge_row_" + std::to_string(y) + std::to_string(z)).c_str(), 40, 3, 4, y, z);
    }
    large::rows<MixH>("huge_row_long", 65560, 2, 2, 1, 1);
    large::rows<MixHU>("huge_uniform", 2050, 3, 3, 2, 2);
    return mc::finish();
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
#ifdef HUGE_EXTENTS
    return huge();
#endif
    large::rows<MixD>("row_4130", 4130, 1, 1, 0, 0);
    large::rows<MixD>("row_200x3", 200, 3, 1, 1, 0);
    large::rows<MixD>("row_70x65", 70, 65, 1, 64, 0);
    large::rows<MixD>("row_33x33x33", 33, 33, 33, 32, 32);
    large::rows<MixD>("row_65x3x3", 65, 3, 3, 1, 1);
    large::rows<MixB>("row_131080", 131080, 1, 1, 0, 0);
    large::rows<MixB2>("row_65600x2", 65600, 2, 1, 1, 0);
    values::writes("bit_patterns");
    mc::sample("row_4130: set of a run of 4097 cells at (33,0,0) of a 4130x1x1 grid");
    return mc::finish();
}
