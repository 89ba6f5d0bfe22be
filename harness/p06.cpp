// P06: grids have value semantics. All histories of construct / copy / assign /
// swap / resize / write over several grids of all shapes, empty ones included.
#include "large.hpp"
#include "values.hpp"

// extents beyond 2^32 cells (address space is reserved only)
static int huge()
{
    if (!ledger::huge_possible()) { mc::extra("huge_extents_not_possible_here", 1); return mc::finish(); }
    bool t = mc::thorough();
    mc::explore<GridSys<GridCfgHuge<MixH>, false, false> >("huge_extents", 0, t ? 3 : 2, false);
    mc::explore<GridSys<GridCfgHuge<MixH>, false, false> >("huge_extents", 1, t ? 5 : 3, true);
    mc::explore<GridSys<GridCfgHuge<MixHA>, false, false> >("huge_extents_asymmetric", 0, 2, false);
    shape_pairs<GridCfgHuge<MixH>, false>("huge_extents_pairs");
    return mc::finish();
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
#ifdef HUGE_EXTENTS
    return huge();
#endif
    bool t = mc::thorough();
    typedef GridSys<GridCfg3D<MixN, MIX_AGG>, false, false> Sys3;
    typedef GridSys<GridCfg3D<MixN, MIX_AGG, 3>, false, false> Sys33;
    typedef GridSys<GridCfg3D<MixA, MIX_AGG>, false, false> SysA;
    typedef GridSys<GridCfg1D<Mix1, MIX_AGG>, false, false> Sys1;
    typedef GridSys<GridCfgDefault, false, false> SysD;
    mc::explore<Sys3>("custom3d", 0, t ? 4 : 3, false);
    mc::explore<Sys3>("custom3d", 1, t ? 8 : 5, true);
    mc::explore<Sys33>("three_grids", 0, t ? 3 : 2, false);
    mc::explore<Sys33>("three_grids", 1, t ? 6 : 4, true);
    mc::explore<SysA>("asymmetric", 0, t ? 4 : 3, false);
    mc::explore<Sys1>("uniform1d", 0, t ? 4 : 3, false);
    mc::explore<SysD>("default_sizes", 0, t ? 4 : 3, false);
    shape_pairs<AllShapes3D<MixN, MIX_AGG>, false>("shape_pairs");
    shape_pairs<AllShapes3D<MixA, MIX_AGG>, false>("shape_pairs_asymmetric");
    shape_pairs<AllShapesUniform<MixU2, MIX_AGG, 2>, false>("shape_pairs_uniform2d");
    shape_pairs<AllShapesUniform<MixU3, MIX_AGG, 3>, false>("shape_pairs_uniform3d");
    shape_pairs<AllShapes3D<Wide, WIDE_AGG>, false>("shape_pairs_wide");
    large::resizes<MixD>("large_resizes");
    large::copies<MixD>("large_copies", {{1, 1, 1}, {33, 1, 1}, {4200, 1, 1}, {32, 32, 1}, {40, 33, 1}, {70, 3, 1}, {3, 65, 1}, {32, 32, 32}, {33, 20, 3}, {64, 2, 2}, {2, 2, 65}, {31, 33, 32}});
    values::copies("bit_patterns");
    return mc::finish();
}
