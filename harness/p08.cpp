// P08: every refused request and every allocation failure inside every history.
#include "refuse.hpp"

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool t = mc::thorough();
    typedef GridSys<GridCfg3D<TrkN, TRK_AGG>, true, true> Grid3;
    typedef GridSys<GridCfg1D<Trk1, TRK_AGG>, true, true> Grid1;
    typedef GridSys<GridCfg3D<MixN, MIX_AGG>, true, true> GridM;
    typedef VecSys<VecCfg1<Trk1>, true, true> Vec1;
    typedef VecSys<VecCfg1<Mix1, 1>, true, true> VecM;
    typedef ArrSys<Trk1, TRK_AGG, true> Arr;
    mc::explore<Grid3>("grid", 0, t ? 3 : 2, false);
    mc::explore<Grid3>("grid", 1, t ? 5 : 3, true);
    mc::explore<Grid1>("grid1d", 0, t ? 3 : 2, false);
    mc::explore<GridM>("grid_pod", 0, t ? 3 : 2, false);
    mc::explore<Vec1>("vector", 0, t ? 3 : 2, false);
    mc::explore<VecM>("vector_pod", 0, t ? 4 : 2, false);
    mc::explore<VecM>("vector_pod", 1, t ? 7 : 4, true);
    mc::explore<Arr>("array", 0, t ? 3 : 2, false);
    mc::explore<Arr>("array", 1, t ? 5 : 3, true);
    refuse::arrays<Mix1, 3, 5>("huge_array_requests");
    refuse::arrays<Trk1, 5, 2>("huge_array_requests_nontrivial");
    refuse::vectors<Mix1>("huge_vector_requests", 9);
    refuse::vectors<Mix3>("huge_vector_requests_3d", 4);
    refuse::grids<MixN>("huge_grid_requests", {{0, 0, 0}, {1, 1, 1}, {2, 1, 1}, {3, 2, 2}, {4, 2, 3}}, Shape{4, 2, 3});
    refuse::grids<MixU3>("huge_grid_requests_uniform", {{1, 1, 1}, {3, 3, 3}}, Shape{3, 3, 3});
    refuse::grids<TrkN>("huge_grid_requests_nontrivial", {{3, 2, 2}}, Shape{4, 2, 3});
    return mc::finish();
}
