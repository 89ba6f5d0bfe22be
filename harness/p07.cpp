// P07: lifetimes of member objects and storage in all container histories.
#include "containers.hpp"

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool t = mc::thorough();
    typedef GridSys<GridCfg3D<TrkN, TRK_AGG>, false, false> Grid3;
    typedef GridSys<GridCfg3D<TrkA, TRK_AGG>, false, false> GridA;
    typedef GridSys<GridCfg1D<Trk1, TRK_AGG>, false, false> Grid1;
    typedef VecSys<VecCfg1<Trk1>, false, false> Vec1;
    typedef VecSys<VecCfg1<Trk1, 1>, false, false> Vec11;
    typedef ArrSys<Trk1, TRK_AGG, false> Arr;
    mc::explore<Grid3>("grid", 0, t ? 4 : 3, false);
    mc::explore<Grid3>("grid", 1, t ? 7 : 5, true);
    mc::explore<Grid1>("grid1d", 0, t ? 4 : 3, false);
    mc::explore<GridA>("grid_asymmetric", 0, t ? 4 : 2, false);
    mc::explore<Vec1>("vector", 0, t ? 4 : 3, false);
    mc::explore<Vec11>("vector", 1, t ? 5 : 3, false);
    mc::explore<Vec11>("vector", 2, t ? 9 : 6, true);
    mc::explore<Arr>("array", 0, t ? 3 : 2, false);
    mc::explore<Arr>("array", 1, t ? 5 : 3, true);
    shape_pairs<AllShapes3D<TrkN, TRK_AGG>, false>("shape_pairs");
    array_parameters<Trk1, TRK_AGG>("array_parameters");
    vector_parameters<VecCfg1<Trk1> >("vector_parameters");
    return mc::finish();
}
