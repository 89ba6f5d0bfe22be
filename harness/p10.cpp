// P10: the growable vector against a growable sequence.
#include "large.hpp"
#include "refuse.hpp"
#include "values.hpp"

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool t = mc::thorough();
    typedef VecSys<VecCfg1<Mix1>, false, true> Vec2;
    typedef VecSys<VecCfg1<Mix1, 1>, false, true> Vec1;
    typedef VecSys<VecCfg3<MixN, 4, 1>, false, true> VecN;
    typedef VecSys<VecCfg3<Mix3, 4, 1>, false, true> Vec3;
    typedef VecSys<VecCfg1<Trk1, 1>, false, true> VecT;
    typedef VecSys<VecCfgD, false, true> VecD;
    mc::explore<Vec2>("two_vectors", 0, t ? 3 : 2, false);
    mc::explore<Vec2>("two_vectors", 1, t ? 5 : 3, true);
    mc::explore<Vec1>("vector", 0, t ? 4 : 3, false);
    mc::explore<Vec1>("vector", 1, t ? 9 : 5, true);
    mc::explore<VecN>("vector_of_3d_type", 0, t ? 4 : 3, false);
    mc::explore<Vec3>("vector_of_uniform3d_type", 0, t ? 4 : 3, false);
    mc::explore<VecT>("vector_nontrivial", 0, t ? 4 : 3, false);
    mc::explore<VecD>("vector_default_sizes", 0, t ? 3 : 2, false);
    vector_parameters<VecCfg1<Mix1> >("vector_parameters");
    large::vectors<MixD>("large_vectors", t ? 4200 : 1100);
    large::vectors<MixB>("large_vectors_beyond_16_bits", 70000);
    vector_parameters<VecCfg1<Wide1> >("vector_parameters_wide");
    refuse::vectors<Mix1>("huge_requests", 9);
    values::vectors("bit_patterns");
    return mc::finish();
}
