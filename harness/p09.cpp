// P09: the fixed-capacity array against a bounded sequence.
#include "large.hpp"
#include "refuse.hpp"
#include "values.hpp"

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool t = mc::thorough();
    typedef ArrSys<Mix1, MIX_AGG, false> Arr;
    typedef ArrSys<Trk1, TRK_AGG, false> ArrT;
    mc::explore<Arr>("array", 0, t ? 4 : 3, false);
    mc::explore<Arr>("array", 1, t ? 6 : 4, true);
    mc::explore<ArrT>("array_nontrivial", 0, t ? 3 : 2, false);
    array_parameters<Mix1, MIX_AGG>("array_parameters");
    array_parameters<Trk1, TRK_AGG>("array_parameters_nontrivial");
    large::arrays<Mix1, 300, 300>("large_arrays");
    large::arrays<Mix1, 300, 517>("large_arrays");
    large::arrays<Mix1, 517, 300>("large_arrays");
    large::arrays<Mix1, 2100, 1030>("large_arrays");
    large::arrays<Mix1, 66000, 66000>("large_arrays");
    array_parameters<Wide1, WIDE_AGG>("array_parameters_wide");
    refuse::arrays<Mix1, 3, 5>("huge_requests");
    refuse::arrays<Mix1, 5, 2>("huge_requests");
    values::arrays("bit_patterns");
    return mc::finish();
}
