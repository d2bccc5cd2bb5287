#ifndef VERIF_SWE_SOURCE_FUNCTIONS_HPP
#define VERIF_SWE_SOURCE_FUNCTIONS_HPP
#include "general_definitions.hpp"
#include "problem/SWE/swe_definitions.hpp"
#include "problem/SWE/problem_function_files/verif_fn.hpp"
namespace SWE {
inline StatVector<double, SWE::n_variables> source_q(const double t, const Point<2>& pt) {
    double s[3];
    vfn::source(t, pt[GlobalCoord::x], pt[GlobalCoord::y], s);
    return StatVector<double, SWE::n_variables>{s[0], s[1], s[2]};
}
}
#endif
