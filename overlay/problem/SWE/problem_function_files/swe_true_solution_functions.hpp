#ifndef VERIF_SWE_TRUE_FUNCTIONS_HPP
#define VERIF_SWE_TRUE_FUNCTIONS_HPP
#include "general_definitions.hpp"
#include "problem/SWE/swe_definitions.hpp"
#include "problem/SWE/problem_function_files/verif_fn.hpp"
namespace SWE {
inline StatVector<double, SWE::n_variables> true_q(const double t, const Point<2>& pt) {
    vfn::D q[3];
    vfn::eval(t, pt[GlobalCoord::x], pt[GlobalCoord::y], q);
    return StatVector<double, SWE::n_variables>{q[0].v, q[1].v, q[2].v};
}
}
#endif
