// Real flux, Jacobian and stabilization functions at generated states. stdin: gravity n, then n rows "ze qx qy bath nx ny"; stdout: one line per function.
#include "general_definitions.hpp"
#include "problem/SWE/swe_definitions.hpp"
#include "problem/SWE/problem_flux/swe_flux.hpp"
#include "problem/SWE/problem_jacobian/swe_jacobian.hpp"
#include "problem/SWE/problem_stabilization_parameters/swe_stabilization_params.hpp"
#include <iostream>
using namespace SWE;
typedef AlignedVector<StatMatrix<double, n_variables, n_variables>> Mats;
template <typename M> static void put(const char* s, const M& m) {
    std::printf("%s", s);
    for (uint j = 0; j < columns(m); ++j) for (uint i = 0; i < rows(m); ++i) std::printf(" %.17g", (double)m(i, j));   // per point
    std::printf("\n");
}
static void putm(const char* s, const Mats& m) {
    std::printf("%s", s);
    for (auto& a : m) for (uint i = 0; i < 3; ++i) for (uint j = 0; j < 3; ++j) std::printf(" %.17g", (double)a(i, j));
    std::printf("\n");
}
int main() {
    double g; uint n;
    while (std::cin >> g >> n) {
        Global::g = g;
        HybMatrix<double, n_variables> q(n_variables, n); HybMatrix<double, n_auxiliaries> aux(n_auxiliaries, n); HybMatrix<double, n_dimensions> nn(n_dimensions, n);
        for (uint k = 0; k < n; ++k) {
            double b; std::cin >> q(0, k) >> q(1, k) >> q(2, k) >> b >> nn(0, k) >> nn(1, k);
            aux(Auxiliaries::bath, k) = b; aux(Auxiliaries::h, k) = q(0, k) + b; aux(Auxiliaries::sp, k) = 1.0;
        }
        HybMatrix<double, n_variables> fx(n_variables, n), fy(n_variables, n), fn(n_variables, n), fc(n_variables, n);
        HybMatrix<double, n_variables * n_variables> dx(n_variables * n_variables, n), dy(n_variables * n_variables, n), dn(n_variables * n_variables, n);
        get_F(q, aux, fx, fy); put("Fx", fx); put("Fy", fy);
        get_Fn(q, aux, nn, fn); put("Fn", fn);
        for (uint k = 0; k < n; ++k) get_Fn(Global::g, column(q, k), column(aux, k), column(nn, k), column(fc, k));
        put("Fc", fc);
        get_dF_dq(q, aux, dx, dy); put("dFx", dx); put("dFy", dy);
        get_dFn_dq(q, aux, nn, dn); put("dFn", dn);
        Mats m(n);
#define ONE(f) get_##f(q, aux, nn, m); putm(#f, m);
        ONE(A) ONE(dA_dze) ONE(dA_dqx) ONE(dA_dqy)
        ONE(absA) ONE(dabsA_dze) ONE(dabsA_dqx) ONE(dabsA_dqy)
        ONE(Aplus) ONE(dAplus_dze) ONE(dAplus_dqx) ONE(dAplus_dqy)
        ONE(Aminus) ONE(dAminus_dze) ONE(dAminus_dqx) ONE(dAminus_dqy)
        ONE(tau_LF) ONE(dtau_dze_LF) ONE(dtau_dqx_LF) ONE(dtau_dqy_LF)
        for (uint k = 0; k < n; ++k) get_tau_LF(Global::g, column(q, k), column(aux, k), column(nn, k), m[k]);
        putm("tauc", m);
    }
    std::printf("END\n");
}
