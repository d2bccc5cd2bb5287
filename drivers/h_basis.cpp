// Real quadrature rules and bases, dumped. argv: what ...
#include "general_definitions.hpp"
#include "integration/integrations_1D.hpp"
#include "integration/integrations_2D.hpp"
#include "basis/bases_1D.hpp"
#include "basis/bases_2D.hpp"
#include <iostream>
template <typename M> static void pm(const char* t, const M& m) {
    std::printf("%s %zu %zu", t, (size_t)rows(m), (size_t)columns(m));
    for (size_t i = 0; i < (size_t)rows(m); ++i) for (size_t j = 0; j < (size_t)columns(m); ++j) std::printf(" %.17g", (double)m(i, j));
    std::printf("\n");
}
int main() {
    std::string c;
    while (std::cin >> c) {
        uint p; std::cin >> p;
        if (c == "q1") { Integration::GaussLegendre_1D I; auto r = I.GetRule(p); std::printf("Q1 %u %u %zu %zu", p, I.GetNumGP(p), (size_t)r.first.size(), r.second.size()); for (size_t i = 0; i < r.second.size(); ++i) std::printf(" %.17g %.17g", r.first[i], r.second[i][0]); std::printf("\n"); }
        else if (c == "q2") { Integration::Dunavant_2D I; auto r = I.GetRule(p); std::printf("Q2 %u %u %zu %zu", p, I.GetNumGP(p), (size_t)r.first.size(), r.second.size()); for (size_t i = 0; i < r.second.size(); ++i) std::printf(" %.17g %.17g %.17g", r.first[i], r.second[i][0], r.second[i][1]); std::printf("\n"); }
        else if (c == "b1") { uint n; std::cin >> n; AlignedVector<Point<1>> P(n); for (auto& x : P) std::cin >> x[0];
            Basis::Legendre_1D B; pm("PHI", B.GetPhi(p, P)); auto d = B.GetDPhi(p, P); pm("D1", d[0]); pm("MINV", B.GetMinv(p)); }
        else if (c == "b2") { uint n, lin; std::cin >> n >> lin; AlignedVector<Point<2>> P(n); for (auto& x : P) std::cin >> x[0] >> x[1];
            Basis::Dubiner_2D B; pm("PHI", B.GetPhi(p, P)); auto d = B.GetDPhi(p, P); pm("D1", d[0]); pm("D2", d[1]); pm("MINV", B.GetMinv(p));
            if (lin) { pm("BL", B.GetBasisLinearT(p)); pm("LB", B.GetLinearBasisT(p)); } }
        std::fflush(stdout);
    }
    std::printf("END\n");
}
