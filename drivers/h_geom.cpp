// Real elements, boundaries, interfaces and skeleton edges over given triangles; everything they compute for all monomials is printed.
#include "general_definitions.hpp"
#include "geometry/mesh_definitions.hpp"
#include "geometry/mesh_skeleton_definitions.hpp"
#include <iostream>
#include <limits>
struct Dat {
    uint nnode = 0, nvrtx = 0, nbound = 0, ndof = 0, ngp = 0; std::array<uint, 3> nb{{0, 0, 0}};
    void set_nnode(uint v) { nnode = v; } void set_nvrtx(uint v) { nvrtx = v; } void set_nbound(uint v) { nbound = v; } void set_ndof(uint v) { ndof = v; }
    void set_ngp_internal(uint v) { ngp = v; } void set_ngp_boundary(uint b, uint v) { nb[b] = v; } uint get_ndof() { return ndof; }
};
struct EDat { uint ndof = 0, ngp = 0; void set_ndof(uint v) { ndof = v; } void set_ngp(uint v) { ngp = v; } void initialize() {} uint get_ndof() { return ndof; } };
struct Nothing {};
using MasterT = Master::Triangle<Basis::Dubiner_2D, Integration::Dunavant_2D>;
using ElementT = Geometry::Element<2, MasterT, Shape::StraightTriangle, Dat>;
using RawT = Geometry::RawBoundary<1, Dat>;
using BoundaryT = Geometry::Boundary<1, Integration::GaussLegendre_1D, Dat, Nothing>;
using InterfaceT = Geometry::Interface<1, Integration::GaussLegendre_1D, Dat, Nothing>;
using EdgeBT = Geometry::EdgeBoundary<1, Basis::Legendre_1D, EDat, BoundaryT>;
using EdgeIT = Geometry::EdgeInterface<1, Basis::Legendre_1D, EDat, InterfaceT>;
static std::string pre;
template <typename M> static void pm(const std::string& t, const M& mm) {
    auto m = mm.eval();
    std::printf("%s%s %zu %zu", pre.c_str(), t.c_str(), (size_t)m.rows(), (size_t)m.cols());
    for (long i = 0; i < (long)m.rows(); ++i) for (long j = 0; j < (long)m.cols(); ++j) std::printf(" %.17g", (double)m(i, j));
    std::printf("\n");
}
template <typename P> static void pp(const std::string& t, const P& pts) {
    std::printf("%s%s %zu 2", pre.c_str(), t.c_str(), pts.size());
    for (auto& x : pts) std::printf(" %.17g %.17g", (double)x[0], (double)x[1]);
    std::printf("\n");
}
static void ps(const std::string& t, const std::vector<double>& v) { std::printf("%s%s 1 %zu", pre.c_str(), t.c_str(), v.size()); for (double x : v) std::printf(" %.17g", x); std::printf("\n"); }
int main() {
    uint p, D, ne, bin, bex; 
    while (std::cin >> p >> D >> ne >> bin >> bex) {
        double x0, y0, s; std::cin >> x0 >> y0 >> s;
        std::vector<std::array<double, 9>> X(ne); for (auto& t : X) for (auto& v : t) std::cin >> v;
        uint nq; std::cin >> nq; AlignedVector<Point<2>> R(nq); for (auto& r : R) std::cin >> r[0] >> r[1];
        uint ns; std::cin >> ns; AlignedVector<Point<2>> G(ns); for (auto& r : G) std::cin >> r[0] >> r[1];
        std::printf("CASE\n");
        auto f = [=](const Point<2>& pt) {
            DynVector<double> v((D + 1) * (D + 2) / 2); double a = (pt[0] - x0) / s, b = (pt[1] - y0) / s; uint k = 0;
            for (uint d = 0; d <= D; ++d) for (uint i = 0; i <= d; ++i) v[k++] = std::pow(a, (int)(d - i)) * std::pow(b, (int)i);
            return v;
        };
        MasterT master(p); pre = ""; pm("PHI", master.basis.GetPhi(p, R)); auto dd = master.basis.GetDPhi(p, R); pm("DPHI0", dd[0]); pm("DPHI1", dd[1]);
        std::vector<std::unique_ptr<ElementT>> E; std::vector<DynMatrix<double>> U;
        std::vector<std::map<uchar, std::map<std::pair<uint, uint>, RawT>>> raw(ne);
        for (uint e = 0; e < ne; ++e) {
            AlignedVector<Point<3>> nc(3); for (uint k = 0; k < 3; ++k) for (uint c = 0; c < 3; ++c) nc[k][c] = X[e][3 * k + c];
            std::vector<uint> node{10 * e + 0, 10 * e + 1, 10 * e + 2}, nei{7, 8, 9}; std::vector<uchar> bt{0, 0, 0};
            E.emplace_back(new ElementT(e, master, std::move(nc), std::move(node), std::move(nei), std::move(bt)));
            auto& el = *E.back(); auto& sh = el.GetShape(); pre = "e" + std::to_string(e) + ".";
            ps("META", {(double)el.data.nnode, (double)el.data.nvrtx, (double)el.data.nbound, (double)el.data.ndof, (double)el.data.ngp});
            { std::vector<double> v; for (auto& n : sh.nodal_coordinates) for (int c = 0; c < 3; ++c) v.push_back(n[c]); ps("NODES", v); }
            ps("AREA", {sh.GetArea()}); ps("RADIUS", {sh.GetRadius()}); ps("PERIM", {sh.GetPerimeter()}); ps("LEN", sh.GetLengths());
            { auto b = sh.GetBarycentricCoordinates(); ps("BARY", {b[0], b[1]}); } pp("MID", sh.GetMidpointCoordinates());
            ps("JDET", {sh.GetJdet(R)[0]}); pm("JINV", sh.GetJinv(R)[0]);
            pm("PSI", sh.GetPsi(R)); { auto d = sh.GetDPsi(R); pm("DPSI0", d[0]); pm("DPSI1", d[1]); }
            auto g = sh.LocalToGlobalCoordinates(R); pp("L2G", g); pp("G2L", sh.GlobalToLocalCoordinates(g));
            { std::vector<double> v; for (auto& q : G) v.push_back(sh.ContainsPoint(q) ? 1 : 0); ps("CONT", v); }
            auto F = el.ComputeFgp(f); pm("INT", el.Integration(F)); pm("INTPHI", el.IntegrationPhi(F)); pm("INTD0", el.IntegrationDPhi(0, F)); pm("INTD1", el.IntegrationDPhi(1, F));
            for (uint i = 0; i < master.ndof; ++i) { std::string si = std::to_string(i); pm("INTPHI1." + si, el.IntegrationPhi(i, F)); for (uint d = 0; d < 2; ++d) pm("INTD1." + std::to_string(d) + "." + si, el.IntegrationDPhi(d, i, F));
                for (uint j = 0; j < master.ndof; ++j) { std::string sj = std::to_string(j); pm("PP." + si + "." + sj, el.IntegrationPhiPhi(i, j, F)); for (uint d = 0; d < 2; ++d) pm("PD" + std::to_string(d) + "." + si + "." + sj, el.IntegrationPhiDPhi(i, d, j, F)); } }
            DynMatrix<double> u = el.L2ProjectionF(f); pm("PROJ", u); pm("PROJ2", el.L2Projection(F)); pm("MINV", el.ApplyMinv(el.IntegrationPhi(F))); U.push_back(u);
            // values at the element's own quadrature points, with the points themselves
            pp("GP", el.gp_global_coordinates); pm("UGP", el.ComputeUgp(u)); pm("DU0", el.ComputeDUgp(0, u)); pm("DU1", el.ComputeDUgp(1, u));
            DynMatrix<double> nod(2, 3); for (uint k = 0; k < 3; ++k) { nod(0, k) = X[e][3 * k + 2]; nod(1, k) = 1.0 + k * k; }
            if (p) {
                pm("NPROJ", el.L2ProjectionNode(nod)); pm("NGP", el.ComputeNodalUgp(nod)); pm("ND0", el.ComputeNodalDUgp(0, nod)); pm("ND1", el.ComputeNodalDUgp(1, nod));
                pm("LGP", el.ComputeLinearUgp(nod)); pm("LD0", el.ComputeLinearDUgp(0, nod)); pm("LD1", el.ComputeLinearDUgp(1, nod)); pm("LB", el.ComputeLinearUbaryctr(nod)); pm("LDB0", el.ComputeLinearDUbaryctr(0, nod)); pm("LDB1", el.ComputeLinearDUbaryctr(1, nod));
                pm("LM", el.ComputeLinearUmidpts(nod)); pm("LV", el.ComputeLinearUvrtx(nod)); pm("L2B", el.ProjectLinearToBasis(nod)); DynMatrix<double> lb = el.ProjectLinearToBasis(nod); pm("B2L", el.ProjectBasisToLinear(lb)); pm("U2L", el.ProjectBasisToLinear(u));
            }
            { AlignedVector<Point<3>> pts(5); Array2D<uint> cells; el.InitializeVTK(pts, cells); std::printf("%sVTKP %zu 2", pre.c_str(), pts.size() - 5); for (size_t i = 5; i < pts.size(); ++i) std::printf(" %.17g %.17g", pts[i][0], pts[i][1]); std::printf("\n");
              std::printf("%sVTKC %zu 3", pre.c_str(), cells.size()); for (auto& c : cells) std::printf(" %u %u %u", c[1] - 5, c[2] - 5, c[3] - 5); std::printf("\n");
              AlignedVector<DynVector<double>> cd, pd; el.WriteCellDataVTK(u, cd); el.WritePointDataVTK(u, pd);
              DynMatrix<double> a(u.rows(), cd.size()), b(u.rows(), pd.size()); for (size_t i = 0; i < cd.size(); ++i) a.col(i) = cd[i]; for (size_t i = 0; i < pd.size(); ++i) b.col(i) = pd[i]; pm("VTKCD", a); pm("VTKPD", b); }
            { auto g2 = g; el.SetSurveyPoints(g2); AlignedVector<DynVector<double>> sd; el.WriteSurveyPointData(u, sd); DynMatrix<double> a(u.rows(), sd.size()); for (size_t i = 0; i < sd.size(); ++i) a.col(i) = sd[i]; pm("SURV", a); }
            { DynMatrix<double> z = DynMatrix<double>::Zero(u.rows(), u.cols()); auto f2 = [&](const Point<2>& pt) { auto v = f(pt); for (int k = 10; k < (int)v.size(); ++k) v[k] = 0; return v; }; ps("RESL2", {el.ComputeResidualL2(f2, z)}); }
            el.CreateRawBoundaries(raw[e]);
        }
        for (uint e = 0; e < ne; ++e) for (uint b = 0; b < 3; ++b) {
            RawT r(raw[e][0].at(std::pair<uint, uint>{e, b})); pre = "b" + std::to_string(e) + std::to_string(b) + ".";
            BoundaryT B(std::move(r)); EdgeBT EB(B), EC(B, false);
            pm("NRM", B.surface_normal); pp("GP", B.gp_global_coordinates); ps("NODE", std::vector<double>(B.GetNodeID().begin(), B.GetNodeID().end())); ps("SJ", {E[e]->GetShape().GetSurfaceJ(b, R)[0]}); ps("NB", {(double)E[e]->data.nb[b]});
            auto F = B.ComputeFgp(f); pm("F", F); pm("U", B.ComputeUgp(U[e])); pm("INT", B.Integration(F)); pm("INTPHI", B.IntegrationPhi(F));
            for (uint i = 0; i < master.ndof; ++i) { pm("INTPHI1." + std::to_string(i), B.IntegrationPhi(i, F)); for (uint j = 0; j < master.ndof; ++j) pm("PP." + std::to_string(i) + "." + std::to_string(j), B.IntegrationPhiPhi(i, j, F)); }
            DynMatrix<double> nod(1, 3), bn(1, 2); for (uint k = 0; k < 3; ++k) nod(0, k) = X[e][3 * k + 2]; bn(0, 0) = X[e][3 * ((b + 1) % 3) + 2]; bn(0, 1) = X[e][3 * ((b + 2) % 3) + 2];
            pm("NGP", B.ComputeNodalUgp(nod)); pm("BNGP", B.ComputeBoundaryNodalUgp(bn));
            int q = 0;
            for (auto* ed : {&EB, &EC}) {
                pre = "b" + std::to_string(e) + std::to_string(b) + (q++ ? ".c" : ".e"); DynMatrix<double> l = ed->L2Projection(F); pm("LU", ed->ComputeUgp(l)); DynMatrix<double> il(F.rows(), ed->edge_data.ndof);
                pm("LAM", ed->lambda_gp); for (uint j = 0; j < ed->edge_data.ndof; ++j) { il.col(j) = ed->IntegrationLambda(j, F); for (uint i = 0; i < ed->edge_data.ndof; ++i) pm("LL." + std::to_string(i) + "." + std::to_string(j), ed->IntegrationLambdaLambda(i, j, F)); for (uint i = 0; i < master.ndof; ++i) pm("PL." + std::to_string(i) + "." + std::to_string(j), ed->IntegrationPhiLambda(i, j, F)); }
                pm("IL", il); pm("ML", ed->ApplyMinv(il)); pm("L", l);
            }
        }
        if (ne == 2) {
            RawT ri(raw[0][0].at(std::pair<uint, uint>{0, bin})), re(raw[1][0].at(std::pair<uint, uint>{1, bex})); pre = "i.";
            InterfaceT I(std::move(ri), std::move(re)); EdgeIT EI(I), EC(I, false);
            pm("NIN", I.surface_normal_in); pm("NEX", I.surface_normal_ex); pp("GIN", I.gp_global_coordinates_in); pp("GEX", I.gp_global_coordinates_ex);
            auto Fi = I.ComputeFgpIN(f), Fe = I.ComputeFgpEX(f); pm("UIN", I.ComputeUgpIN(U[0])); pm("UEX", I.ComputeUgpEX(U[1])); pm("FIN", Fi); pm("FEX", Fe);
            pm("INTIN", I.IntegrationIN(Fi)); pm("INTEX", I.IntegrationEX(Fe)); pm("IPIN", I.IntegrationPhiIN(Fi)); pm("IPEX", I.IntegrationPhiEX(Fe));
            for (uint i = 0; i < master.ndof; ++i) { pm("IP1IN." + std::to_string(i), I.IntegrationPhiIN(i, Fi)); pm("IP1EX." + std::to_string(i), I.IntegrationPhiEX(i, Fe)); for (uint j = 0; j < master.ndof; ++j) { pm("PPIN." + std::to_string(i) + "." + std::to_string(j), I.IntegrationPhiPhiIN(i, j, Fi)); pm("PPEX." + std::to_string(i) + "." + std::to_string(j), I.IntegrationPhiPhiEX(i, j, Fe)); } }
            DynMatrix<double> ni(1, 3), nx(1, 3), bi(1, 2), bx(1, 2); for (uint k = 0; k < 3; ++k) { ni(0, k) = X[0][3 * k + 2]; nx(0, k) = X[1][3 * k + 2]; } for (uint k = 0; k < 2; ++k) { bi(0, k) = X[0][3 * ((bin + 1 + k) % 3) + 2]; bx(0, k) = X[1][3 * ((bex + 1 + k) % 3) + 2]; }
            pm("NUIN", I.ComputeNodalUgpIN(ni)); pm("NUEX", I.ComputeNodalUgpEX(nx)); pm("BNIN", I.ComputeBoundaryNodalUgpIN(bi)); pm("BNEX", I.ComputeBoundaryNodalUgpEX(bx));
            int q = 0;
            for (auto* ed : {&EI, &EC}) {
                pre = q++ ? "i.c" : "i.e"; DynMatrix<double> l = ed->L2Projection(Fi); pm("LU", ed->ComputeUgp(l)); pm("L", l); pm("LAM", ed->lambda_gp); DynMatrix<double> il(Fi.rows(), ed->edge_data.ndof);
                for (uint j = 0; j < ed->edge_data.ndof; ++j) { il.col(j) = ed->IntegrationLambda(j, Fi); for (uint i = 0; i < ed->edge_data.ndof; ++i) pm("LL." + std::to_string(i) + "." + std::to_string(j), ed->IntegrationLambdaLambda(i, j, Fi)); for (uint i = 0; i < master.ndof; ++i) { pm("PLIN." + std::to_string(i) + "." + std::to_string(j), ed->IntegrationPhiLambdaIN(i, j, Fi)); pm("PLEX." + std::to_string(i) + "." + std::to_string(j), ed->IntegrationPhiLambdaEX(i, j, Fe)); } }
                pm("IL", il); pm("ML", ed->ApplyMinv(il));
            }
        }
        std::printf("DONE\n"); std::fflush(stdout);
    }
    std::printf("END\n");
}
