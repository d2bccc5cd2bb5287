// Usage: probe INPUT SCRIPT LOG -- builds the real serial simulation, then executes single operations of it on states
// prescribed by the script and logs everything those operations read and wrote.
#include "general_definitions.hpp"
#include "problem/definitions.hpp"
using PB = REC_PROBLEM;
#include "simulation/serial/simulation.hpp"
#include "rec.hpp"
#include <fstream>
#include <sstream>
#include <vector>

static FILE* L;
#ifdef REC_GN
template <typename S> static auto& stepper_of(S& sim) { return sim.stepper.GetFirstStepper(); }
#else
template <typename S> static auto& stepper_of(S& sim) { return sim.stepper; }
#endif
using Sim = Serial::Simulation<PB>;

template <typename F> static void vec(const char* tag, uint n, F f) {
    std::fprintf(L, " %s", tag);
    for (uint i = 0; i < n; ++i) std::fprintf(L, " %.17g", (double)f(i));
}
// geometry of element quadrature and of every edge side, read through the element/edge interface itself
template <typename S> static void geo(S& sim) {
    auto& mesh = sim.discretization.mesh;
    std::map<const void*, uint> ids;
    mesh.CallForEachElement([&](auto& elt) {
        ids[&elt.data] = elt.GetID();
        const uint ngp = elt.data.get_ngp_internal(), ndof = elt.data.get_ndof();
        DynRowVector<double> nx(3), ny(3), one(ngp);
        for (uint k = 0; k < 3; ++k) { nx[k] = elt.GetShape().nodal_coordinates[k][0]; ny[k] = elt.GetShape().nodal_coordinates[k][1]; }
        DynRowVector<double> x = elt.ComputeNodalUgp(nx), y = elt.ComputeNodalUgp(ny);
        std::fprintf(L, "GE %u %u %u", elt.GetID(), ngp, ndof);
        vec("", ngp, [&](uint g) { return x[g]; });
        vec("", ngp, [&](uint g) { return y[g]; });
        vec("", ngp, [&](uint g) { set_constant(one, 0.0); one[g] = 1.0; return elt.Integration(one); });
        for (uint d = 0; d < ndof; ++d) {
            DynRowVector<double> c(ndof); set_constant(c, 0.0); c[d] = 1.0;
            DynRowVector<double> p = elt.ComputeUgp(c), px = elt.ComputeDUgp(0, c), py = elt.ComputeDUgp(1, c);
            vec("", ngp, [&](uint g) { return p[g]; }); vec("", ngp, [&](uint g) { return px[g]; }); vec("", ngp, [&](uint g) { return py[g]; });
        }
        std::fprintf(L, "\n");
    });
    auto side = [&](uint id, uint b, uint ngp, uint ndof, auto& shape, auto& normal, auto nodal, auto ugp, auto integ) {
        DynRowVector<double> nx(3), ny(3), one(ngp);
        for (uint k = 0; k < 3; ++k) { nx[k] = shape.nodal_coordinates[k][0]; ny[k] = shape.nodal_coordinates[k][1]; }
        DynRowVector<double> x = nodal(nx), y = nodal(ny);
        std::fprintf(L, "GS %u %u %u %u", id, b, ngp, ndof);
        vec("", ngp, [&](uint g) { return x[g]; });
        vec("", ngp, [&](uint g) { return y[g]; });
        vec("", ngp, [&](uint g) { set_constant(one, 0.0); one[g] = 1.0; return integ(one); });
        vec("", ngp, [&](uint g) { return normal(0, g); });
        vec("", ngp, [&](uint g) { return normal(1, g); });
        for (uint d = 0; d < ndof; ++d) {
            DynRowVector<double> c(ndof); set_constant(c, 0.0); c[d] = 1.0;
            DynRowVector<double> p = ugp(c);
            vec("", ngp, [&](uint g) { return p[g]; });
        }
        std::fprintf(L, "\n");
    };
    mesh.CallForEachInterface([&](auto& i) {
        side(ids[&i.data_in], i.bound_id_in, i.data_in.get_ngp_boundary(i.bound_id_in), i.data_in.get_ndof(), i.GetShapeIN(), i.surface_normal_in,
             [&](auto& v) { return i.ComputeNodalUgpIN(v); }, [&](auto& v) { return i.ComputeUgpIN(v); }, [&](auto& v) { return i.IntegrationIN(v); });
        side(ids[&i.data_ex], i.bound_id_ex, i.data_ex.get_ngp_boundary(i.bound_id_ex), i.data_ex.get_ndof(), i.GetShapeEX(), i.surface_normal_ex,
             [&](auto& v) { return i.ComputeNodalUgpEX(v); }, [&](auto& v) { return i.ComputeUgpEX(v); }, [&](auto& v) { return i.IntegrationEX(v); });
    });
    mesh.CallForEachBoundary([&](auto& b) {
        side(ids[&b.data], b.bound_id, b.data.get_ngp_boundary(b.bound_id), b.data.get_ndof(), b.GetShape(), b.surface_normal,
             [&](auto& v) { return b.ComputeNodalUgp(v); }, [&](auto& v) { return b.ComputeUgp(v); }, [&](auto& v) { return b.Integration(v); });
    });
}
template <typename S> static void dump(S& sim, uint st, const char* tag) {
    sim.discretization.mesh.CallForEachElement([&](auto& elt) {
        std::fprintf(L, "%s %u %d", tag, elt.GetID(), elt.data.wet_dry_state.wet ? 1 : 0);
        rec::put(L, elt.data.state[st].q);
        std::fprintf(L, "\n");
    });
}
template <typename S> static void dump_ops(S& sim, uint st) {
    auto& mesh = sim.discretization.mesh;
    std::map<const void*, uint> ids;
    mesh.CallForEachElement([&](auto& elt) {
        ids[&elt.data] = elt.GetID();
        std::fprintf(L, "R %u", elt.GetID());
        rec::put(L, elt.data.state[st].rhs);
        std::fprintf(L, "\nQ %u", elt.GetID());
        rec::put(L, elt.data.internal.source_at_gp);
        std::fprintf(L, "\n");
    });
    auto side = [&](uint id, uint b, auto& bd) {
        std::fprintf(L, "F %u %u", id, b);
        rec::put(L, bd.q_at_gp); rec::put(L, bd.aux_at_gp); rec::put(L, bd.F_hat_at_gp);
        std::fprintf(L, "\n");
    };
    mesh.CallForEachInterface([&](auto& i) {
        side(ids[&i.data_in], i.bound_id_in, i.data_in.boundary[i.bound_id_in]);
        side(ids[&i.data_ex], i.bound_id_ex, i.data_ex.boundary[i.bound_id_ex]);
    });
    mesh.CallForEachBoundary([&](auto& b) { side(ids[&b.data], b.bound_id, b.data.boundary[b.bound_id]); });
}
template <typename Disc> static auto dump_hat(Disc& d, int) -> decltype(d.mesh_skeleton, void()) {
    std::map<const void*, uint> ids;
    d.mesh.CallForEachElement([&](auto& elt) { ids[&elt.data] = elt.GetID(); });
    d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) {
        std::fprintf(L, "H %u %u", ids[&e.interface.data_in], e.interface.bound_id_in);
        rec::put(L, e.edge_data.edge_internal.q_hat_at_gp); rec::put(L, e.edge_data.edge_internal.aux_hat_at_gp); rec::put(L, e.edge_data.edge_state.q_hat);
        std::fprintf(L, "\n");
    });
    d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
        std::fprintf(L, "H %u %u", ids[&e.boundary.data], e.boundary.bound_id);
        rec::put(L, e.edge_data.edge_internal.q_hat_at_gp); rec::put(L, e.edge_data.edge_internal.aux_hat_at_gp); rec::put(L, e.edge_data.edge_state.q_hat);
        std::fprintf(L, "\n");
    });
}
template <typename Disc> static void dump_hat(Disc&, long) {}
// trace unknowns before an operation, and the edge basis at the edge's points
template <typename Disc> static auto dump_trace(Disc& d, bool basis, int) -> decltype(d.mesh_skeleton, void()) {
    std::map<const void*, uint> ids;
    d.mesh.CallForEachElement([&](auto& elt) { ids[&elt.data] = elt.GetID(); });
    auto one = [&](auto& e, uint id, uint b) {
        if (basis) {
            const uint nd = e.edge_data.get_ndof();
            std::fprintf(L, "GH %u %u %u %u", id, b, nd, e.edge_data.get_ngp());
            for (uint k = 0; k < nd; ++k) {
                DynRowVector<double> c(nd); set_constant(c, 0.0); c[k] = 1.0;
                DynRowVector<double> u = e.ComputeUgp(c);
                vec("", e.edge_data.get_ngp(), [&](uint g) { return u[g]; });
            }
            std::fprintf(L, "\n");
        } else {
            std::fprintf(L, "I %u %u", id, b); rec::put(L, e.edge_data.edge_state.q_hat); std::fprintf(L, "\n");
        }
    };
    d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { one(e, ids[&e.interface.data_in], e.interface.bound_id_in); });
    d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { one(e, ids[&e.boundary.data], e.boundary.bound_id); });
}
template <typename Disc> static void dump_trace(Disc&, bool, long) {}

#ifdef REC_IHDG
// residuals and assembled matrices of one Newton iteration at the present (state, trace)
template <typename S> static void assemble(S& sim) {
    auto& d = sim.discretization; auto& stepper = sim.stepper;
    d.mesh.CallForEachElement([&](auto& elt) { PB::local_volume_kernel(stepper, elt); PB::local_source_kernel(stepper, elt); });
    d.mesh.CallForEachInterface([&](auto& i) { PB::local_interface_kernel(stepper, i); });
    d.mesh.CallForEachBoundary([&](auto& b) { PB::local_boundary_kernel(stepper, b); });
    d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { PB::local_edge_interface_kernel(stepper, e); });
    d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { PB::local_edge_boundary_kernel(stepper, e); });
    d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { PB::global_edge_interface_kernel(stepper, e); });
    d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { PB::global_edge_boundary_kernel(stepper, e); });
}
struct EdgeRef { DynVector<double>* rhs; DynMatrix<double>* dhg; uint in, bin, ex, bex; bool two; };
template <typename S> static void newton(S& sim, double eps) {
    auto& d = sim.discretization;
    const uint st = sim.stepper.GetStage() + 1;
    assemble(sim);
    std::map<const void*, uint> ids;
    auto put_mats = [&]() {
        d.mesh.CallForEachElement([&](auto& elt) {
            ids[&elt.data] = elt.GetID();
            std::fprintf(L, "NL %u", elt.GetID()); rec::put(L, elt.data.internal.delta_local); std::fprintf(L, "\n");
            std::fprintf(L, "Nl %u", elt.GetID()); for (uint i = 0; i < elt.data.internal.rhs_local.size(); ++i) std::fprintf(L, " %.17g", elt.data.internal.rhs_local[i]); std::fprintf(L, "\n");
            for (uint b = 0; b < 3; ++b) {
                std::fprintf(L, "NG %u %u", elt.GetID(), b); rec::put(L, elt.data.boundary[b].delta_global); std::fprintf(L, "\n");
                std::fprintf(L, "NH %u %u", elt.GetID(), b); rec::put(L, elt.data.boundary[b].delta_hat_local); std::fprintf(L, "\n");
            }
        });
        d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) {
            std::fprintf(L, "NE %u %u", ids[&e.interface.data_in], e.interface.bound_id_in); rec::put(L, e.edge_data.edge_internal.delta_hat_global); std::fprintf(L, "\n");
        });
        d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
            std::fprintf(L, "NE %u %u", ids[&e.boundary.data], e.boundary.bound_id); rec::put(L, e.edge_data.edge_internal.delta_hat_global); std::fprintf(L, "\n");
        });
    };
    put_mats();
    const auto base = [&](auto& residuals) { residuals("00", -1, -1, 0u, 0u); };
    auto residuals = [&](const char* what, int id, int b, uint var, uint dof) {
        std::fprintf(L, "P %s %d %d %u %u\n", what, id, b, var, dof);
        d.mesh.CallForEachElement([&](auto& elt) {
            std::fprintf(L, "pl %u", elt.GetID()); for (uint i = 0; i < elt.data.internal.rhs_local.size(); ++i) std::fprintf(L, " %.17g", elt.data.internal.rhs_local[i]); std::fprintf(L, "\n");
        });
        d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) {
            std::fprintf(L, "pe %u %u", ids[&e.interface.data_in], e.interface.bound_id_in); auto& r = e.edge_data.edge_internal.rhs_global;
            for (uint i = 0; i < r.size(); ++i) std::fprintf(L, " %.17g", r[i]); std::fprintf(L, "\n");
        });
        d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
            std::fprintf(L, "pe %u %u", ids[&e.boundary.data], e.boundary.bound_id); auto& r = e.edge_data.edge_internal.rhs_global;
            for (uint i = 0; i < r.size(); ++i) std::fprintf(L, " %.17g", r[i]); std::fprintf(L, "\n");
        });
    };
    base(residuals);
    // all element unknowns and all trace unknowns, one at a time, both directions
    d.mesh.CallForEachElement([&](auto& elt) {
        auto& q = elt.data.state[st].q;
        for (uint v = 0; v < 3; ++v)
            for (uint dof = 0; dof < columns(q); ++dof) {
                const double q0 = q(v, dof);
                q(v, dof) = q0 + eps; assemble(sim); residuals("q+", elt.GetID(), -1, v, dof);
                q(v, dof) = q0 - eps; assemble(sim); residuals("q-", elt.GetID(), -1, v, dof);
                q(v, dof) = q0;
            }
    });
    auto edge = [&](auto& e, uint id, uint b) {
        auto& q = e.edge_data.edge_state.q_hat;
        for (uint v = 0; v < 3; ++v)
            for (uint dof = 0; dof < columns(q); ++dof) {
                const double q0 = q(v, dof);
                q(v, dof) = q0 + eps; assemble(sim); residuals("h+", id, b, v, dof);
                q(v, dof) = q0 - eps; assemble(sim); residuals("h-", id, b, v, dof);
                q(v, dof) = q0;
            }
    };
    d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { edge(e, ids[&e.interface.data_in], e.interface.bound_id_in); });
    d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { edge(e, ids[&e.boundary.data], e.boundary.bound_id); });
}
#endif

int main(int argc, char** argv) {
    if (argc != 4) return 64;
    L = std::fopen(argv[3], "w");
    if (!L) return 65;
    Sim sim(argv[1]);
    sim.writer.writing_output = false;
    rec::dump_mesh(L, sim.discretization.mesh);
    PB::preprocessor_serial(sim.discretization, sim.global_data, sim.stepper, sim.problem_input);
    rec::dump_state(L, 0, 0, 0, 0, sim.discretization.mesh, true);
    auto& mesh = sim.discretization.mesh;
    std::ifstream in(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        std::string cmd; s >> cmd;
        const uint st = stepper_of(sim).GetStage();
        if (cmd == "GEO") { geo(sim); dump_trace(sim.discretization, true, 0); }
        else if (cmd == "SET") {
            uint id; int wet; s >> id >> wet;
            std::vector<double> v; double x; while (s >> x) v.push_back(x);
            mesh.CallForEachElement([&](auto& elt) {
                if (elt.GetID() != id) return;
                auto& q = elt.data.state[st].q;
                if (v.size() != rows(q) * columns(q)) { std::fprintf(stderr, "bad SET\n"); std::exit(67); }
                for (uint i = 0; i < rows(q); ++i) for (uint j = 0; j < columns(q); ++j) q(i, j) = v[i * columns(q) + j];
                elt.data.wet_dry_state.wet = wet;
            });
        }
#ifdef REC_GN
        else if (cmd == "TROUBLED" || cmd == "BUFFER") {
            uint id; int v; s >> id >> v;
            mesh.CallForEachElement([&](auto& elt) {
                if (elt.GetID() != id) return;
                if (cmd == "TROUBLED") elt.data.slope_limit_state.troubled = v; else elt.data.source.dispersive_correction = v;
            });
        }
        else if (cmd == "DC") {
            auto& stp = sim.stepper.GetSecondStepper();
            std::fprintf(L, "OP DC %u %.17g %.17g\n", stp.GetStage(), stp.GetTimeAtCurrentStage(), GN::NDParameters::alpha);
            dump(sim, stp.GetStage(), "B");
            std::fflush(L);
            const uint s0 = stp.GetStage();
            PB::dispersive_correction_serial(sim.discretization, sim.global_data, stp);
            mesh.CallForEachElement([&](auto& elt) {
                auto& z = elt.data.state[s0];
                auto row = [&](const char* t, const auto& m) { std::fprintf(L, "D %s %u", t, elt.GetID()); rec::put(L, m); std::fprintf(L, "\n"); };
                row("dze", z.dze); row("du", z.du); row("ddu", z.ddu); row("dbath", elt.data.internal.dbath_at_gp); row("ddbath", elt.data.internal.ddbath_at_gp); row("dddbath", elt.data.internal.dddbath_at_gp);
                row("w1", z.w1); row("sol", z.solution); row("src", elt.data.internal.w1_rhs_kernel_at_gp);
            });
            dump(sim, stp.GetStage(), "N");
            std::fprintf(L, "OPEND\n");
        }
#else
        else if (cmd == "STAGE") {
            std::fprintf(L, "OP STAGE %u %.17g %.17g\n", st, sim.stepper.GetTimeAtCurrentStage(), sim.stepper.GetRamp());
            dump(sim, st, "B");
            dump_trace(sim.discretization, false, 0);
            std::fflush(L);
            if (sim.parser.ParsingInput()) sim.parser.ParseInput(sim.stepper, sim.discretization.mesh);
            PB::stage_serial(sim.discretization, sim.global_data, sim.stepper);
            dump_ops(sim, st);
            dump_hat(sim.discretization, 0);
            dump(sim, sim.stepper.GetStage(), "N");
            std::fprintf(L, "OPEND\n");
        }
#endif
#if !defined(REC_IHDG) && !defined(REC_GN)
        else if (cmd == "WD") {
            std::fprintf(L, "OP WD %u 0 0\n", st);
            dump(sim, st, "B");
            std::fflush(L);
            mesh.CallForEachElement([&](auto& elt) { SWE::wetting_drying_kernel(sim.stepper, elt); });
            dump(sim, st, "N");
            std::fprintf(L, "OPEND\n");
        }
#endif
#ifndef REC_GN
        else if (cmd == "SL") {
            std::fprintf(L, "OP SL %u 0 0\n", st);
            dump(sim, st, "B");
            SWE::CS_slope_limiter_serial(sim.stepper, sim.discretization);
            dump(sim, st, "N");
            mesh.CallForEachElement([&](auto& elt) {
                auto& sl = elt.data.slope_limit_state;
                std::fprintf(L, "T %u %.17g %.17g %d\n", elt.GetID(), sl.I, sl.perimeter, sl.troubled ? 1 : 0);
            });
            std::fprintf(L, "OPEND\n");
        }
#endif
#ifdef REC_IHDG
        else if (cmd == "NEWTON") {
            double eps; uint perturb; s >> eps >> perturb;
            std::fprintf(L, "OP NEWTON %u %.17g %.17g\n", st, sim.stepper.GetTimeAtCurrentStage(), eps);
            if (sim.parser.ParsingInput()) sim.parser.ParseInput(sim.stepper, sim.discretization.mesh);
            PB::init_iteration(sim.stepper, sim.discretization);
            // move away from the starting guess so that nothing vanishes by accident
            unsigned long long r = 88172645463325252ull + perturb;
            auto rnd = [&]() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return (double)(r >> 11) / 9007199254740992.0 - 0.5; };
            double amp; s >> amp;
            mesh.CallForEachElement([&](auto& elt) {
                auto& q = elt.data.state[st + 1].q;
                for (uint i = 0; i < rows(q); ++i) for (uint j = 0; j < columns(q); ++j) q(i, j) += amp * rnd();
            });
            auto mv = [&](auto& e) { auto& q = e.edge_data.edge_state.q_hat; for (uint i = 0; i < rows(q); ++i) for (uint j = 0; j < columns(q); ++j) q(i, j) += amp * rnd(); };
            sim.discretization.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { mv(e); });
            sim.discretization.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { mv(e); });
            newton(sim, eps);
            // one real Newton update from this point
            assemble(sim);
            std::map<const void*, uint> eid;
            auto put = [&](const char* w) {
                mesh.CallForEachElement([&](auto& elt) { eid[&elt.data] = elt.GetID(); std::fprintf(L, "U%s %u", w, elt.GetID()); rec::put(L, elt.data.state[st + 1].q); std::fprintf(L, "\n"); });
                sim.discretization.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { std::fprintf(L, "V%s %u %u", w, eid[&e.interface.data_in], e.interface.bound_id_in); rec::put(L, e.edge_data.edge_state.q_hat); std::fprintf(L, "\n"); });
                sim.discretization.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { std::fprintf(L, "V%s %u %u", w, eid[&e.boundary.data], e.boundary.bound_id); rec::put(L, e.edge_data.edge_state.q_hat); std::fprintf(L, "\n"); });
            };
            put("0");
            PB::serial_solve_global_problem(sim.discretization, sim.global_data, sim.stepper);
            put("1");
            std::fprintf(L, "OPEND\n");
        }
#endif
        else { std::fprintf(stderr, "bad command %s\n", cmd.c_str()); return 68; }
    }
    std::fprintf(L, "END\n");
    std::fclose(L);
    return 0;
}
