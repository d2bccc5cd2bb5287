// Usage: rec_ompi INPUT LOGPREFIX   -- real OMPISimulation<PROBLEM>; one log LOGPREFIX_<rank>_<submesh> per simulation unit.
#include <mpi.h>
#include <omp.h>
#include "general_definitions.hpp"
#ifdef HAS_PETSC
#include <petscksp.h>
#endif
#include "problem/definitions.hpp"
using PB = REC_PROBLEM;
#ifndef REC_REALOUT      // REC_REALOUT: the code's own output, and one record of the final state
template <>
void Writer<PB>::WriteOutput(const PB::ProblemStepperType& stepper, PB::ProblemMeshType& mesh);
#endif
#include "simulation/ompi/simulation_ompi_base.hpp"
#include "simulation/ompi/simulation_ompi.hpp"
#include "rec.hpp"

struct Log { FILE* f; bool first; };
static std::map<const void*, Log*> g_logs;   // filled before Run, read-only afterwards

#ifndef REC_REALOUT
template <>
void Writer<PB>::WriteOutput(const PB::ProblemStepperType& stepper, PB::ProblemMeshType& mesh) {
    Log& l = *g_logs.at(this);
    rec::dump_state(l.f, rec::get_t(stepper, 0), stepper.GetStep(), rec::get_stage(stepper, 0), rec::get_ramp(stepper, 0), mesh, l.first);
    l.first = false;
}
#endif

int main(int argc, char** argv) {
    if (argc != 3) return 64;
    int provided, rank, np;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &provided);
    if (provided != MPI_THREAD_MULTIPLE) { std::fprintf(stderr, "no MPI_THREAD_MULTIPLE\n"); MPI_Abort(MPI_COMM_WORLD, 67); }
#ifdef HAS_PETSC
    PetscInitialize(&argc, &argv, (char*)nullptr, nullptr);
#endif
    MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &np);
    std::string pre = argv[2];
    try {
        std::unique_ptr<OMPISimulationBase> base(new OMPISimulation<PB>(argv[1]));
        auto& sim = static_cast<OMPISimulation<PB>&>(*base);
        for (size_t u = 0; u < sim.sim_units.size(); ++u) {
            auto& su = *sim.sim_units[u];
            Log* l = new Log{std::fopen((pre + "_" + std::to_string(rank) + "_" + std::to_string(u)).c_str(), "w"), true};
            if (!l->f) MPI_Abort(MPI_COMM_WORLD, 65);
            g_logs[&su.writer] = l;
            rec::dump_mesh(l->f, su.discretization.mesh);
            rec::dump_skel(l->f, su.discretization, 0);
        }
        if (!std::getenv("REC_NORUN")) {
            base->Run();
            for (auto& u : sim.sim_units) {
                double r = 0;
                u->discretization.mesh.CallForEachElement([&](auto& e) { r += PB::compute_residual_L2(sim.stepper, e); });
                FILE* f = g_logs.at(&u->writer)->f;
#ifdef REC_REALOUT
                rec::dump_state(f, rec::get_t(sim.stepper, 0), sim.stepper.GetStep(), rec::get_stage(sim.stepper, 0), rec::get_ramp(sim.stepper, 0), u->discretization.mesh, true);
#endif
                std::fprintf(f, "NSTEPS %u\nL2SQ %.17g\n", sim.n_steps, r);
            }
            base->ComputeL2Residual();
            MPI_Barrier(MPI_COMM_WORLD);
            base->Finalize();
        }
        for (auto& l : g_logs) { std::fprintf(l.second->f, "END\n"); std::fclose(l.second->f); }
    } catch (const std::exception& e) {
        FILE* f = std::fopen((pre + "_exc_" + std::to_string(rank)).c_str(), "w");
        if (f) { std::fprintf(f, "EXC %s\n", e.what()); std::fclose(f); }
        std::fprintf(stderr, "EXC %s\n", e.what());
        MPI_Abort(MPI_COMM_WORLD, 66);
    }
#ifdef HAS_PETSC
    PetscFinalize();
#endif
    MPI_Finalize();
    return 0;
}
