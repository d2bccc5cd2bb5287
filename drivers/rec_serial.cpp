// Usage: rec_serial INPUT LOG   -- real Serial::Simulation<PROBLEM>, recorded.
#include "general_definitions.hpp"
#include "problem/definitions.hpp"
using PB = REC_PROBLEM;
template <>
void Writer<PB>::WriteOutput(const PB::ProblemStepperType& stepper, PB::ProblemMeshType& mesh);
#include "simulation/serial/simulation.hpp"
#include "rec.hpp"

static FILE* g_log = nullptr;
static bool g_first = true;

template <>
void Writer<PB>::WriteOutput(const PB::ProblemStepperType& stepper, PB::ProblemMeshType& mesh) {
    rec::dump_state(g_log, rec::get_t(stepper, 0), stepper.GetStep(), rec::get_stage(stepper, 0), rec::get_ramp(stepper, 0), mesh, g_first);
    g_first = false;
}

int main(int argc, char** argv) {
    if (argc != 3) return 64;
#ifdef REC_PETSC
    PetscInitialize(&argc, &argv, (char*)nullptr, nullptr);
#endif
    g_log = std::fopen(argv[2], "w");
    if (!g_log) return 65;
    try {
        Serial::Simulation<PB> sim(argv[1]);
        rec::dump_mesh(g_log, sim.discretization.mesh);
        rec::dump_skel(g_log, sim.discretization, 0);
        if (!std::getenv("REC_NORUN")) {
            sim.Run();
            std::fprintf(g_log, "NSTEPS %u\n", sim.n_steps);
            double r = 0;
            sim.discretization.mesh.CallForEachElement([&](auto& e) { r += PB::compute_residual_L2(sim.stepper, e); });
            std::fprintf(g_log, "L2SQ %.17g\n", r);
            sim.ComputeL2Residual();
            sim.Finalize();
        }
    } catch (const std::exception& e) {
        std::fprintf(g_log, "EXC %s\n", e.what());
        std::fclose(g_log);
        std::fprintf(stderr, "EXC %s\n", e.what());
        return 66;
    }
    std::fprintf(g_log, "END\n");
    std::fclose(g_log);
    return 0;
}
