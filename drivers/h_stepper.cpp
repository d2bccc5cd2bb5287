// Real time steppers driven on generated ODEs. stdin: commands, stdout: observations.
#include "general_definitions.hpp"
#include "preprocessor/input_parameters.hpp"
#include "simulation/stepper/explicit_ssp_rk_stepper.hpp"
#include "simulation/stepper/implicit_stepper.hpp"
#include "simulation/stepper/second_strang_stepper.hpp"
#include <iostream>
struct St { DynVector<double> q, solution; };
struct Elt { struct { std::vector<St> state; } data; };
static StepperInput mk(uint order, uint ns, double dt, double ramp) { StepperInput s; s.order = order; s.nstages = ns; s.dt = dt; s.ramp_duration = ramp; s.run_time = 0; return s; }
// ODE library; f(id, par, t, y, out)
static void rhs(int id, const std::vector<double>& a, double t, const DynVector<double>& y, DynVector<double>& o) {
    const size_t n = y.size();
    if (id == 0) { for (size_t i = 0; i < n; ++i) o[i] = a[i] * std::pow(t, (double)i); }                       // y_i' = a_i t^i
    else if (id == 1) { for (size_t i = 0; i < n; ++i) o[i] = a[i] * y[i]; }                                     // linear
    else if (id == 2) { o[0] = -a[0] * y[0] * y[0] + std::sin(a[1] * t + y[1]); o[1] = y[0] * std::cos(t) - a[2] * y[1]; }  // nonlinear, non-autonomous
    else if (id == 3) { for (size_t i = 0; i < n; ++i) o[i] = -a[0] * (y[i] - y[(i + n - 1) % n]); }             // upwind advection
}
int main() {
    std::string cmd;
    while (std::cin >> cmd) {
        if (cmd == "rk") {
            uint order, ns, n; double dt, ramp; int id; uint np, ny; std::vector<double> par;
            std::cin >> order >> ns >> dt >> ramp >> n >> id >> np; par.resize(np); for (auto& p : par) std::cin >> p;
            std::cin >> ny; Elt e; e.data.state.resize(ns + 1);
            for (auto& s : e.data.state) { s.q = DynVector<double>(ny); s.solution = DynVector<double>(ny); }
            for (uint i = 0; i < ny; ++i) std::cin >> e.data.state[0].q[i];
            int verbose; std::cin >> verbose;
            try {
                ESSPRKStepper st(mk(order, ns, dt, ramp));
                std::printf("RK %u %u\n", st.GetOrder(), st.GetNumStages());
                for (uint k = 0; k < n; ++k)
                    for (uint s = 0; s < ns; ++s) {
                        if (verbose) std::printf("T %u %u %u %.17g %.17g\n", st.GetStep(), st.GetStage(), st.GetTimestamp(), st.GetTimeAtCurrentStage(), st.GetRamp());
                        auto& cur = e.data.state[st.GetStage()];
                        rhs(id, par, st.GetTimeAtCurrentStage(), cur.q, cur.solution);
                        st.UpdateState(e); ++st;
                        if (verbose > 1 && st.GetStage() == 0) { std::printf("Y"); for (uint i = 0; i < ny; ++i) std::printf(" %.17g", e.data.state[0].q[i]); std::printf("\n"); }
                    }
                std::printf("F %u %u %u %.17g %.17g", st.GetStep(), st.GetStage(), st.GetTimestamp(), st.GetTimeAtCurrentStage(), st.GetRamp());
                for (uint i = 0; i < ny; ++i) std::printf(" %.17g", e.data.state[0].q[i]);
                std::printf("\n");
            } catch (const std::exception& x) { std::printf("REFUSED %s\n", x.what()); }
        } else if (cmd == "im" || cmd == "st") {
            uint order, ns, n; double dt, ramp; std::cin >> order >> ns >> dt >> ramp >> n;
            try {
                if (cmd == "im") {
                    ImplicitStepper st(mk(order, ns, dt, ramp));
                    std::printf("IM %.17g %u\n", st.GetTheta(), st.GetNumStages());
                    for (uint k = 0; k <= n; ++k) {
                        std::printf("T %u %u %u %.17g %.17g %.17g %.17g\n", st.GetStep(), st.GetStage(), st.GetTimestamp(), st.GetTimeAtCurrentStage(), st.GetTimeAtNextStage(), st.GetRamp(), st.GetRampNext());
                        ++st;
                    }
                } else {
                    SecondStrangStepper<ESSPRKStepper, ESSPRKStepper> st(mk(order, ns, dt, ramp));
                    std::printf("ST %.17g %.17g\n", st.GetFirstStepper().GetDT(), st.GetSecondStepper().GetDT());
                    for (uint k = 0; k <= n; ++k) {
                        std::printf("T %u %.17g %.17g %.17g\n", st.GetStep(), st.GetTimeAtCurrentStage(), st.GetFirstStepper().GetTimeAtCurrentStage(), st.GetSecondStepper().GetTimeAtCurrentStage());
                        for (uint s = 0; s < 2 * ns; ++s) ++st.GetFirstStepper();
                        for (uint s = 0; s < ns; ++s) ++st.GetSecondStepper();
                    }
                }
                std::printf("F\n");
            } catch (const std::exception& x) { std::printf("REFUSED %s\n", x.what()); }
        }
    }
    return 0;
}
