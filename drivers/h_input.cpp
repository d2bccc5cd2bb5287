// Usage: h_input swe|gn|yaml LIST     LIST: lines "IN DUMP REOUT BCIS"; reads IN, writes every parsed value to DUMP, re-emits to REOUT.
#include "general_definitions.hpp"
#include "preprocessor/input_parameters.hpp"
#include "problem/SWE/swe_definitions.hpp"
#include "problem/SWE/problem_preprocessor/swe_pre_init_prob_params.hpp"
#include <cstdio>
static FILE* f;
static void s(const char* k, const std::string& v) { std::fprintf(f, "%s %s\n", k, v.c_str()); }
static void d(const char* k, double v) { std::fprintf(f, "%s %.17g\n", k, v); }
static void tm_(const char* k, const struct tm& t) { std::fprintf(f, "%s %04d-%02d-%02d_%02d:%02d:%02d\n", k, t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec); }
template <typename I> void common(const I& in) {
    d("p", in.polynomial_order); s("mesh.format", in.mesh_input.mesh_format); s("mesh.file", in.mesh_input.mesh_file_name); s("mesh.bcis", in.mesh_input.bc_is_file_name); s("mesh.dbmd", in.mesh_input.db_file_name); d("mesh.coord", (int)in.mesh_input.mesh_coordinate_sys);
    auto& t = in.stepper_input; tm_("time.start", t.T_start); tm_("time.end", t.T_end); d("time.run", t.run_time); d("time.dt", t.dt); d("time.nstages", t.nstages); d("time.order", t.order); d("time.ramp", t.ramp_duration);
    auto& w = in.writer_input; d("out.on", w.writing_output); s("out.path", w.writing_output ? w.output_path : ""); d("log.on", w.writing_log_file); d("log.verbose", w.writing_log_file && w.verbose_log_file); s("log.name", w.writing_log_file ? w.log_file_name : "");
    d("vtk.on", w.writing_vtk_output); d("vtk.freq", w.writing_vtk_output ? w.vtk_output_frequency : 0); d("vtk.steps", w.writing_vtk_output ? w.vtk_output_freq_step : 0);
    d("vtu.on", w.writing_vtu_output); d("vtu.freq", w.writing_vtu_output ? w.vtu_output_frequency : 0); d("vtu.steps", w.writing_vtu_output ? w.vtu_output_freq_step : 0);
    d("modal.on", w.writing_modal_output); d("modal.freq", w.writing_modal_output ? w.modal_output_frequency : 0); d("modal.steps", w.writing_modal_output ? w.modal_output_freq_step : 0);
    auto& l = in.load_balancer_input; d("lb.on", l.use_load_balancer); s("lb.name", l.use_load_balancer ? l.name : ""); d("lb.freq", l.use_load_balancer ? l.rebalance_frequency : 0);
}
template <typename I> void problem(I& in) {
    auto& q = in.problem_input; s("name", q.name); d("g", q.g); d("rho_air", q.rho_air); d("rho_water", q.rho_water);
    d("sp.on", (int)q.spherical_projection.type); d("sp.lon", q.spherical_projection.longitude_o); d("sp.lat", q.spherical_projection.latitude_o); d("sp.R", q.spherical_projection.R);
    d("ic.type", (int)q.initial_conditions.type); d("ic.ze", q.initial_conditions.ze_initial); d("ic.qx", q.initial_conditions.qx_initial); d("ic.qy", q.initial_conditions.qy_initial);
    d("fsource", (int)q.function_source.type); d("bf.type", (int)q.bottom_friction.type); d("bf.coef", q.bottom_friction.coefficient); s("bf.file", q.bottom_friction.manning_data_file);
    d("met.on", (int)q.meteo_forcing.type); s("met.type", q.meteo_forcing.meteo_data_type); s("met.raw", q.meteo_forcing.raw_meteo_data_file); s("met.file", q.meteo_forcing.meteo_data_file); d("met.freq", q.meteo_forcing.type == SWE::MeteoForcingType::Enable ? q.meteo_forcing.frequency : 0);
    d("tidepot", (int)q.tide_potential.type); d("coriolis", (int)q.coriolis.type); d("wd.on", (int)q.wet_dry.type); d("wd.h_o", q.wet_dry.h_o); d("sl.on", (int)q.slope_limit.type); d("sl.M", q.slope_limit.M); d("sl.nu", q.slope_limit.nu);
    SWE::initialize_problem_parameters(q);
    using namespace SWE; d("G.g", Global::g); d("G.rho_air", Global::rho_air); d("G.rho_water", Global::rho_water); d("G.fsource", SourceTerms::function_source); d("G.bf", SourceTerms::bottom_friction); d("G.Cf", SourceTerms::Cf); d("G.met", SourceTerms::meteo_forcing); d("G.tidepot", SourceTerms::tide_potential); d("G.coriolis", SourceTerms::coriolis);
    d("G.wd", PostProcessing::wetting_drying); d("G.h_o", PostProcessing::h_o); d("G.sl", PostProcessing::slope_limiting); d("G.M", PostProcessing::M); d("G.nu", PostProcessing::nu);
}
template <typename T> void consts(const T& n) { for (size_t i = 0; i < n.frequency.size(); ++i) std::fprintf(f, " %.17g,%.17g,%.17g,%.17g,%.17g", n.frequency[i], n.forcing_fact.at(i), n.equilib_arg.at(i), n.amplitude.at(i), n.phase.at(i)); std::fputc('\n', f); }
template <typename I> void bcis(I& in, const std::string& file) {
    in.mesh_input.bc_is_file_name = file; in.read_bcis(); auto& q = in.problem_input; int k = 0;
    for (auto& b : q.tide_bc_data) { for (auto& n : b.tide_nodes) { std::fprintf(f, "tide %d %u", k, n.first); consts(n.second); } ++k; }
    k = 0; for (auto& b : q.flow_bc_data) { for (auto& n : b.flow_nodes) { std::fprintf(f, "flow %d %u", k, n.first); consts(n.second); } ++k; }
    for (auto& l : q.levee_is_data) std::fprintf(f, "levee %u,%u %.17g,%.17g,%.17g\n", l.first.first, l.first.second, l.second.H_barrier, l.second.C_subcritical, l.second.C_supercritical);
}
static void reset() { using namespace SWE; Global::g = 9.81; Global::rho_air = 1.225; Global::rho_water = 1000.0; SourceTerms::function_source = SourceTerms::bottom_friction = SourceTerms::meteo_forcing = SourceTerms::tide_potential = SourceTerms::coriolis = false; SourceTerms::Cf = 0; PostProcessing::wetting_drying = PostProcessing::slope_limiting = false; PostProcessing::h_o = 0.1; PostProcessing::h_o_threshold = 1e-6; PostProcessing::M = 1e-8; PostProcessing::nu = 1.5; }
int main(int argc, char** argv) {
    std::string mode = argv[1]; std::ifstream L(argv[2]); std::string in, dump, re, bc;
    while (L >> in >> dump >> re >> bc) {
        f = std::fopen(dump.c_str(), "w"); if (!f) return 65;
        std::fflush(stderr); std::cerr << "@@ " << dump << std::endl; reset();
        try {
            if (mode == "swe") { InputParameters<SWE::Inputs> i(in); common(i); problem(i); if (bc != "-") bcis(i, bc); if (re != "-") i.write_to(re); }
            else if (mode == "gn") { InputParameters<GN::Inputs> i(in); common(i); problem(i); if (bc != "-") bcis(i, bc); if (re != "-") i.write_to(re); }
            else { InputParameters<> i(in); common(i); if (re != "-") i.write_to(re); }
            std::fprintf(f, "END\n");
        } catch (const std::exception& e) { std::fprintf(f, "EXC %s\n", typeid(e).name()); std::cerr << "EXC " << e.what() << std::endl; }
        std::fclose(f);
    }
    return 0;
}
