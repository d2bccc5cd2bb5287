From 32173cb0061d1d61fa2c8617d67a47121e7f9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 01/57] fix: IHDG bottom friction Jacobian is finite for water
 at rest

---
 .../kernels_processor/ihdg_swe_proc_source.hpp     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index a999ba1..cce1ae6 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -47,18 +47,24 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
                 }
             }
 
-            double bottom_friction_stress = Cf * std::hypot(u, v) / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
-            double C                      = Cf / (std::hypot(u, v) * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
+            double speed_over_h           = std::hypot(u, v) / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
+            double bottom_friction_stress = Cf * speed_over_h;
+
+            // u * u / hypot(u, v) and the like vanish as the flow comes to rest
+            double C = 0.0;
+            if (std::hypot(u, v) > 0.0) {
+                C = Cf / (std::hypot(u, v) * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
+            }
 
             internal.dsource_dq_at_gp(JacobianVariables::qx_ze, gp) -=
                 -2.0 * bottom_friction_stress * u +
-                dCf_dze * bottom_friction_stress / Cf * internal.q_at_gp(SWE::Variables::qx, gp);
+                dCf_dze * speed_over_h * internal.q_at_gp(SWE::Variables::qx, gp);
             internal.dsource_dq_at_gp(JacobianVariables::qx_qx, gp) -= bottom_friction_stress + C * u * u;
             internal.dsource_dq_at_gp(JacobianVariables::qx_qy, gp) -= C * u * v;
 
             internal.dsource_dq_at_gp(JacobianVariables::qy_ze, gp) -=
                 -2.0 * bottom_friction_stress * v +
-                dCf_dze * bottom_friction_stress / Cf * internal.q_at_gp(SWE::Variables::qy, gp);
+                dCf_dze * speed_over_h * internal.q_at_gp(SWE::Variables::qy, gp);
             internal.dsource_dq_at_gp(JacobianVariables::qy_qx, gp) -= C * u * v;
             internal.dsource_dq_at_gp(JacobianVariables::qy_qy, gp) -= bottom_friction_stress + C * v * v;
         }
-- 
2.43.0


From 96bf3b491dc452803b0cce4210d3fa32487254ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 02/57] fix: run length and output intervals that are multiples
 of dt take no extra step

---
 source/preprocessor/input_parameters.hpp      |  8 +++---
 .../problem/SWE/problem_parser/swe_parser.hpp |  3 ++-
 source/simulation/ompi/simulation_ompi.hpp    |  3 ++-
 source/simulation/serial/simulation.hpp       |  3 ++-
 source/utilities/count_steps.hpp              | 25 +++++++++++++++++++
 5 files changed, 36 insertions(+), 6 deletions(-)
 create mode 100644 source/utilities/count_steps.hpp

diff --git a/source/preprocessor/input_parameters.hpp b/source/preprocessor/input_parameters.hpp
index d629893..12f5572 100644
--- a/source/preprocessor/input_parameters.hpp
+++ b/source/preprocessor/input_parameters.hpp
@@ -4,6 +4,8 @@
 #include "general_definitions.hpp"
 #include <yaml-cpp/yaml.h>
 
+#include "utilities/count_steps.hpp"
+
 #include "ADCIRC_reader/adcirc_format.hpp"
 #include "mesh_metadata.hpp"
 
@@ -227,7 +229,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_vtk_output   = true;
                 this->writer_input.vtk_output_frequency = out_node["vtk"]["frequency"].as<double>();
                 this->writer_input.vtk_output_freq_step =
-                    (uint)std::ceil(this->writer_input.vtk_output_frequency / this->stepper_input.dt);
+                    Utilities::count_steps(this->writer_input.vtk_output_frequency, this->stepper_input.dt);
             } else {
                 std::string err_msg("Error: VTK YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
@@ -239,7 +241,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_vtu_output   = true;
                 this->writer_input.vtu_output_frequency = out_node["vtu"]["frequency"].as<double>();
                 this->writer_input.vtu_output_freq_step =
-                    (uint)std::ceil(this->writer_input.vtu_output_frequency / this->stepper_input.dt);
+                    Utilities::count_steps(this->writer_input.vtu_output_frequency, this->stepper_input.dt);
             } else {
                 std::string err_msg("Error: VTU YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
@@ -251,7 +253,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_modal_output   = true;
                 this->writer_input.modal_output_frequency = out_node["modal"]["frequency"].as<double>();
                 this->writer_input.modal_output_freq_step =
-                    (uint)std::ceil(this->writer_input.modal_output_frequency / this->stepper_input.dt);
+                    Utilities::count_steps(this->writer_input.modal_output_frequency, this->stepper_input.dt);
             } else {
                 std::string err_msg("Error: Modal YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 31b6b55..51064b7 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -3,6 +3,7 @@
 
 #include "utilities/file_exists.hpp"
 #include "preprocessor/input_parameters.hpp"
+#include "utilities/count_steps.hpp"
 
 namespace SWE {
 class Parser {
@@ -39,7 +40,7 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input) {
         this->parsing_input = true;
 
         this->meteo_parse_frequency =
-            (uint)std::ceil(input.problem_input.meteo_forcing.frequency / input.stepper_input.dt);
+            Utilities::count_steps(input.problem_input.meteo_forcing.frequency, input.stepper_input.dt);
         this->meteo_data_file = input.problem_input.meteo_forcing.meteo_data_file;
     }
 }
diff --git a/source/simulation/ompi/simulation_ompi.hpp b/source/simulation/ompi/simulation_ompi.hpp
index c5bd340..40fe21e 100644
--- a/source/simulation/ompi/simulation_ompi.hpp
+++ b/source/simulation/ompi/simulation_ompi.hpp
@@ -5,6 +5,7 @@
 
 #include "general_definitions.hpp"
 #include "preprocessor/input_parameters.hpp"
+#include "utilities/count_steps.hpp"
 #include "utilities/file_exists.hpp"
 #include "sim_unit_ompi.hpp"
 
@@ -34,7 +35,7 @@ OMPISimulation<ProblemType>::OMPISimulation(const std::string& input_string) {
 
     InputParameters<typename ProblemType::ProblemInputType> input(input_string);
 
-    this->n_steps = (uint)std::ceil(input.stepper_input.run_time / input.stepper_input.dt);
+    this->n_steps = Utilities::count_steps(input.stepper_input.run_time, input.stepper_input.dt);
 
     this->stepper = typename ProblemType::ProblemStepperType(input.stepper_input);
 
diff --git a/source/simulation/serial/simulation.hpp b/source/simulation/serial/simulation.hpp
index 124e58e..dbe50ba 100644
--- a/source/simulation/serial/simulation.hpp
+++ b/source/simulation/serial/simulation.hpp
@@ -3,6 +3,7 @@
 
 #include "general_definitions.hpp"
 #include "preprocessor/input_parameters.hpp"
+#include "utilities/count_steps.hpp"
 
 #include "simulation/serial/simulation_base.hpp"
 
@@ -44,7 +45,7 @@ Simulation<ProblemType>::Simulation(const std::string& input_string) {
 
     ProblemType::preprocess_mesh_data(input);
 
-    this->n_steps = (uint)std::ceil(input.stepper_input.run_time / input.stepper_input.dt);
+    this->n_steps = Utilities::count_steps(input.stepper_input.run_time, input.stepper_input.dt);
 
     this->discretization.mesh = typename ProblemType::ProblemMeshType(input.polynomial_order);
     this->stepper             = typename ProblemType::ProblemStepperType(input.stepper_input);
diff --git a/source/utilities/count_steps.hpp b/source/utilities/count_steps.hpp
new file mode 100644
index 0000000..73dbf1b
--- /dev/null
+++ b/source/utilities/count_steps.hpp
@@ -0,0 +1,25 @@
+#ifndef COUNT_STEPS_HPP
+#define COUNT_STEPS_HPP
+
+#include "general_definitions.hpp"
+#include "almost_equal.hpp"
+
+namespace Utilities {
+/**
+ * Number of time steps needed to cover a period of time.
+ * Smallest number of steps of size dt that reaches duration. If duration is a multiple of dt up to rounding,
+ * e.g. 0.07 and 0.01, no additional step is made.
+ *
+ * @param duration period of time to be covered
+ * @param dt time step size
+ * @return number of time steps
+ */
+static uint count_steps(double duration, double dt) {
+    const double ratio   = duration / dt;
+    const double nearest = std::round(ratio);
+
+    return (uint)(nearest >= 1.0 && almost_equal(ratio, nearest) ? nearest : std::ceil(ratio));
+}
+}
+
+#endif
-- 
2.43.0


From 8eec4bb7c0b8be55415a43b70d290a155b3f900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 03/57] fix: stage times of the explicit Runge-Kutta schemes

---
 source/simulation/stepper/explicit_ssp_rk_stepper.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
index f6b8872..6f63579 100644
--- a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
+++ b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
@@ -260,10 +260,11 @@ void ESSPRKStepper::InitializeCoefficients() {
     // Compute the time dependent parameters
 
     for (uint i = 0; i < this->nstages; ++i) {
-        for (uint k = 0; k < i; ++k) {
+        for (uint k = 0; k <= i; ++k) {
             double casum = 0.;
-            for (uint l = k + 1; l < i; ++l) {
-                casum += this->crk.at(l).at(k) * this->ark.at(i).at(l);
+            // l is the state that enters stage i, and crk[l - 1] describes the stage that computed it
+            for (uint l = k + 1; l <= i; ++l) {
+                casum += this->crk.at(l - 1).at(k) * this->ark.at(i).at(l);
             }
             this->crk.at(i).at(k) = this->brk.at(i).at(k) + casum;
         }
-- 
2.43.0


From b6cfea1ab2097414d01d48dfc945c4695751e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 04/57] fix: refuse levees in the discretizations that compute
 no flux for them

---
 .../ehdg_gn_dbc_distributed_levee.hpp                         | 4 +++-
 .../interface_specializations/ehdg_gn_is_levee.hpp            | 4 +++-
 .../ehdg_swe_dbc_distributed_levee.hpp                        | 2 ++
 .../interface_specializations/ehdg_swe_is_levee.hpp           | 2 ++
 .../ihdg_swe_dbc_distributed_levee.hpp                        | 2 ++
 .../interface_specializations/ihdg_swe_is_levee.hpp           | 2 ++
 6 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/dist_boundary_conditions/ehdg_gn_dbc_distributed_levee.hpp b/source/problem/Green-Naghdi/discretization_EHDG/dist_boundary_conditions/ehdg_gn_dbc_distributed_levee.hpp
index e4a0d83..2c5ac65 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/dist_boundary_conditions/ehdg_gn_dbc_distributed_levee.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/dist_boundary_conditions/ehdg_gn_dbc_distributed_levee.hpp
@@ -11,7 +11,9 @@ class DistributedLevee : public SWE_SIM::DBC::DistributedLevee {
     bool wet_neighbor = false;
 
     DistributedLevee(const DBDataExchanger& exchanger, const std::vector<SWE::LeveeInput>& levee_input)
-        : SWE_SIM::DBC::DistributedLevee(exchanger, levee_input) {}
+        : SWE_SIM::DBC::DistributedLevee(exchanger, levee_input) {
+        throw std::logic_error("Fatal Error: levees are not implemented in Green-Naghdi!\n");
+    }
 
     template <typename EdgeDistributedType>
     void ComputeGlobalKernelsDC(EdgeDistributedType& edge_dbound);
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/interface_specializations/ehdg_gn_is_levee.hpp b/source/problem/Green-Naghdi/discretization_EHDG/interface_specializations/ehdg_gn_is_levee.hpp
index 48d0e99..3fe0f1a 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/interface_specializations/ehdg_gn_is_levee.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/interface_specializations/ehdg_gn_is_levee.hpp
@@ -7,7 +7,9 @@ namespace ISP {
 class Levee : public SWE_SIM::ISP::Levee {
   public:
     Levee() = default;
-    Levee(const std::vector<SWE::LeveeInput>& levee_input) : SWE_SIM::ISP::Levee(levee_input){};
+    Levee(const std::vector<SWE::LeveeInput>& levee_input) : SWE_SIM::ISP::Levee(levee_input) {
+        throw std::logic_error("Fatal Error: levees are not implemented in Green-Naghdi!\n");
+    }
 
     template <typename EdgeInterfaceType>
     void ComputeGlobalKernelsDC(EdgeInterfaceType& edge_int);
diff --git a/source/problem/SWE/discretization_EHDG/dist_boundary_conditions/ehdg_swe_dbc_distributed_levee.hpp b/source/problem/SWE/discretization_EHDG/dist_boundary_conditions/ehdg_swe_dbc_distributed_levee.hpp
index daea4f9..78949bf 100644
--- a/source/problem/SWE/discretization_EHDG/dist_boundary_conditions/ehdg_swe_dbc_distributed_levee.hpp
+++ b/source/problem/SWE/discretization_EHDG/dist_boundary_conditions/ehdg_swe_dbc_distributed_levee.hpp
@@ -35,6 +35,8 @@ class DistributedLevee {
 
 DistributedLevee::DistributedLevee(DBDataExchanger exchanger, const std::vector<LeveeInput>& levee_input)
     : exchanger(std::move(exchanger)) {
+    throw std::logic_error("Fatal Error: levees are not implemented in EHDG!\n");
+
     uint n_nodes = levee_input.size();
 
     this->H_barrier.resize(n_nodes);
diff --git a/source/problem/SWE/discretization_EHDG/interface_specializations/ehdg_swe_is_levee.hpp b/source/problem/SWE/discretization_EHDG/interface_specializations/ehdg_swe_is_levee.hpp
index ba6db3b..59d635b 100644
--- a/source/problem/SWE/discretization_EHDG/interface_specializations/ehdg_swe_is_levee.hpp
+++ b/source/problem/SWE/discretization_EHDG/interface_specializations/ehdg_swe_is_levee.hpp
@@ -30,6 +30,8 @@ class Levee {
 };
 
 Levee::Levee(const std::vector<LeveeInput>& levee_input) {
+    throw std::logic_error("Fatal Error: levees are not implemented in EHDG!\n");
+
     uint n_nodes = levee_input.size();
 
     this->H_barrier.resize(n_nodes);
diff --git a/source/problem/SWE/discretization_IHDG/dist_boundary_conditions/ihdg_swe_dbc_distributed_levee.hpp b/source/problem/SWE/discretization_IHDG/dist_boundary_conditions/ihdg_swe_dbc_distributed_levee.hpp
index 775a5c2..5d7da49 100644
--- a/source/problem/SWE/discretization_IHDG/dist_boundary_conditions/ihdg_swe_dbc_distributed_levee.hpp
+++ b/source/problem/SWE/discretization_IHDG/dist_boundary_conditions/ihdg_swe_dbc_distributed_levee.hpp
@@ -38,6 +38,8 @@ class DistributedLevee {
 
 DistributedLevee::DistributedLevee(DBDataExchanger exchanger, const std::vector<LeveeInput>& levee_input)
     : exchanger(std::move(exchanger)) {
+    throw std::logic_error("Fatal Error: levees are not implemented in IHDG!\n");
+
     uint n_nodes = levee_input.size();
 
     this->H_barrier.resize(n_nodes);
diff --git a/source/problem/SWE/discretization_IHDG/interface_specializations/ihdg_swe_is_levee.hpp b/source/problem/SWE/discretization_IHDG/interface_specializations/ihdg_swe_is_levee.hpp
index 79cfbee..cba665a 100644
--- a/source/problem/SWE/discretization_IHDG/interface_specializations/ihdg_swe_is_levee.hpp
+++ b/source/problem/SWE/discretization_IHDG/interface_specializations/ihdg_swe_is_levee.hpp
@@ -33,6 +33,8 @@ class Levee {
 };
 
 Levee::Levee(const std::vector<LeveeInput>& levee_input) {
+    throw std::logic_error("Fatal Error: levees are not implemented in IHDG!\n");
+
     uint n_nodes = levee_input.size();
 
     this->H_barrier.resize(n_nodes);
-- 
2.43.0


From 4f99c9261f9f6681cc3be29304fcbf5dfdeabe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 05/57] fix: linear conversion matrices of order-zero bases
 stay inside their storage

---
 source/basis/bases_2D/basis_dubiner_2D.cpp | 33 +++++++++++++---------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/source/basis/bases_2D/basis_dubiner_2D.cpp b/source/basis/bases_2D/basis_dubiner_2D.cpp
index 9b9f461..7b832db 100644
--- a/source/basis/bases_2D/basis_dubiner_2D.cpp
+++ b/source/basis/bases_2D/basis_dubiner_2D.cpp
@@ -219,16 +219,19 @@ DynMatrix<double> Dubiner_2D::GetBasisLinearT(const uint p) {
     set_constant(T_basis_linear, 0.0);
 
     T_basis_linear(0, 0) = 1.0;
-    T_basis_linear(1, 0) = -1.0;
-    T_basis_linear(2, 0) = -1.0;
-
     T_basis_linear(0, 1) = 1.0;
-    T_basis_linear(1, 1) = -1.0;
-    T_basis_linear(2, 1) = 1.0;
-
     T_basis_linear(0, 2) = 1.0;
-    T_basis_linear(1, 2) = 2.0;
-    T_basis_linear(2, 2) = 0.0;
+
+    if (p > 0) {
+        T_basis_linear(1, 0) = -1.0;
+        T_basis_linear(2, 0) = -1.0;
+
+        T_basis_linear(1, 1) = -1.0;
+        T_basis_linear(2, 1) = 1.0;
+
+        T_basis_linear(1, 2) = 2.0;
+        T_basis_linear(2, 2) = 0.0;
+    }
 
     return T_basis_linear;
 }
@@ -245,13 +248,15 @@ DynMatrix<double> Dubiner_2D::GetLinearBasisT(const uint p) {
     T_linear_basis(1, 0) = 1.0 / 3.0;
     T_linear_basis(2, 0) = 1.0 / 3.0;
 
-    T_linear_basis(0, 1) = -1.0 / 6.0;
-    T_linear_basis(1, 1) = -1.0 / 6.0;
-    T_linear_basis(2, 1) = 1.0 / 3.0;
+    if (p > 0) {
+        T_linear_basis(0, 1) = -1.0 / 6.0;
+        T_linear_basis(1, 1) = -1.0 / 6.0;
+        T_linear_basis(2, 1) = 1.0 / 3.0;
 
-    T_linear_basis(0, 2) = -1.0 / 2.0;
-    T_linear_basis(1, 2) = 1.0 / 2.0;
-    T_linear_basis(2, 2) = 0.0;
+        T_linear_basis(0, 2) = -1.0 / 2.0;
+        T_linear_basis(1, 2) = 1.0 / 2.0;
+        T_linear_basis(2, 2) = 0.0;
+    }
 
     return T_linear_basis;
 }
-- 
2.43.0


From 02fa6338f411a8f5680e38528b9667555c76f42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:32 +0000
Subject: [PATCH 06/57] fix: both sides of the local Lax-Friedrichs flux use
 the spherical projection factor

---
 .../numerical_fluxes/rkdg_swe_LLF_flux.hpp                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
index 9b577c6..619e205 100644
--- a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
+++ b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
@@ -52,9 +52,9 @@ void LLF_flux(const double gravity,
     double uvh_ex = u_ex * q_ex[SWE::Variables::qy];
     double pe_ex  = gravity * (std::pow(q_ex[SWE::Variables::ze], 2) / 2 + q_ex[SWE::Variables::ze] * bath);
 
-    Fn_ex[SWE::Variables::ze] = q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
-    Fn_ex[SWE::Variables::qx] = (uuh_ex + pe_ex) * nx + uvh_ex * ny;
-    Fn_ex[SWE::Variables::qy] = uvh_ex * nx + (vvh_ex + pe_ex) * ny;
+    Fn_ex[SWE::Variables::ze] = sp * q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
+    Fn_ex[SWE::Variables::qx] = sp * (uuh_ex + pe_ex) * nx + uvh_ex * ny;
+    Fn_ex[SWE::Variables::qy] = sp * uvh_ex * nx + (vvh_ex + pe_ex) * ny;
 
     F_hat = 0.5 * (Fn_in + Fn_ex + max_eigenvalue * (q_in - q_ex));
 }
-- 
2.43.0


From c265e29e1d17528cfbf27f7853d8f88fd0ac56fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 07/57] fix: the hydrostatic source of the projected equations
 balances their pressure flux

---
 .../kernels_processor/rkdg_swe_proc_source.hpp            | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
index ab7dbb2..84004df 100644
--- a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
@@ -13,6 +13,14 @@ void Problem::source_kernel(const ProblemStepperType& stepper, ElementType& elt)
 
         SWE::get_source(stepper.GetTimeAtCurrentStage(), elt);
 
+        // Spherical projection of the hydrostatic term, which balances the pressure in the projected flux
+        auto hydrostatic_x =
+            vec_cw_mult(row(internal.db_at_gp, GlobalCoord::x), row(internal.q_at_gp, SWE::Variables::ze));
+
+        row(internal.source_at_gp, SWE::Variables::qx) +=
+            Global::g * vec_cw_mult(row(internal.aux_at_gp, SWE::Auxiliaries::sp), hydrostatic_x) -
+            Global::g * hydrostatic_x;
+
         state.rhs += elt.IntegrationPhi(internal.source_at_gp);
     }
 }
-- 
2.43.0


From 2c691b5af32a089dc36ebed9888611bbd64c31b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 08/57] fix: no water crosses walls under the spherical
 projection

---
 .../boundary_conditions/rkdg_swe_bc_land.hpp  | 41 +++++++------------
 .../rkdg_swe_dbc_distributed_levee.hpp        |  6 ++-
 .../rkdg_swe_is_levee.hpp                     |  7 +++-
 3 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
index 8bce928..cd855a5 100644
--- a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
+++ b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
@@ -24,6 +24,7 @@ class Land {
 
     void GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
                const Column<HybMatrix<double, SWE::n_variables>>& q_in,
+               const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                Column<HybMatrix<double, SWE::n_variables>>&& q_ex);
 };
 
@@ -41,21 +42,12 @@ template <typename StepperType, typename BoundaryType>
 void Land::ComputeFlux(const StepperType& stepper, BoundaryType& bound) {
     auto& boundary = bound.data.boundary[bound.bound_id];
 
-    auto n_x = row(bound.surface_normal, GlobalCoord::x);
-    auto n_y = row(bound.surface_normal, GlobalCoord::y);
-    auto t_x = -n_y;
-    auto t_y = n_x;
-
-    auto qn_ex = -(vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), n_x) +
-                   vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), n_y));
-    auto qt_ex = vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), t_x) +
-                 vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), t_y);
-
-    row(this->q_ex, SWE::Variables::ze) = row(boundary.q_at_gp, SWE::Variables::ze);
-    row(this->q_ex, SWE::Variables::qx) = vec_cw_mult(qn_ex, n_x) + vec_cw_mult(qt_ex, t_x);
-    row(this->q_ex, SWE::Variables::qy) = vec_cw_mult(qn_ex, n_y) + vec_cw_mult(qt_ex, t_y);
-
     for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
+        this->GetEX(column(bound.surface_normal, gp),
+                    column(boundary.q_at_gp, gp),
+                    column(boundary.aux_at_gp, gp),
+                    column(this->q_ex, gp));
+
         LLF_flux(Global::g,
                  column(boundary.q_at_gp, gp),
                  column(this->q_ex, gp),
@@ -70,28 +62,25 @@ void Land::ComputeFlux(const Column<HybMatrix<double, SWE::n_dimensions>>& surfa
                        const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                        Column<HybMatrix<double, SWE::n_variables>>&& F_hat) {
     // *** //
-    double n_x = surface_normal[GlobalCoord::x];
-    double n_y = surface_normal[GlobalCoord::y];
-    double t_x = -n_y;
-    double t_y = n_x;
-
-    double qn_ex = -(q_in[SWE::Variables::qx] * n_x + q_in[SWE::Variables::qy] * n_y);
-    double qt_ex = q_in[SWE::Variables::qx] * t_x + q_in[SWE::Variables::qy] * t_y;
-
-    this->q_ex(SWE::Variables::ze, 0) = q_in[SWE::Variables::ze];
-    this->q_ex(SWE::Variables::qx, 0) = qn_ex * n_x + qt_ex * t_x;
-    this->q_ex(SWE::Variables::qy, 0) = qn_ex * n_y + qt_ex * t_y;
+    this->GetEX(surface_normal, q_in, aux_in, column(this->q_ex, 0));
 
     LLF_flux(Global::g, q_in, column(this->q_ex, 0), aux_in, surface_normal, std::move(F_hat));
 }
 
 void Land::GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
                  const Column<HybMatrix<double, SWE::n_variables>>& q_in,
+                 const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                  Column<HybMatrix<double, SWE::n_variables>>&& q_ex) {
     double n_x, n_y, t_x, t_y, qn_in, qt_in, qn_ex, qt_ex;
 
-    n_x = surface_normal[GlobalCoord::x];
+    // Spherical projection: no water crosses if sp * qx * nx + qy * ny vanishes
+    n_x = aux_in[SWE::Auxiliaries::sp] * surface_normal[GlobalCoord::x];
     n_y = surface_normal[GlobalCoord::y];
+
+    const double n_length = std::hypot(n_x, n_y);
+
+    n_x /= n_length;
+    n_y /= n_length;
     t_x = -n_y;
     t_y = n_x;
 
diff --git a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
index 2ed7e4b..ebc3d6d 100644
--- a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
@@ -100,8 +100,10 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary
-            this->land_boundary.GetEX(
-                column(dbound.surface_normal, gp), column(boundary.q_at_gp, gp), column(this->q_ex, gp));
+            this->land_boundary.GetEX(column(dbound.surface_normal, gp),
+                                      column(boundary.q_at_gp, gp),
+                                      column(boundary.aux_at_gp, gp),
+                                      column(this->q_ex, gp));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
 
diff --git a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
index 3fc8cac..9c4a20f 100644
--- a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
@@ -90,12 +90,15 @@ void Levee::ComputeFlux(InterfaceType& intface) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary in
-            this->land_boundary.GetEX(
-                column(intface.surface_normal_in, gp), column(boundary_in.q_at_gp, gp), column(this->q_in_ex, gp));
+            this->land_boundary.GetEX(column(intface.surface_normal_in, gp),
+                                      column(boundary_in.q_at_gp, gp),
+                                      column(boundary_in.aux_at_gp, gp),
+                                      column(this->q_in_ex, gp));
 
             // reflective boundary ex
             this->land_boundary.GetEX(column(intface.surface_normal_ex, gp_ex),
                                       column(boundary_ex.q_at_gp, gp_ex),
+                                      column(boundary_ex.aux_at_gp, gp_ex),
                                       column(this->q_ex_ex, gp_ex));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
-- 
2.43.0


From 5bfc6bbeac96c6acec07d60cf7e3bb4544c78c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 09/57] fix: phases and equilibrium arguments of implicit open
 boundaries are in degrees

---
 .../boundary_conditions/ihdg_swe_bc_flow.hpp                  | 4 ++--
 .../boundary_conditions/ihdg_swe_bc_tide.hpp                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
index a6455f1..4f36ea7 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
@@ -156,8 +156,8 @@ void Flow::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
     for (uint con = 0; con < this->frequency.size(); ++con) {
         for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
             this->qn[gp] += stepper.GetRampNext() * this->forcing_fact[con] * this->amplitude_gp[con][gp] *
-                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() + this->equilib_arg[con] -
-                                this->phase_gp[con][gp]);
+                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
+                                (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
index 23c7fc5..89c7a82 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
@@ -153,7 +153,7 @@ void Tide::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
             this->q_ex(SWE::Variables::ze, gp) += stepper.GetRampNext() * this->forcing_fact[con] *
                                                   this->amplitude_gp[con][gp] *
                                                   cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
-                                                      this->equilib_arg[con] - this->phase_gp[con][gp]);
+                                                      (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
-- 
2.43.0


From fdb80ef0c5d66e903c9e375f59a940923510f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 10/57] fix: implicit source Jacobian contains the derivative
 of the hydrostatic term

---
 .../kernels_processor/ihdg_swe_proc_source.hpp                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index cce1ae6..67cd3de 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -26,6 +26,10 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
 
     set_constant(internal.dsource_dq_at_gp, 0.0);
 
+    // hydrostatic pressure contribution
+    row(internal.dsource_dq_at_gp, JacobianVariables::qx_ze) = Global::g * row(internal.db_at_gp, GlobalCoord::x);
+    row(internal.dsource_dq_at_gp, JacobianVariables::qy_ze) = Global::g * row(internal.db_at_gp, GlobalCoord::y);
+
     if (SWE::SourceTerms::bottom_friction) {
         double Cf      = SWE::SourceTerms::Cf;
         double dCf_dze = 0.0;
-- 
2.43.0


From 3da7655a3123a3cdb5cc8d621e179019e26251b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:25 +0000
Subject: [PATCH 11/57] fix: the Jacobian of implicit open boundaries includes
 the prescribed state's dependence on the interior

---
 .../boundary_conditions/ihdg_swe_bc_flow.hpp              | 7 ++++++-
 .../boundary_conditions/ihdg_swe_bc_tide.hpp              | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
index 4f36ea7..d90fb40 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
@@ -182,7 +182,12 @@ void Flow::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
         column(dB_dq_hat, SWE::Variables::qy) +=
             this->dAplus_dqy[gp] * (q - q_hat) - this->dAminus_dqy[gp] * (q_inf - q_hat);
 
-        column(boundary.delta_global_kernel_at_gp, gp)          = flatten<double>(this->Aplus[gp]);
+        // the prescribed state takes its surface elevation from the interior
+        StatMatrix<double, SWE::n_variables, SWE::n_variables> dB_dq = this->Aplus[gp];
+
+        column(dB_dq, SWE::Variables::ze) -= column(this->Aminus[gp], SWE::Variables::ze);
+
+        column(boundary.delta_global_kernel_at_gp, gp)          = flatten<double>(dB_dq);
         column(edge_internal.delta_hat_global_kernel_at_gp, gp) = flatten<double>(dB_dq_hat);
         column(edge_internal.rhs_global_kernel_at_gp, gp) =
             this->Aplus[gp] * (q - q_hat) - this->Aminus[gp] * (q_inf - q_hat);
diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
index 89c7a82..2f430bc 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
@@ -174,7 +174,13 @@ void Tide::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
         column(dB_dq_hat, SWE::Variables::qy) +=
             this->dAplus_dqy[gp] * (q - q_hat) - this->dAminus_dqy[gp] * (q_inf - q_hat);
 
-        column(boundary.delta_global_kernel_at_gp, gp)          = flatten<double>(this->Aplus[gp]);
+        // the prescribed state takes its momentum from the interior
+        StatMatrix<double, SWE::n_variables, SWE::n_variables> dB_dq = this->Aplus[gp];
+
+        column(dB_dq, SWE::Variables::qx) -= column(this->Aminus[gp], SWE::Variables::qx);
+        column(dB_dq, SWE::Variables::qy) -= column(this->Aminus[gp], SWE::Variables::qy);
+
+        column(boundary.delta_global_kernel_at_gp, gp)          = flatten<double>(dB_dq);
         column(edge_internal.delta_hat_global_kernel_at_gp, gp) = flatten<double>(dB_dq_hat);
         column(edge_internal.rhs_global_kernel_at_gp, gp) =
             this->Aplus[gp] * (q - q_hat) - this->Aminus[gp] * (q_inf - q_hat);
-- 
2.43.0


From 1152370874419eb1caf94a1ace4bd3983445f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 12/57] fix: enabled Coriolis forcing enters the momentum
 source

---
 .../ihdg_swe_proc_source.hpp                  |  8 ++++++++
 .../problem/SWE/problem_source/swe_source.hpp | 20 +++++++++----------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index 67cd3de..b287e08 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -74,6 +74,14 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
         }
     }
 
+    if (SWE::SourceTerms::coriolis) {
+        for (uint gp = 0; gp < elt.data.get_ngp_internal(); ++gp) {
+            // compute coriolis contribution
+            internal.dsource_dq_at_gp(JacobianVariables::qx_qy, gp) += source.coriolis_f;
+            internal.dsource_dq_at_gp(JacobianVariables::qy_qx, gp) -= source.coriolis_f;
+        }
+    }
+
     SWE::get_source(stepper.GetTimeAtNextStage(), elt);
 
     double theta = stepper.GetTheta();
diff --git a/source/problem/SWE/problem_source/swe_source.hpp b/source/problem/SWE/problem_source/swe_source.hpp
index 1205c9a..c1522cd 100644
--- a/source/problem/SWE/problem_source/swe_source.hpp
+++ b/source/problem/SWE/problem_source/swe_source.hpp
@@ -50,6 +50,16 @@ void get_source(const double t, ElementType& elt) {
         }
     }
 
+    if (SWE::SourceTerms::coriolis) {
+        for (uint gp = 0; gp < elt.data.get_ngp_internal(); ++gp) {
+            // compute coriolis contribution
+            internal.source_at_gp(SWE::Variables::qx, gp) +=
+                source.coriolis_f * internal.q_at_gp(SWE::Variables::qy, gp);
+            internal.source_at_gp(SWE::Variables::qy, gp) -=
+                source.coriolis_f * internal.q_at_gp(SWE::Variables::qx, gp);
+        }
+    }
+
     /*if (SWE::SourceTerms::meteo_forcing) {
         // elt.ComputeNodalUgp(source.tau_s, internal.tau_s_at_gp);
         // elt.ComputeNodalDUgp(source.p_atm, internal.dp_atm_at_gp);
@@ -83,16 +93,6 @@ void get_source(const double t, ElementType& elt) {
                                                              internal.aux_at_gp(SWE::Auxiliaries::h, gp) *
                                                              internal.dtide_pot_at_gp(GlobalCoord::y, gp);
         }
-    }
-
-    if (SWE::SourceTerms::coriolis) {
-        for (uint gp = 0; gp < elt.data.get_ngp_internal(); ++gp) {
-            // compute coriolis contribution
-            internal.source_at_gp(SWE::Variables::qx, gp) +=
-                source.coriolis_f * internal.q_at_gp(SWE::Variables::qy, gp);
-            internal.source_at_gp(SWE::Variables::qy, gp) -=
-                source.coriolis_f * internal.q_at_gp(SWE::Variables::qx, gp);
-        }
     }*/
 }
 }
-- 
2.43.0


From cf56bcfb73d5fd0cfe24b7417cd571cdce9edb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 13/57] fix: enabled meteorological forcing enters the momentum
 source

---
 .../ihdg_swe_proc_source.hpp                  | 11 ++++++++++
 .../problem/SWE/problem_source/swe_source.hpp | 20 +++++++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index b287e08..2df0b07 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -84,6 +84,17 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
 
     SWE::get_source(stepper.GetTimeAtNextStage(), elt);
 
+    if (SWE::SourceTerms::meteo_forcing) {
+        for (uint gp = 0; gp < elt.data.get_ngp_internal(); ++gp) {
+            // compute atmospheric pressure contribution
+            internal.dsource_dq_at_gp(JacobianVariables::qx_ze, gp) -=
+                internal.aux_at_gp(SWE::Auxiliaries::sp, gp) * internal.dp_atm_at_gp(GlobalCoord::x, gp) /
+                Global::rho_water;
+            internal.dsource_dq_at_gp(JacobianVariables::qy_ze, gp) -=
+                internal.dp_atm_at_gp(GlobalCoord::y, gp) / Global::rho_water;
+        }
+    }
+
     double theta = stepper.GetTheta();
 
     for (uint dof_i = 0; dof_i < elt.data.get_ndof(); ++dof_i) {
diff --git a/source/problem/SWE/problem_source/swe_source.hpp b/source/problem/SWE/problem_source/swe_source.hpp
index c1522cd..3712cb7 100644
--- a/source/problem/SWE/problem_source/swe_source.hpp
+++ b/source/problem/SWE/problem_source/swe_source.hpp
@@ -60,9 +60,21 @@ void get_source(const double t, ElementType& elt) {
         }
     }
 
-    /*if (SWE::SourceTerms::meteo_forcing) {
-        // elt.ComputeNodalUgp(source.tau_s, internal.tau_s_at_gp);
-        // elt.ComputeNodalDUgp(source.p_atm, internal.dp_atm_at_gp);
+    if (SWE::SourceTerms::meteo_forcing) {
+        const uint nnode = elt.data.get_nnode();
+
+        DynMatrix<double> tau_s(SWE::n_dimensions, nnode);
+        DynRowVector<double> p_atm(nnode);
+
+        for (uint node = 0; node < nnode; ++node) {
+            tau_s(GlobalCoord::x, node) = source.tau_s[node][GlobalCoord::x];
+            tau_s(GlobalCoord::y, node) = source.tau_s[node][GlobalCoord::y];
+            p_atm[node]                 = source.p_atm[node];
+        }
+
+        internal.tau_s_at_gp                        = elt.ComputeNodalUgp(tau_s);
+        row(internal.dp_atm_at_gp, GlobalCoord::x) = elt.ComputeNodalDUgp(GlobalCoord::x, p_atm);
+        row(internal.dp_atm_at_gp, GlobalCoord::y) = elt.ComputeNodalDUgp(GlobalCoord::y, p_atm);
 
         for (uint gp = 0; gp < elt.data.get_ngp_internal(); ++gp) {
             // compute surface friction contribution
@@ -81,7 +93,7 @@ void get_source(const double t, ElementType& elt) {
         }
     }
 
-    if (SWE::SourceTerms::tide_potential) {
+    /*if (SWE::SourceTerms::tide_potential) {
         // elt.ComputeNodalDUgp(source.tide_pot, internal.dtide_pot_at_gp);
 
         for (uint gp = 0; gp < elt.data.get_ngp_internal(); ++gp) {
-- 
2.43.0


From 59b92daf6e191c400f7ab675b1c1fb4c723a3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:42 +0000
Subject: [PATCH 14/57] fix: a node missing from the meteo data is refused

---
 .../problem/SWE/problem_parser/swe_parser.hpp | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 51064b7..274ad20 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -155,18 +155,21 @@ void Parser::InterpolateMeteoData(const StepperType& stepper) {
 
     double interp_factor = (stepper.GetTimeAtCurrentStage() - t_start) / (t_end - t_start);
 
+    const std::map<uint, std::vector<double>>& data_start = this->node_meteo_data_step[step_start];
+    const std::map<uint, std::vector<double>>& data_end   = this->node_meteo_data_step[step_end];
+
     for (auto& it : this->node_meteo_data_interp) {
-        it.second[0] = this->node_meteo_data_step[step_start][it.first][0] +
-                       interp_factor * (this->node_meteo_data_step[step_end][it.first][0] -
-                                        this->node_meteo_data_step[step_start][it.first][0]);
+        auto start = data_start.find(it.first);
+        auto end   = data_end.find(it.first);
 
-        it.second[1] = this->node_meteo_data_step[step_start][it.first][1] +
-                       interp_factor * (this->node_meteo_data_step[step_end][it.first][1] -
-                                        this->node_meteo_data_step[step_start][it.first][1]);
+        if (start == data_start.end() || end == data_end.end()) {
+            throw std::logic_error("Fatal Error: meteo data for node " + std::to_string(it.first) +
+                                   " was not found!\n");
+        }
 
-        it.second[2] = this->node_meteo_data_step[step_start][it.first][2] +
-                       interp_factor * (this->node_meteo_data_step[step_end][it.first][2] -
-                                        this->node_meteo_data_step[step_start][it.first][2]);
+        for (uint i = 0; i < 3; ++i) {
+            it.second[i] = start->second[i] + interp_factor * (end->second[i] - start->second[i]);
+        }
     }
 }
 }
-- 
2.43.0


From bb1e015b02c1c61211de453db14000005892d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 15/57] fix: the trouble indicator takes the inflow direction
 from the momentum

---
 .../SWE/problem_slope_limiter/swe_trouble_check.hpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
index 774b1ef..b9b9704 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
@@ -27,12 +27,12 @@ void check_trouble(DiscretizationType& discretization, const StepperType& steppe
                 row(boundary_ex.q_at_gp, SWE::Variables::ze) + row(boundary_ex.aux_at_gp, SWE::Auxiliaries::bath);
 
             const auto qn_in =
-                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::x), row(boundary_in.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::y), row(boundary_in.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::x), row(boundary_in.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::y), row(boundary_in.q_at_gp, SWE::Variables::qy));
 
             const auto qn_ex =
-                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::x), row(boundary_ex.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::y), row(boundary_ex.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::x), row(boundary_ex.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::y), row(boundary_ex.q_at_gp, SWE::Variables::qy));
 
             if (intface.IntegrationIN(qn_in) < 0.0) {
                 const uint ngp                              = intface.data_in.get_ngp_boundary(intface.bound_id_in);
@@ -66,8 +66,8 @@ void check_trouble(DiscretizationType& discretization, const StepperType& steppe
 
         if (dbound.data.wet_dry_state.wet) {
             const auto qn =
-                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::x), row(boundary.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::y), row(boundary.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::x), row(boundary.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::y), row(boundary.q_at_gp, SWE::Variables::qy));
 
             if (dbound.Integration(qn) < 0.0) {
                 const uint ngp                       = dbound.data.get_ngp_boundary(dbound.bound_id);
-- 
2.43.0


From c9556eab16494bde19f44dfff146a86d0fed9307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:05 +0000
Subject: [PATCH 16/57] fix: a grid without generic boundary section has none,
 not an uninitialised number of them

---
 source/preprocessor/ADCIRC_reader/adcirc_format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
index 6f2fc79..c706c39 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
@@ -28,8 +28,8 @@ struct AdcircFormat {
     std::map<uint, std::vector<double>> BARINCFSB;  // for internal barrier segment k
     std::map<uint, std::vector<double>> BARINCFSP;  // for internal barrier segment k
 
-    uint NGEN;  // number of generic boundaries
-    uint NNGN;  // total number of nodes for generic boundaries
+    uint NGEN = 0;  // number of generic boundaries
+    uint NNGN = 0;  // total number of nodes for generic boundaries
 
     std::vector<std::vector<uint>> NBGN;  // node numbers for a segment of generic boundary
 
-- 
2.43.0


From ce779b9521bd96329b1103fd1d4919a576f503f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:05 +0000
Subject: [PATCH 17/57] fix: a truncated or malformed ADCIRC grid is refused

---
 .../ADCIRC_reader/adcirc_format.cpp           | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
index 0f992dc..310116a 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
@@ -7,6 +7,12 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
 
     std::ifstream ifs(fort14);
 
+    auto check_read = [&ifs, &fort14]() {
+        if (!ifs) {
+            throw std::logic_error("Fatal Error: ADCIRC mesh file " + fort14 + " is truncated or malformed!\n");
+        }
+    };
+
     ifs >> this->name;
     ifs.ignore(1000, '\n');
 
@@ -14,6 +20,7 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
 
     ifs >> n_elements;
     ifs >> n_nodes;
+    check_read();
     ifs.ignore(1000, '\n');
 
     {  // read in node information
@@ -23,9 +30,12 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
         for (uint i = 0; i < n_nodes; ++i) {
             ifs >> node_name;
             ifs >> node_data[0] >> node_data[1] >> node_data[2];
+            check_read();
 
-            assert(!this->nodes.count(node_name));  // Can't define a node twice
-            this->nodes.insert({node_name, node_data});
+            if (!this->nodes.insert({node_name, node_data}).second) {
+                throw std::logic_error("Fatal Error: node " + std::to_string(node_name) +
+                                       " is defined twice in ADCIRC mesh!\n");
+            }
             ifs.ignore(1000, '\n');
         }
     }
@@ -37,9 +47,12 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
         for (uint i = 0; i < n_elements; ++i) {
             ifs >> element_name;
             ifs >> element_data[0] >> element_data[1] >> element_data[2] >> element_data[3];
+            check_read();
 
-            assert(!this->elements.count(element_name));  // Can't define element twice
-            this->elements.insert({element_name, element_data});
+            if (!this->elements.insert({element_name, element_data}).second) {
+                throw std::logic_error("Fatal Error: element " + std::to_string(element_name) +
+                                       " is defined twice in ADCIRC mesh!\n");
+            }
             ifs.ignore(1000, '\n');
         }
     }
@@ -48,16 +61,19 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
         ifs >> this->NOPE;
         ifs.ignore(1000, '\n');
         ifs >> this->NETA;
+        check_read();
         ifs.ignore(1000, '\n');
 
         this->NBDV.reserve(this->NOPE);
         uint n_nodes_bdry;
         for (uint bdry = 0; bdry < this->NOPE; ++bdry) {
             ifs >> n_nodes_bdry;
+            check_read();
             ifs.ignore(1000, '\n');
             this->NBDV.emplace_back(n_nodes_bdry);
             for (uint n = 0; n < n_nodes_bdry; ++n) {
                 ifs >> this->NBDV[bdry][n];
+                check_read();
                 ifs.ignore(1000, '\n');
             }
         }
@@ -67,6 +83,7 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
         ifs >> this->NBOU;
         ifs.ignore(1000, '\n');
         ifs >> this->NVEL;
+        check_read();
         ifs.ignore(1000, '\n');
 
         this->NBDV.reserve(this->NBOU);
@@ -75,6 +92,7 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
         for (uint bdry = 0; bdry < this->NBOU; ++bdry) {
             ifs >> n_nodes_bdry;
             ifs >> this->IBTYPE[bdry];
+            check_read();
             ifs.ignore(1000, '\n');
 
             if (this->IBTYPE[bdry] % 10 == 0 ||  // land
@@ -84,6 +102,7 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
                 this->NBVV.emplace_back(n_nodes_bdry);
                 for (uint n = 0; n < n_nodes_bdry; ++n) {
                     ifs >> this->NBVV[bdry][n];
+                    check_read();
                     ifs.ignore(1000, '\n');
                 }
             } else if (this->IBTYPE[bdry] % 10 == 4) {  // internal barrier
@@ -98,18 +117,21 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
                     ifs >> this->BARINTH[bdry][n];
                     ifs >> this->BARINCFSB[bdry][n];
                     ifs >> this->BARINCFSP[bdry][n];
+                    check_read();
                     ifs.ignore(1000, '\n');
                 }
             } else if (this->IBTYPE[bdry] == 77) {  // function
                 this->NBVV.emplace_back(n_nodes_bdry);
                 for (uint n = 0; n < n_nodes_bdry; ++n) {
                     ifs >> this->NBVV[bdry][n];
+                    check_read();
                     ifs.ignore(1000, '\n');
                 }
             } else if (this->IBTYPE[bdry] == 88) {  // outflow
                 this->NBVV.emplace_back(n_nodes_bdry);
                 for (uint n = 0; n < n_nodes_bdry; ++n) {
                     ifs >> this->NBVV[bdry][n];
+                    check_read();
                     ifs.ignore(1000, '\n');
                 }
             } else {
@@ -136,10 +158,12 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
         uint n_nodes_bdry;
         for (uint bdry = 0; bdry < this->NGEN; ++bdry) {
             ifs >> n_nodes_bdry;
+            check_read();
             ifs.ignore(1000, '\n');
             this->NBGN.emplace_back(n_nodes_bdry);
             for (uint n = 0; n < n_nodes_bdry; ++n) {
                 ifs >> this->NBGN[bdry][n];
+                check_read();
                 ifs.ignore(1000, '\n');
             }
         }
-- 
2.43.0


From 9515813d54c333a393b25f739266c15441b4a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 18/57] fix: faces of clockwise elements are those of their
 shape

---
 source/preprocessor/mesh_metadata.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/source/preprocessor/mesh_metadata.cpp b/source/preprocessor/mesh_metadata.cpp
index 337a1dc..d3f4e9f 100644
--- a/source/preprocessor/mesh_metadata.cpp
+++ b/source/preprocessor/mesh_metadata.cpp
@@ -23,8 +23,19 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
         uint ID = elt.first;
         this->elements.insert({ID, ElementMetaData(3)});
 
+        std::vector<uint>& node_ID = this->elements.at(ID).node_ID;
+
         for (uint i = 0; i < 3; ++i) {
-            this->elements.at(ID).node_ID[i] = elt.second[i + 1];
+            node_ID[i] = elt.second[i + 1];
+        }
+
+        // list nodes counter-clockwise, so that faces and nodal data match those of the element's shape
+        const auto& a = mesh_file.nodes.at(node_ID[0]);
+        const auto& b = mesh_file.nodes.at(node_ID[1]);
+        const auto& c = mesh_file.nodes.at(node_ID[2]);
+
+        if ((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]) < 0) {
+            std::swap(node_ID[0], node_ID[2]);
         }
     }
 
@@ -32,8 +43,8 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
     using eltID_faceID = std::pair<uint, uint>;
     std::unordered_map<std::uint64_t, std::pair<eltID_faceID, eltID_faceID>> edge_dictionary;
 
-    for (const auto& elt : mesh_file.elements) {
-        std::vector<uint> node{elt.second[1], elt.second[2], elt.second[3]};
+    for (const auto& elt : this->elements) {
+        const std::vector<uint>& node = elt.second.node_ID;
 
         for (uint k = 0; k < 3; ++k) {
             std::uint64_t curr_key = static_cast<std::uint64_t>(std::min(node[(k + 1) % 3], node[(k + 2) % 3])) << 32 |
@@ -66,8 +77,8 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
             uint elt_id  = edge.second.first.first;
             uint face_id = edge.second.first.second;
 
-            std::array<uint, 2> nodes{mesh_file.elements.at(elt_id)[(face_id + 1) % 3 + 1],
-                                      mesh_file.elements.at(elt_id)[(face_id + 2) % 3 + 1]};
+            std::array<uint, 2> nodes{this->elements.at(elt_id).node_ID[(face_id + 1) % 3],
+                                      this->elements.at(elt_id).node_ID[(face_id + 2) % 3]};
 
             this->elements.at(elt_id).neighbor_ID[face_id]   = DEFAULT_ID;
             this->elements.at(elt_id).boundary_type[face_id] = mesh_file.get_ibtype(nodes);
-- 
2.43.0


From 9459407b3de4f1fce238e61a69a7227dc7f43cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 19/57] fix: a grid with an edge shared by more than two
 elements is refused

---
 source/preprocessor/mesh_metadata.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/preprocessor/mesh_metadata.cpp b/source/preprocessor/mesh_metadata.cpp
index d3f4e9f..63b35a6 100644
--- a/source/preprocessor/mesh_metadata.cpp
+++ b/source/preprocessor/mesh_metadata.cpp
@@ -51,6 +51,10 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
                                      std::max(node[(k + 1) % 3], node[(k + 2) % 3]);
 
             if (edge_dictionary.count(curr_key)) {  // if already one element has the edge.
+                if (edge_dictionary.at(curr_key).second.first != DEFAULT_ID) {
+                    throw std::logic_error("Fatal Error: in ADCIRC mesh more than two elements share an edge!\n");
+                }
+
                 edge_dictionary.at(curr_key).second = std::make_pair(elt.first, k);
             } else {
                 std::pair<eltID_faceID, eltID_faceID> edge_info{{elt.first, k}, {DEFAULT_ID, 0}};
-- 
2.43.0


From 745111769aa10bd3c120f76bac4ac06adaf2704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 20/57] fix: island boundaries are land

---
 source/preprocessor/ADCIRC_reader/adcirc_format.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
index 310116a..b531867 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
@@ -247,6 +247,15 @@ SWE::BoundaryTypes AdcircFormat::get_ibtype(std::array<uint, 2>& node_pair) cons
             if (has_edge(this->NBVV[segment_id].cbegin(), this->NBVV[segment_id].cend(), node_pair)) {
                 return SWE::BoundaryTypes::land;
             }
+        } else if (this->IBTYPE[segment_id] % 10 == 1) {
+            // an island is a closed land boundary, its first node need not be repeated
+            const std::vector<uint>& island = this->NBVV[segment_id];
+
+            if (has_edge(island.cbegin(), island.cend(), node_pair) ||
+                (!island.empty() && ((island.front() == node_pair[0] && island.back() == node_pair[1]) ||
+                                     (island.front() == node_pair[1] && island.back() == node_pair[0])))) {
+                return SWE::BoundaryTypes::land;
+            }
         } else if (this->IBTYPE[segment_id] % 10 == 2) {
             if (has_edge(this->NBVV[segment_id].cbegin(), this->NBVV[segment_id].cend(), node_pair)) {
                 return SWE::BoundaryTypes::flow;
-- 
2.43.0


From 080bb60f59a5c7a59392d623b91602b6333230c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:21 +0000
Subject: [PATCH 21/57] fix: truncated or malformed mesh meta and distributed
 boundary files are refused

---
 source/preprocessor/mesh_metadata.cpp | 22 ++++++++++++++++++----
 source/preprocessor/mesh_metadata.hpp |  2 +-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/source/preprocessor/mesh_metadata.cpp b/source/preprocessor/mesh_metadata.cpp
index 63b35a6..7c007ed 100644
--- a/source/preprocessor/mesh_metadata.cpp
+++ b/source/preprocessor/mesh_metadata.cpp
@@ -106,26 +106,36 @@ MeshMetaData::MeshMetaData(const std::string& mesh_file) {
 
     std::ifstream ifs(mesh_file);
 
+    auto check_read = [&ifs, &mesh_file]() {
+        if (!ifs) {
+            throw std::logic_error("Fatal Error: meta mesh file " + mesh_file + " is truncated or malformed!\n");
+        }
+    };
+
     ifs >> this->mesh_name;
     ifs.ignore(1000, '\n');
 
     uint numelements;
     ifs >> numelements;
+    check_read();
     ifs.ignore(1000, '\n');
-    uint elt_id;
+    uint elt_id = 0;
     for (uint e = 0; e < numelements; ++e) {
         ifs >> elt_id;
         ifs >> this->elements[elt_id];
+        check_read();
         ifs.ignore(1000, '\n');
     }
 
     uint numnodes;
     ifs >> numnodes;
+    check_read();
     ifs.ignore(1000, '\n');
-    uint node_id;
+    uint node_id = 0;
     for (uint n = 0; n < numnodes; ++n) {
         ifs >> node_id;
         ifs >> this->nodes[node_id];
+        check_read();
         ifs.ignore(1000, '\n');
     }
 
@@ -178,7 +188,9 @@ DistributedBoundaryMetaData::DistributedBoundaryMetaData(const std::string& dbmd
     while (std::getline(file, line)) {
         std::stringstream neighborhood_data(line);
 
-        neighborhood_data >> locality_A >> submesh_A >> locality_B >> submesh_B >> n_dboubdaries;
+        if (!(neighborhood_data >> locality_A >> submesh_A >> locality_B >> submesh_B >> n_dboubdaries)) {
+            throw std::logic_error("Fatal Error: distributed boundary file " + dbmd_file + " is malformed!\n");
+        }
 
         RankBoundaryMetaData rank_boundary;
 
@@ -210,7 +222,9 @@ DistributedBoundaryMetaData::DistributedBoundaryMetaData(const std::string& dbmd
         for (uint db = 0; db < n_dboubdaries; ++db) {
             DBPairMetaData dboundary_meta_data;
 
-            file >> dboundary_meta_data;
+            if (!(file >> dboundary_meta_data)) {
+                throw std::logic_error("Fatal Error: distributed boundary file " + dbmd_file + " is truncated!\n");
+            }
 
             file.ignore(1000, '\n');
 
diff --git a/source/preprocessor/mesh_metadata.hpp b/source/preprocessor/mesh_metadata.hpp
index 31d7420..c0a9b1a 100644
--- a/source/preprocessor/mesh_metadata.hpp
+++ b/source/preprocessor/mesh_metadata.hpp
@@ -49,7 +49,7 @@ struct ElementMetaData {
     }
 
     friend std::istream& operator>>(std::istream& s, ElementMetaData& elt) {
-        uint n_faces;
+        uint n_faces = 0;
         s >> n_faces;
 
         elt.node_ID.resize(n_faces);
-- 
2.43.0


From d474311967bf5ac6ff90a2b56d9ca577febac4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:04 +0000
Subject: [PATCH 22/57] fix: malformed generic boundary headers and levees of
 less than two nodes are refused

---
 .../preprocessor/ADCIRC_reader/adcirc_format.cpp   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
index b531867..b93e65d 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
@@ -106,6 +106,10 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
                     ifs.ignore(1000, '\n');
                 }
             } else if (this->IBTYPE[bdry] % 10 == 4) {  // internal barrier
+                if (n_nodes_bdry < 2) {
+                    throw std::logic_error("Fatal Error: levee of less than two nodes in ADCIRC mesh!\n");
+                }
+
                 this->NBVV.emplace_back(n_nodes_bdry);
                 this->IBCONN[bdry]    = std::vector<uint>(n_nodes_bdry);
                 this->BARINTH[bdry]   = std::vector<double>(n_nodes_bdry);
@@ -144,14 +148,14 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
     std::string line;
     std::getline(ifs, line);
 
-    if (line.find_first_not_of(' ') != std::string::npos) {  // process generic boundaries if there are any, i.e. not a
-                                                             // white space or end of file
+    // process generic boundaries if there are any, i.e. not a white space or end of file
+    if (line.find_first_not_of(" \t\r") != std::string::npos) {
         std::stringstream stream;
         stream = std::stringstream(line);
 
-        stream >> this->NGEN;
-        stream.ignore(1000, '\n');
-        ifs >> this->NNGN;
+        if (!(stream >> this->NGEN) || !(ifs >> this->NNGN)) {
+            throw std::logic_error("Fatal Error: ADCIRC mesh file " + fort14 + " is truncated or malformed!\n");
+        }
         ifs.ignore(1000, '\n');
 
         this->NBGN.reserve(this->NGEN);
-- 
2.43.0


From 0208f9c082f24dd1bca4db037325eb4314dd82be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 23/57] fix: a mesh with an edge that has no counterpart in its
 neighbour is refused

---
 source/geometry/element.hpp                   | 21 +++++++++++++++----
 .../swe_pre_create_intface.hpp                | 16 ++++++++++++--
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/source/geometry/element.hpp b/source/geometry/element.hpp
index 43c2e99..7ce633d 100644
--- a/source/geometry/element.hpp
+++ b/source/geometry/element.hpp
@@ -283,10 +283,23 @@ void Element<dimension, MasterType, ShapeType, DataType>::CreateRawBoundaries(
         std::vector<uint> bound_node_ID = this->shape.GetBoundaryNodeID(bound_id, this->node_ID);
 
         if (is_internal(this->boundary_type[bound_id])) {
-            raw_boundaries[this->boundary_type[bound_id]].emplace(
-                std::pair<uint, uint>{this->ID, this->neighbor_ID[bound_id]},
-                RawBoundary<dimension - 1, DataType>(
-                    this->master->p, bound_id, std::move(bound_node_ID), this->data, *my_basis, *my_master, *my_shape));
+            bool inserted =
+                raw_boundaries[this->boundary_type[bound_id]]
+                    .emplace(std::pair<uint, uint>{this->ID, this->neighbor_ID[bound_id]},
+                             RawBoundary<dimension - 1, DataType>(this->master->p,
+                                                                  bound_id,
+                                                                  std::move(bound_node_ID),
+                                                                  this->data,
+                                                                  *my_basis,
+                                                                  *my_master,
+                                                                  *my_shape))
+                    .second;
+
+            if (!inserted) {
+                throw std::logic_error("Fatal Error: element " + std::to_string(this->ID) +
+                                       " has two edges in common with element " +
+                                       std::to_string(this->neighbor_ID[bound_id]) + "!\n");
+            }
         } else {
             raw_boundaries[this->boundary_type[bound_id]].emplace(
                 std::pair<uint, uint>{this->ID, bound_id},
diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_create_intface.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_create_intface.hpp
index 8d7ac66..e25eda2 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_create_intface.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_create_intface.hpp
@@ -19,12 +19,18 @@ void create_interfaces(std::map<uchar, std::map<std::pair<uint, uint>, RawBounda
             while (itt != it->second.end()) {
                 std::pair<uint, uint> key_pre_int_ex = std::pair<uint, uint>{itt->first.second, itt->first.first};
 
-                if (it->second.find(key_pre_int_ex) != it->second.end()) {
+                if (key_pre_int_ex != itt->first && it->second.find(key_pre_int_ex) != it->second.end()) {
                     auto& raw_boundary_in = itt->second;
                     auto& raw_boundary_ex = it->second.find(key_pre_int_ex)->second;
 
                     mesh.template CreateInterface<InterfaceTypeInternal>(std::move(raw_boundary_in),
                                                                          std::move(raw_boundary_ex));
+
+                    it->second.erase(key_pre_int_ex);
+                } else {
+                    throw std::logic_error("Fatal Error: edge of element " + std::to_string(itt->first.first) +
+                                           " has no counterpart in element " + std::to_string(itt->first.second) +
+                                           "!\n");
                 }
 
                 it->second.erase(itt++);
@@ -43,7 +49,7 @@ void create_interfaces(std::map<uchar, std::map<std::pair<uint, uint>, RawBounda
             while (itt != it->second.end()) {
                 std::pair<uint, uint> key_pre_int_ex = std::pair<uint, uint>{itt->first.second, itt->first.first};
 
-                if (it->second.find(key_pre_int_ex) != it->second.end()) {
+                if (key_pre_int_ex != itt->first && it->second.find(key_pre_int_ex) != it->second.end()) {
                     auto& raw_boundary_in = itt->second;
                     auto& raw_boundary_ex = it->second.find(key_pre_int_ex)->second;
 
@@ -69,6 +75,12 @@ void create_interfaces(std::map<uchar, std::map<std::pair<uint, uint>, RawBounda
 
                     mesh.template CreateInterface<InterfaceTypeLevee>(
                         std::move(raw_boundary_in), std::move(raw_boundary_ex), levee);
+
+                    it->second.erase(key_pre_int_ex);
+                } else {
+                    throw std::logic_error("Fatal Error: edge of element " + std::to_string(itt->first.first) +
+                                           " has no counterpart in element " + std::to_string(itt->first.second) +
+                                           "!\n");
                 }
 
                 it->second.erase(itt++);
-- 
2.43.0


From 63159564c9a5ef3148947d49006b58fc9fefeac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 24/57] fix: a Green-Naghdi mesh with an edge that has no
 counterpart in its neighbour is refused

---
 .../gn_pre_create_intface.hpp                    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_intface.hpp b/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_intface.hpp
index f664dd3..618d52f 100644
--- a/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_intface.hpp
+++ b/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_intface.hpp
@@ -19,12 +19,18 @@ void create_interfaces(std::map<uchar, std::map<std::pair<uint, uint>, RawBounda
             while (itt != it->second.end()) {
                 std::pair<uint, uint> key_pre_int_ex = std::pair<uint, uint>{itt->first.second, itt->first.first};
 
-                if (it->second.find(key_pre_int_ex) != it->second.end()) {
+                if (key_pre_int_ex != itt->first && it->second.find(key_pre_int_ex) != it->second.end()) {
                     auto& raw_boundary_in = itt->second;
                     auto& raw_boundary_ex = it->second.find(key_pre_int_ex)->second;
 
                     mesh.template CreateInterface<InterfaceTypeInternal>(std::move(raw_boundary_in),
                                                                          std::move(raw_boundary_ex));
+
+                    it->second.erase(key_pre_int_ex);
+                } else {
+                    throw std::logic_error("Fatal Error: edge of element " + std::to_string(itt->first.first) +
+                                           " has no counterpart in element " + std::to_string(itt->first.second) +
+                                           "!\n");
                 }
 
                 it->second.erase(itt++);
@@ -43,7 +49,7 @@ void create_interfaces(std::map<uchar, std::map<std::pair<uint, uint>, RawBounda
             while (itt != it->second.end()) {
                 std::pair<uint, uint> key_pre_int_ex = std::pair<uint, uint>{itt->first.second, itt->first.first};
 
-                if (it->second.find(key_pre_int_ex) != it->second.end()) {
+                if (key_pre_int_ex != itt->first && it->second.find(key_pre_int_ex) != it->second.end()) {
                     auto& raw_boundary_in = itt->second;
                     auto& raw_boundary_ex = it->second.find(key_pre_int_ex)->second;
 
@@ -69,6 +75,12 @@ void create_interfaces(std::map<uchar, std::map<std::pair<uint, uint>, RawBounda
 
                     mesh.template CreateInterface<InterfaceTypeLevee>(
                         std::move(raw_boundary_in), std::move(raw_boundary_ex), levee);
+
+                    it->second.erase(key_pre_int_ex);
+                } else {
+                    throw std::logic_error("Fatal Error: edge of element " + std::to_string(itt->first.first) +
+                                           " has no counterpart in element " + std::to_string(itt->first.second) +
+                                           "!\n");
                 }
 
                 it->second.erase(itt++);
-- 
2.43.0


From 2ac89a3ae3a534391ade00e0c9c9abc77c762278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 25/57] fix: generated coordinates and boundary forcing keep
 their precision

---
 mesh_generators/quad_mesh_generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mesh_generators/quad_mesh_generator.cpp b/mesh_generators/quad_mesh_generator.cpp
index 3a9dfa7..fa15d62 100644
--- a/mesh_generators/quad_mesh_generator.cpp
+++ b/mesh_generators/quad_mesh_generator.cpp
@@ -161,7 +161,7 @@ int main(int argc, const char* argv[]) {
 
     std::ofstream file(std::string{input.mesh_name + ".14"});
 
-    file << std::fixed << std::setprecision(12);
+    file << std::setprecision(17);
     file << "quadrilateral\n";
     file << 2 * m * n << "    " << (m + 1) * (n + 1) << '\n';
 
@@ -281,6 +281,8 @@ int main(int argc, const char* argv[]) {
 void WriteBCISFile(const std::string& mesh_name, const std::vector<Boundary>& boundaries) {
     std::ofstream file(std::string{mesh_name + ".bcis"});
 
+    file << std::setprecision(17);
+
     for (const Boundary& boundary : boundaries) {
         if ((boundary.type == SWE::BoundaryTypes::tide) || (boundary.type == SWE::BoundaryTypes::flow)) {
             file << static_cast<int>(boundary.type) << ' ' << boundary.nodes.size() << '\n';
-- 
2.43.0


From 47d1dcf31a353d4157d20addf5807e4639c996fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 26/57] fix: the mesh generator refuses zero subdivisions and
 wrapped-around pattern numbers

---
 mesh_generators/quad_mesh_generator.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mesh_generators/quad_mesh_generator.cpp b/mesh_generators/quad_mesh_generator.cpp
index fa15d62..b3284fd 100644
--- a/mesh_generators/quad_mesh_generator.cpp
+++ b/mesh_generators/quad_mesh_generator.cpp
@@ -367,11 +367,16 @@ MeshGeneratorInput::MeshGeneratorInput(const std::string& input_string) : bounda
         throw_missing_node("num_y_subdivisions");
     }
 
+    if (this->num_x_subdivisions == 0 || this->num_y_subdivisions == 0) {
+        throw std::logic_error("Error: numbers of subdivisions have to be positive");
+    }
+
     if (yaml_input["pattern"]) {
-        this->pattern = static_cast<Pattern>(yaml_input["pattern"].as<uint>());
-        if (this->pattern > 2) {
-            throw std::logic_error("Error: invalid pattern (" + std::to_string(this->pattern) + ") specified");
+        const uint pattern_id = yaml_input["pattern"].as<uint>();
+        if (pattern_id > 2) {
+            throw std::logic_error("Error: invalid pattern (" + std::to_string(pattern_id) + ") specified");
         }
+        this->pattern = static_cast<Pattern>(pattern_id);
     } else {
         throw_missing_node("pattern");
     }
-- 
2.43.0


From 2071164c97752bc603f2c5d2bdc5b6dca780bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 27/57] fix: the mesh generator reports files it cannot write

---
 mesh_generators/quad_mesh_generator.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mesh_generators/quad_mesh_generator.cpp b/mesh_generators/quad_mesh_generator.cpp
index b3284fd..d519449 100644
--- a/mesh_generators/quad_mesh_generator.cpp
+++ b/mesh_generators/quad_mesh_generator.cpp
@@ -275,6 +275,11 @@ int main(int argc, const char* argv[]) {
     file << "0 = Number of generic boundaries\n";
     file << "0 = Total number of generic boundary nodes\n";
 
+    file.close();
+    if (!file) {
+        throw std::logic_error("Error: unable to write mesh file " + input.mesh_name + ".14");
+    }
+
     WriteBCISFile(input.mesh_name, boundaries);
 }
 
@@ -295,6 +300,11 @@ void WriteBCISFile(const std::string& mesh_name, const std::vector<Boundary>& bo
             }
         }
     }
+
+    file.close();
+    if (!file) {
+        throw std::logic_error("Error: unable to write boundary file " + mesh_name + ".bcis");
+    }
 }
 
 MeshGeneratorInput::MeshGeneratorInput(const std::string& input_string) : boundary(4) {
-- 
2.43.0


From 09fe4ca31e0e323c47d5973ead13615d75c78174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 28/57] fix: a submesh without distributed boundaries no longer
 reads past an empty list

---
 source/communication/ompi_communicator.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/communication/ompi_communicator.cpp b/source/communication/ompi_communicator.cpp
index 4f0ba95..5d13ad3 100644
--- a/source/communication/ompi_communicator.cpp
+++ b/source/communication/ompi_communicator.cpp
@@ -19,6 +19,9 @@ OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
 }
 
 void OMPICommunicator::InitializeCommunication() {
+    if (this->rank_boundaries.empty())
+        return;
+
     uint ncomm   = this->rank_boundaries.begin()->send_buffer.size();
     uint nrbound = this->rank_boundaries.size();
 
@@ -59,18 +62,30 @@ void OMPICommunicator::InitializeCommunication() {
 }
 
 void OMPICommunicator::SendAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Startall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front());
 }
 
 void OMPICommunicator::ReceiveAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Startall(this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front());
 }
 
 void OMPICommunicator::WaitAllSends(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Waitall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
 
 void OMPICommunicator::WaitAllReceives(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Waitall(
         this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
\ No newline at end of file
-- 
2.43.0


From 34b2cb75cf67296d63708ab8b2654531ed5bea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 29/57] fix: the partitioner stops when METIS reports an error

---
 partitioner/csrmat.hpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/partitioner/csrmat.hpp b/partitioner/csrmat.hpp
index d018de2..8621010 100644
--- a/partitioner/csrmat.hpp
+++ b/partitioner/csrmat.hpp
@@ -5,6 +5,8 @@
 #include <vector>
 #include <algorithm>
 #include <limits>
+#include <stdexcept>
+#include <string>
 #include <unordered_set>
 #include <unordered_map>
 
@@ -262,19 +264,24 @@ std::vector<int64_t> metis_part(const CSRMat& mat, int64_t nparts, const double
 
     // do partitioning
     METIS_SetDefaultOptions(options.data());
-    METIS_PartGraphKway(&nvtxs,
-                        &ncon,
-                        to_int64(mat.xadj()).data(),
-                        to_int64(mat.adj()).data(),
-                        node_wgts.data(),
-                        nullptr,
-                        edge_wgts.data(),
-                        &nparts,
-                        tpwgts.data(),
-                        ubvec.data(),
-                        options.data(),
-                        &objval,
-                        part.data());
+    int status = METIS_PartGraphKway(&nvtxs,
+                                     &ncon,
+                                     to_int64(mat.xadj()).data(),
+                                     to_int64(mat.adj()).data(),
+                                     node_wgts.data(),
+                                     nullptr,
+                                     edge_wgts.data(),
+                                     &nparts,
+                                     tpwgts.data(),
+                                     ubvec.data(),
+                                     options.data(),
+                                     &objval,
+                                     part.data());
+
+    if (status != METIS_OK) {
+        throw std::runtime_error("Fatal Error: METIS failed to partition the mesh (status " + std::to_string(status) + ")");
+    }
+
     return part;
 }
 
-- 
2.43.0


From cdffa548de5ceee2c515005d87fe1bf3579340b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 30/57] fix: the partitioner refuses unusable counts

---
 partitioner/partitioner.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/partitioner/partitioner.cpp b/partitioner/partitioner.cpp
index f63c048..d8b0dd0 100644
--- a/partitioner/partitioner.cpp
+++ b/partitioner/partitioner.cpp
@@ -8,6 +8,8 @@
 #include <cassert>
 #include <chrono>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 std::vector<std::vector<MeshMetaData>> partition(const MeshMetaData& mesh_meta,
@@ -22,6 +24,23 @@ void write_distributed_edge_metadata(const std::string& file_name,
                                      const MeshMetaData& mesh_meta,
                                      const std::vector<std::vector<MeshMetaData>>& submeshes);
 
+int read_count(const std::string& argument, const std::string& what) {
+    std::size_t end{0};
+    int count{0};
+
+    try {
+        count = std::stoi(argument, &end);
+    } catch (const std::exception&) {
+        end = 0;
+    }
+
+    if (end == 0 || end != argument.size() || count < 1) {
+        throw std::logic_error("Fatal Error: " + what + " must be a positive integer, not '" + argument + "'");
+    }
+
+    return count;
+}
+
 int main(int argc, char** argv) {
     std::cout << "?????????????????????????????????????????????????????????????"
                  "????????\n";
@@ -36,7 +55,7 @@ int main(int argc, char** argv) {
         std::cout << "                      <number of nodes> <ranks per locality>(optional) <rank "
                      "balanced>(optional)\n";
 
-        return 0;
+        return 1;
     }
 
     std::cout << "Mesh Partitioner Configuration\n";
@@ -44,14 +63,14 @@ int main(int argc, char** argv) {
     std::cout << "  Input File: " << argv[1] << '\n';
     std::string input_mesh_str(input.mesh_input.mesh_file_name);
     std::cout << "  Mesh Path: " << input_mesh_str << '\n';
-    int num_partitions = atoi(argv[2]);
+    int num_partitions = read_count(argv[2], "number of partitions");
     std::cout << "  Number of partitions: " << num_partitions << '\n';
-    int num_nodes = atoi(argv[3]);
+    int num_nodes = read_count(argv[3], "number of nodes");
     std::cout << "  Number of compute nodes: " << num_nodes << '\n';
 
     int ranks_per_locality{1};
     if (argc >= 5) {
-        ranks_per_locality = atoi(argv[4]);
+        ranks_per_locality = read_count(argv[4], "number of ranks per locality");
         std::cout << "  Number of ranks per locality: " << ranks_per_locality << '\n';
     };
 
@@ -59,6 +78,10 @@ int main(int argc, char** argv) {
     if (argc == 6) {
         std::stringstream ss(argv[5]);
         ss >> std::boolalpha >> rank_balanced;
+
+        if (!ss) {
+            throw std::logic_error("Fatal Error: rank balanced must be true or false, not '" + std::string(argv[5]) + "'");
+        }
     }
     std::cout << std::boolalpha << "  Rank balanced: " << rank_balanced << "\n\n";
 
-- 
2.43.0


From 14f354284d6e85a49af98862cc3b72b30ce14f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 31/57] fix: partition, mesh and input files that cannot be
 written are reported

---
 partitioner/write_distributed_interfaces.cpp | 11 +++++++++--
 source/preprocessor/input_parameters.hpp     |  7 +++++--
 source/preprocessor/mesh_metadata.cpp        |  4 ++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/partitioner/write_distributed_interfaces.cpp b/partitioner/write_distributed_interfaces.cpp
index 4a74b7f..7a68790 100644
--- a/partitioner/write_distributed_interfaces.cpp
+++ b/partitioner/write_distributed_interfaces.cpp
@@ -3,6 +3,7 @@
 #include "util.hpp"
 
 #include <deque>
+#include <stdexcept>
 #include <unordered_set>
 
 void write_distributed_edge_metadata(const std::string& file_name,
@@ -85,8 +86,8 @@ void write_distributed_edge_metadata(const std::string& file_name,
             std::string distributed_meta_filename = file_name;
             distributed_meta_filename =
                 distributed_meta_filename.substr(0, distributed_meta_filename.find_last_of("."));
-            std::ofstream file(distributed_meta_filename + '_' + std::to_string(loc_id) + '_' +
-                               std::to_string(sbmsh_id) + ".dbmd");
+            distributed_meta_filename += '_' + std::to_string(loc_id) + '_' + std::to_string(sbmsh_id) + ".dbmd";
+            std::ofstream file(distributed_meta_filename);
             for (auto& sf : shared_faces) {
                 uint locA   = sf.first.first % num_loc;
                 uint sbmshA = sf.first.first / num_loc;
@@ -100,6 +101,12 @@ void write_distributed_edge_metadata(const std::string& file_name,
                     }
                 }
             }
+
+            file.close();
+            if (!file) {
+                throw std::logic_error("Fatal Error: unable to write distributed boundary file " +
+                                       distributed_meta_filename);
+            }
         }
     }
 }
diff --git a/source/preprocessor/input_parameters.hpp b/source/preprocessor/input_parameters.hpp
index 12f5572..3d1c9f1 100644
--- a/source/preprocessor/input_parameters.hpp
+++ b/source/preprocessor/input_parameters.hpp
@@ -380,8 +380,6 @@ void InputParameters<ProblemInput>::write_to(const std::string& output_filename)
     output << YAML::EndMap;
 
     std::ofstream ofs(output_filename);
-    assert(ofs);
-
     ofs << "###################################################################"
            "############\n"
         << "#\n"
@@ -391,6 +389,11 @@ void InputParameters<ProblemInput>::write_to(const std::string& output_filename)
            "############\n\n";
 
     ofs << output.c_str();
+
+    ofs.close();
+    if (!ofs) {
+        throw std::logic_error("Fatal Error: unable to write input file " + output_filename);
+    }
 }
 
 template <>
diff --git a/source/preprocessor/mesh_metadata.cpp b/source/preprocessor/mesh_metadata.cpp
index 7c007ed..afbe76e 100644
--- a/source/preprocessor/mesh_metadata.cpp
+++ b/source/preprocessor/mesh_metadata.cpp
@@ -158,6 +158,10 @@ void MeshMetaData::write_to(const std::string& file) {
     }
 
     ofs.close();
+
+    if (!ofs) {
+        throw std::logic_error("Fatal Error: unable to write mesh file " + file);
+    }
 }
 
 AlignedVector<Point<3>> MeshMetaData::get_nodal_coordinates(uint elt_id) const {
-- 
2.43.0


From 4c38317e647cf6d196f61b5c17140bdc020be57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 32/57] fix: distributed Green-Naghdi runs solve the dispersive
 problem as accurately as serial ones

---
 .../kernels_preprocessor/ehdg_gn_pre_ompi.hpp                    | 1 +
 .../kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
index d4598a8..b106c7e 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
@@ -85,6 +85,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType>>& s
 
         KSPCreate(MPI_COMM_WORLD, &(global_data.dc_ksp));
         KSPSetOperators(global_data.dc_ksp, global_data.w1_hat_w1_hat, global_data.w1_hat_w1_hat);
+        KSPSetTolerances(global_data.dc_ksp, 1.0e-12, PETSC_DEFAULT, PETSC_DEFAULT, PETSC_DEFAULT);
         // KSPGetPC(global_data.dc_ksp, &(global_data.dc_pc));
         // PCSetType(global_data.dc_pc, PCLU);
 
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
index de2db49..547cc33 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
@@ -493,6 +493,7 @@ void Problem::reset_PETSC_solver(std::vector<std::unique_ptr<OMPISimUnitType>>&
 
     KSPCreate(MPI_COMM_WORLD, &(global_data.dc_ksp));
     KSPSetOperators(global_data.dc_ksp, global_data.w1_hat_w1_hat, global_data.w1_hat_w1_hat);
+    KSPSetTolerances(global_data.dc_ksp, 1.0e-12, PETSC_DEFAULT, PETSC_DEFAULT, PETSC_DEFAULT);
     // KSPGetPC(global_data.dc_ksp, &(global_data.dc_pc));
     // PCSetType(global_data.dc_pc, PCLU);
 
-- 
2.43.0


From 5bebad135db079708e877a59b9c217f661e5f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 33/57] fix: Green-Naghdi runs read meteorological data at the
 right times

---
 .../problem/SWE/problem_parser/swe_parser.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 274ad20..928573e 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -10,6 +10,7 @@ class Parser {
   private:
     bool parsing_input = false;
 
+    double dt;
     uint meteo_parse_frequency;
     std::string meteo_data_file;
     std::map<uint, std::map<uint, std::vector<double>>> node_meteo_data_step;
@@ -28,6 +29,13 @@ class Parser {
     void ParseInput(const StepperType& stepper, MeshType& mesh);
 
   private:
+    // Meteo data are given at multiples of the time step of the input file, which differs from
+    // the step of a stepper that advances only a part of it (e.g. in a splitting method)
+    template <typename StepperType>
+    uint GetInputStep(const StepperType& stepper) const {
+        return (uint)(stepper.GetStep() * stepper.GetDT() / this->dt + 0.25);
+    }
+
     template <typename StepperType>
     void ParseMeteoInput(const StepperType& stepper);
     template <typename StepperType>
@@ -39,6 +47,7 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input) {
     if (input.problem_input.meteo_forcing.type == MeteoForcingType::Enable) {
         this->parsing_input = true;
 
+        this->dt = input.stepper_input.dt;
         this->meteo_parse_frequency =
             Utilities::count_steps(input.problem_input.meteo_forcing.frequency, input.stepper_input.dt);
         this->meteo_data_file = input.problem_input.meteo_forcing.meteo_data_file;
@@ -52,7 +61,7 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input, const uin
 template <typename StepperType, typename MeshType>
 void Parser::ParseInput(const StepperType& stepper, MeshType& mesh) {
     if (SWE::SourceTerms::meteo_forcing) {
-        if (stepper.GetStep() % this->meteo_parse_frequency == 0 && stepper.GetStage() == 0) {
+        if (this->GetInputStep(stepper) % this->meteo_parse_frequency == 0 && stepper.GetStage() == 0) {
             this->ParseMeteoInput(stepper);
         }
 
@@ -85,7 +94,7 @@ void Parser::ParseInput(const StepperType& stepper, MeshType& mesh) {
 
 template <typename StepperType>
 void Parser::ParseMeteoInput(const StepperType& stepper) {
-    uint step = stepper.GetStep();
+    uint step = this->GetInputStep(stepper);
 
     if (this->node_meteo_data_step.find(step - this->meteo_parse_frequency) != this->node_meteo_data_step.end()) {
         this->node_meteo_data_step.erase(this->node_meteo_data_step.find(step - this->meteo_parse_frequency));
@@ -145,13 +154,13 @@ void Parser::ParseMeteoInput(const StepperType& stepper) {
 
 template <typename StepperType>
 void Parser::InterpolateMeteoData(const StepperType& stepper) {
-    uint step = stepper.GetStep();
+    uint step = this->GetInputStep(stepper);
 
     uint step_start = step - step % this->meteo_parse_frequency;
     uint step_end   = step_start + this->meteo_parse_frequency;
 
-    double t_start = step_start * stepper.GetDT();
-    double t_end   = step_end * stepper.GetDT();
+    double t_start = step_start * this->dt;
+    double t_end   = step_end * this->dt;
 
     double interp_factor = (stepper.GetTimeAtCurrentStage() - t_start) / (t_end - t_start);
 
-- 
2.43.0


From c3b7aa4c88bf8f20bd882cbc555bcd856932ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 34/57] fix: Green-Naghdi runs with edges between dry elements

---
 .../ehdg_gn_proc_ompi_sol_glob_prob.hpp        | 18 ++++++++++++------
 .../ehdg_gn_proc_serial_sol_glob_prob.hpp      |  9 +++++++--
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
index 547cc33..1b05d7b 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
@@ -334,6 +334,10 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& boundary_ex   = edge_int.interface.data_ex.boundary[edge_int.interface.bound_id_ex];
 
             const uint n_global_dofs = edge_int.edge_data.get_ndof() * GN::n_dimensions;
+            // edges between dry elements are no part of the global problem
+            if (!edge_int.interface.data_in.wet_dry_state.wet && !edge_int.interface.data_ex.wet_dry_state.wet)
+                return;
+
             const auto w1_hat =
                 subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
             if (edge_int.interface.data_in.wet_dry_state.wet /*&&
@@ -350,11 +354,12 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
 
             const uint n_global_dofs = edge_bound.edge_data.get_ndof() * GN::n_dimensions;
-            const auto w1_hat =
-                subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
             if (edge_bound.boundary.data.wet_dry_state.wet /*&&
-                edge_bound.boundary.data.source.dispersive_correction*/)
+                edge_bound.boundary.data.source.dispersive_correction*/) {
+                const auto w1_hat =
+                    subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
                 internal.w1_rhs -= boundary.w1_w1_hat * w1_hat;
+            }
         });
 
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeDistributed([&global_data](auto& edge_dbound) {
@@ -363,11 +368,12 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& boundary      = edge_dbound.boundary.data.boundary[edge_dbound.boundary.bound_id];
 
             const uint n_global_dofs = edge_dbound.edge_data.get_ndof() * GN::n_dimensions;
-            const auto w1_hat =
-                subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
             if (edge_dbound.boundary.data.wet_dry_state.wet /*&&
-                edge_dbound.boundary.data.source.dispersive_correction*/)
+                edge_dbound.boundary.data.source.dispersive_correction*/) {
+                const auto w1_hat =
+                    subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
                 internal.w1_rhs -= boundary.w1_w1_hat * w1_hat;
+            }
         });
 
         sim_units[su_id]->discretization.mesh.CallForEachElement([&stepper](auto& elt) {
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
index dd220c1..6b62ecc 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
@@ -192,6 +192,10 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
         auto& boundary_ex   = edge_int.interface.data_ex.boundary[edge_int.interface.bound_id_ex];
 
         const uint n_global_dofs = edge_int.edge_data.get_ndof() * GN::n_dimensions;
+        // edges between dry elements are no part of the global problem
+        if (!edge_int.interface.data_in.wet_dry_state.wet && !edge_int.interface.data_ex.wet_dry_state.wet)
+            return;
+
         const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
         if (edge_int.interface.data_in.wet_dry_state.wet /*&& edge_int.interface.data_in.source.dispersive_correction*/)
             internal_in.w1_rhs -= boundary_in.w1_w1_hat * w1_hat;
@@ -205,9 +209,10 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
         auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
 
         const uint n_global_dofs = edge_bound.edge_data.get_ndof() * GN::n_dimensions;
-        const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
-        if (edge_bound.boundary.data.wet_dry_state.wet /*&& edge_bound.boundary.data.source.dispersive_correction*/)
+        if (edge_bound.boundary.data.wet_dry_state.wet /*&& edge_bound.boundary.data.source.dispersive_correction*/) {
+            const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
             internal.w1_rhs -= boundary.w1_w1_hat * w1_hat;
+        }
     });
 
     discretization.mesh.CallForEachElement([&w1_hat_rhs, &stepper](auto& elt) {
-- 
2.43.0


From 5a9ab4b143a84175b08b22e0477a377de87698c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 35/57] fix: message tags are distinct for ranks with 256 and
 more submeshes

---
 source/communication/ompi_communicator.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/communication/ompi_communicator.cpp b/source/communication/ompi_communicator.cpp
index 5d13ad3..7112005 100644
--- a/source/communication/ompi_communicator.cpp
+++ b/source/communication/ompi_communicator.cpp
@@ -9,10 +9,9 @@ OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
         rank_boundary.send_rank    = rb_meta_data.locality_ex;
         rank_boundary.receive_rank = rb_meta_data.locality_ex;
 
-        rank_boundary.send_tag =
-            (int)((unsigned short)rb_meta_data.submesh_in << 8 | (unsigned short)rb_meta_data.submesh_ex);
-        rank_boundary.receive_tag =
-            (int)((unsigned short)rb_meta_data.submesh_ex << 8 | (unsigned short)rb_meta_data.submesh_in);
+        // 14 bits per submesh id: distinct pairs get distinct tags for up to 16384 submeshes per locality
+        rank_boundary.send_tag    = (int)(rb_meta_data.submesh_in << 14 | rb_meta_data.submesh_ex);
+        rank_boundary.receive_tag = (int)(rb_meta_data.submesh_ex << 14 | rb_meta_data.submesh_in);
 
         this->rank_boundaries.push_back(std::move(rank_boundary));
     }
-- 
2.43.0


From 7ca7e414f6b3bcc88f75a45fe8b89f7f74d9b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 36/57] fix: malformed times and non-positive time steps or
 frequencies are rejected

---
 source/preprocessor/input_parameters.hpp      | 44 ++++++++++++++++++-
 .../problem/SWE/problem_input/swe_inputs.cpp  |  4 ++
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/source/preprocessor/input_parameters.hpp b/source/preprocessor/input_parameters.hpp
index 3d1c9f1..06ad55b 100644
--- a/source/preprocessor/input_parameters.hpp
+++ b/source/preprocessor/input_parameters.hpp
@@ -156,8 +156,20 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
             this->stepper_input.T_start = {0};
             this->stepper_input.T_end   = {0};
 
-            strptime(start_time.c_str(), "%d-%m-%Y %H:%M:%S", &this->stepper_input.T_start);
-            strptime(end_time.c_str(), "%d-%m-%Y %H:%M:%S", &this->stepper_input.T_end);
+            auto parse_time = [](const std::string& time, std::tm& tm) {
+                // the seconds may be omitted
+                if (!strptime(time.c_str(), "%d-%m-%Y %H:%M:%S", &tm)) {
+                    tm = {0};
+
+                    if (!strptime(time.c_str(), "%d-%m-%Y %H:%M", &tm)) {
+                        std::string err_msg{"Error: times must be of the form dd-mm-yyyy hh:mm:ss, not " + time + '\n'};
+                        throw std::logic_error(err_msg);
+                    }
+                }
+            };
+
+            parse_time(start_time, this->stepper_input.T_start);
+            parse_time(end_time, this->stepper_input.T_end);
 
             this->stepper_input.run_time =
                 difftime(timegm(&this->stepper_input.T_end), timegm(&this->stepper_input.T_start));
@@ -167,6 +179,16 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
 
             this->stepper_input.ramp_duration =
                 time_stepping["ramp_duration"] ? time_stepping["ramp_duration"].as<double>() : 0;
+
+            if (this->stepper_input.run_time < 0) {
+                std::string err_msg{"Error: end_time must not be before start_time\n"};
+                throw std::logic_error(err_msg);
+            }
+
+            if (!(this->stepper_input.dt > 0) || !std::isfinite(this->stepper_input.dt)) {
+                std::string err_msg{"Error: dt must be positive\n"};
+                throw std::logic_error(err_msg);
+            }
         } else {
             std::string err_msg{"Error: Timestepping YAML node is malformatted\n"};
             throw std::logic_error(err_msg);
@@ -228,6 +250,12 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
             if (out_node["vtk"]["frequency"]) {
                 this->writer_input.writing_vtk_output   = true;
                 this->writer_input.vtk_output_frequency = out_node["vtk"]["frequency"].as<double>();
+
+                if (!(this->writer_input.vtk_output_frequency > 0)) {
+                    std::string err_msg("Error: VTK output frequency must be positive\n");
+                    throw std::logic_error(err_msg);
+                }
+
                 this->writer_input.vtk_output_freq_step =
                     Utilities::count_steps(this->writer_input.vtk_output_frequency, this->stepper_input.dt);
             } else {
@@ -240,6 +268,12 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
             if (out_node["vtu"]["frequency"]) {
                 this->writer_input.writing_vtu_output   = true;
                 this->writer_input.vtu_output_frequency = out_node["vtu"]["frequency"].as<double>();
+
+                if (!(this->writer_input.vtu_output_frequency > 0)) {
+                    std::string err_msg("Error: VTU output frequency must be positive\n");
+                    throw std::logic_error(err_msg);
+                }
+
                 this->writer_input.vtu_output_freq_step =
                     Utilities::count_steps(this->writer_input.vtu_output_frequency, this->stepper_input.dt);
             } else {
@@ -252,6 +286,12 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
             if (out_node["modal"]["frequency"]) {
                 this->writer_input.writing_modal_output   = true;
                 this->writer_input.modal_output_frequency = out_node["modal"]["frequency"].as<double>();
+
+                if (!(this->writer_input.modal_output_frequency > 0)) {
+                    std::string err_msg("Error: Modal output frequency must be positive\n");
+                    throw std::logic_error(err_msg);
+                }
+
                 this->writer_input.modal_output_freq_step =
                     Utilities::count_steps(this->writer_input.modal_output_frequency, this->stepper_input.dt);
             } else {
diff --git a/source/problem/SWE/problem_input/swe_inputs.cpp b/source/problem/SWE/problem_input/swe_inputs.cpp
index 52bd756..56b03a8 100644
--- a/source/problem/SWE/problem_input/swe_inputs.cpp
+++ b/source/problem/SWE/problem_input/swe_inputs.cpp
@@ -133,6 +133,10 @@ Inputs::Inputs(YAML::Node& swe_node) {
             this->meteo_forcing.raw_meteo_data_file = meteo["raw_input_file"].as<std::string>();
             this->meteo_forcing.meteo_data_file     = meteo["input_file"].as<std::string>();
             this->meteo_forcing.frequency           = meteo["frequency"].as<double>();
+
+            if (!(this->meteo_forcing.frequency > 0.)) {
+                throw std::logic_error("Fatal Error: meteo forcing frequency must be positive!\n");
+            }
         } else {
             std::cerr << malformatted_meteo_warning;
         }
-- 
2.43.0


From 6d7137336d5a4363ff71aceaf23dd2001e2ef4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 37/57] fix: malformed boundary data files are rejected

---
 .../problem/SWE/problem_input/swe_inputs.cpp  | 42 ++++++++++++-------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/source/problem/SWE/problem_input/swe_inputs.cpp b/source/problem/SWE/problem_input/swe_inputs.cpp
index 56b03a8..2d7ed27 100644
--- a/source/problem/SWE/problem_input/swe_inputs.cpp
+++ b/source/problem/SWE/problem_input/swe_inputs.cpp
@@ -225,9 +225,18 @@ void Inputs::read_bcis(const std::string& bcis_file) {
     std::string line;
     std::stringstream stream;
 
+    auto check = [&bcis_file, &line](bool valid) {
+        if (!valid) {
+            throw std::logic_error("Fatal Error: malformed BC/ISP data in " + bcis_file + " at: " + line + '\n');
+        }
+    };
+
     while (std::getline(file, line)) {
+        if (line.find_first_not_of(" \t\r") == std::string::npos)
+            continue;
+
         stream = std::stringstream(line);
-        stream >> btype >> nnodes;
+        check(bool(stream >> btype >> nnodes));
 
         if (btype == SWE::BoundaryTypes::tide) {
             TideBoundary tide_bound;
@@ -235,22 +244,22 @@ void Inputs::read_bcis(const std::string& bcis_file) {
             uint ncon, node_ID;
             double frequency, force_fact, eq_argument, amplitude, phase;
 
-            std::getline(file, line);
+            check(bool(std::getline(file, line)));
 
             stream = std::stringstream(line);
-            stream >> ncon;
+            check(bool(stream >> ncon));
 
             for (uint con = 0; con < ncon; ++con) {
-                std::getline(file, line);
+                check(bool(std::getline(file, line)));
 
                 stream = std::stringstream(line);
-                stream >> frequency >> force_fact >> eq_argument;
+                check(bool(stream >> frequency >> force_fact >> eq_argument));
 
                 for (uint node = 0; node < nnodes; ++node) {
-                    std::getline(file, line);
+                    check(bool(std::getline(file, line)));
 
                     stream = std::stringstream(line);
-                    stream >> node_ID >> amplitude >> phase;
+                    check(bool(stream >> node_ID >> amplitude >> phase));
 
                     TideNode& tide_node = tide_bound.tide_nodes[node_ID];
 
@@ -270,22 +279,22 @@ void Inputs::read_bcis(const std::string& bcis_file) {
             uint ncon, node_ID;
             double frequency, force_fact, eq_argument, amplitude, phase;
 
-            std::getline(file, line);
+            check(bool(std::getline(file, line)));
 
             stream = std::stringstream(line);
-            stream >> ncon;
+            check(bool(stream >> ncon));
 
             for (uint con = 0; con < ncon; ++con) {
-                std::getline(file, line);
+                check(bool(std::getline(file, line)));
 
                 stream = std::stringstream(line);
-                stream >> frequency >> force_fact >> eq_argument;
+                check(bool(stream >> frequency >> force_fact >> eq_argument));
 
                 for (uint node = 0; node < nnodes; ++node) {
-                    std::getline(file, line);
+                    check(bool(std::getline(file, line)));
 
                     stream = std::stringstream(line);
-                    stream >> node_ID >> amplitude >> phase;
+                    check(bool(stream >> node_ID >> amplitude >> phase));
 
                     FlowNode& flow_node = flow_bound.flow_nodes[node_ID];
 
@@ -303,15 +312,18 @@ void Inputs::read_bcis(const std::string& bcis_file) {
             uint front_node, back_node;
 
             for (uint node = 0; node < nnodes; ++node) {
-                std::getline(file, line);
+                check(bool(std::getline(file, line)));
 
                 LeveeInput levee;
 
                 stream = std::stringstream(line);
-                stream >> front_node >> back_node >> levee.H_barrier >> levee.C_subcritical >> levee.C_supercritical;
+                check(bool(stream >> front_node >> back_node >> levee.H_barrier >> levee.C_subcritical >>
+                           levee.C_supercritical));
 
                 this->levee_is_data[std::pair<uint, uint>{front_node, back_node}] = levee;
             }
+        } else {
+            check(false);
         }
     }
 }
-- 
2.43.0


From 78aad3882b78f921ee5eb12a742097c6331bb8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 38/57] fix: distributed runs that meet NaN values end with a
 non-zero exit status

---
 .../kernels_processor/ehdg_swe_proc_ompi_step.hpp               | 2 +-
 .../kernels_processor/ihdg_swe_proc_ompi_step.hpp               | 2 +-
 .../kernels_processor/rkdg_swe_proc_ompi_step.hpp               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
index 22fe33c..1b6cdc2 100644
--- a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
@@ -146,7 +146,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, 1);
         });
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
index 6e06743..2653377 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
@@ -114,7 +114,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, 1);
         });
     }
 }
diff --git a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
index 4d00566..c3047d9 100644
--- a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
@@ -122,7 +122,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, 1);
         });
     }
 
-- 
2.43.0


From 2d5716ad190d5b65329e4bd3f61875e8f74e7c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 39/57] fix: infinite values stop a run like NaN values do

---
 .../problem_postprocessor/swe_post_scrutinize.hpp    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/problem/SWE/problem_postprocessor/swe_post_scrutinize.hpp b/source/problem/SWE/problem_postprocessor/swe_post_scrutinize.hpp
index 679e320..9e99c89 100644
--- a/source/problem/SWE/problem_postprocessor/swe_post_scrutinize.hpp
+++ b/source/problem/SWE/problem_postprocessor/swe_post_scrutinize.hpp
@@ -11,8 +11,8 @@ bool scrutinize_solution(const StepperType& stepper, ElementType& elt) {
     uint ndof = elt.data.get_ndof();
 
     for (uint dof = 0; dof < ndof; ++dof) {
-        if (std::isnan(state.q(SWE::Variables::ze, dof))) {
-            std::cerr << "Error: found isnan ze at Element " << elt.GetID();
+        if (!std::isfinite(state.q(SWE::Variables::ze, dof))) {
+            std::cerr << "Error: found non-finite ze at Element " << elt.GetID();
             std::cerr << "       At stage: " << stage << "\n";
 
             return true;
@@ -20,8 +20,8 @@ bool scrutinize_solution(const StepperType& stepper, ElementType& elt) {
     }
 
     for (uint dof = 0; dof < ndof; ++dof) {
-        if (std::isnan(state.q(SWE::Variables::qx, dof))) {
-            std::cerr << "Error: found isnan qx at Element " << elt.GetID();
+        if (!std::isfinite(state.q(SWE::Variables::qx, dof))) {
+            std::cerr << "Error: found non-finite qx at Element " << elt.GetID();
             std::cerr << "       At stage: " << stage << "\n";
 
             return true;
@@ -29,8 +29,8 @@ bool scrutinize_solution(const StepperType& stepper, ElementType& elt) {
     }
 
     for (uint dof = 0; dof < ndof; ++dof) {
-        if (std::isnan(state.q(SWE::Variables::qy, dof))) {
-            std::cerr << "Error: found isnan qy at Element " << elt.GetID();
+        if (!std::isfinite(state.q(SWE::Variables::qy, dof))) {
+            std::cerr << "Error: found non-finite qy at Element " << elt.GetID();
             std::cerr << "       At stage: " << stage << "\n";
 
             return true;
-- 
2.43.0


From 71ac4d59c42ade56857d16215e31e067dac87359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 40/57] fix: an implicit step that does not converge stops the
 run

---
 .../kernels_processor/ihdg_swe_proc_ompi_step.hpp  | 14 ++++++++------
 .../ihdg_swe_proc_serial_step.hpp                  | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
index 2653377..d3892a2 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
@@ -40,8 +40,9 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
         Problem::init_iteration(stepper, sim_units[su_id]->discretization);
     }
 
-    uint iter = 0;
-    while (iter != 100) {
+    uint iter      = 0;
+    bool converged = false;
+    while (!converged && iter != 100) {
         ++iter;
 
         for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
@@ -83,11 +84,12 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             /* Global Step */
         }
 
-        bool converged = ompi_solve_global_problem(sim_units, global_data, stepper, begin_sim_id, end_sim_id);
+        converged = ompi_solve_global_problem(sim_units, global_data, stepper, begin_sim_id, end_sim_id);
+    }
 
-        if (converged) {
-            break;
-        }
+    if (!converged) {
+        std::cerr << "Fatal Error: no convergence in step " << stepper.GetStep() + 1 << std::endl;
+        MPI_Abort(MPI_COMM_WORLD, 1);
     }
 
 #pragma omp barrier
diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_step.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_step.hpp
index 4161364..3b8bffd 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_step.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_step.hpp
@@ -32,8 +32,9 @@ void Problem::stage_serial(HDGDiscretization<ProblemType>& discretization,
                            ProblemStepperType& stepper) {
     Problem::init_iteration(stepper, discretization);
 
-    uint iter = 0;
-    while (iter != 100) {
+    uint iter      = 0;
+    bool converged = false;
+    while (!converged && iter != 100) {
         ++iter;
 
         /* Local Step */
@@ -64,11 +65,12 @@ void Problem::stage_serial(HDGDiscretization<ProblemType>& discretization,
             [&stepper](auto& edge_bound) { Problem::global_edge_boundary_kernel(stepper, edge_bound); });
         /* Global Step */
 
-        bool converged = Problem::serial_solve_global_problem(discretization, global_data, stepper);
+        converged = Problem::serial_solve_global_problem(discretization, global_data, stepper);
+    }
 
-        if (converged) {
-            break;
-        }
+    if (!converged) {
+        std::cerr << "Fatal Error: no convergence in step " << stepper.GetStep() + 1 << std::endl;
+        abort();
     }
 
     ++stepper;
-- 
2.43.0


From 92b70bb1bae791f44c804599c464a519699cc959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 41/57] fix: output files that cannot be written stop the run

---
 .../swe_post_write_modal.hpp                  | 19 ++++++++++----
 source/simulation/writer.hpp                  | 25 +++++++++++++------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/source/problem/SWE/problem_postprocessor/swe_post_write_modal.hpp b/source/problem/SWE/problem_postprocessor/swe_post_write_modal.hpp
index 18d6ed5..a282486 100644
--- a/source/problem/SWE/problem_postprocessor/swe_post_write_modal.hpp
+++ b/source/problem/SWE/problem_postprocessor/swe_post_write_modal.hpp
@@ -13,8 +13,17 @@ void write_modal_data(const StepperType& stepper, MeshType& mesh, const std::str
     });
 
     std::ofstream file;
+    std::string file_name;
 
-    std::string file_name = output_path + mesh.GetMeshName() + "_modal_ze.txt";
+    auto close_file = [&file, &file_name]() {
+        file.close();
+
+        if (!file) {
+            throw std::logic_error("Fatal Error: modal data file " + file_name + " could not be written!\n");
+        }
+    };
+
+    file_name = output_path + mesh.GetMeshName() + "_modal_ze.txt";
     if (stepper.GetStep() == 0) {
         file = std::ofstream(file_name);
     } else {
@@ -30,7 +39,7 @@ void write_modal_data(const StepperType& stepper, MeshType& mesh, const std::str
         }
     }
 
-    file.close();
+    close_file();
 
     file_name = output_path + mesh.GetMeshName() + "_modal_qx.txt";
     if (stepper.GetStep() == 0) {
@@ -48,7 +57,7 @@ void write_modal_data(const StepperType& stepper, MeshType& mesh, const std::str
         }
     }
 
-    file.close();
+    close_file();
 
     file_name = output_path + mesh.GetMeshName() + "_modal_qy.txt";
     if (stepper.GetStep() == 0) {
@@ -66,7 +75,7 @@ void write_modal_data(const StepperType& stepper, MeshType& mesh, const std::str
         }
     }
 
-    file.close();
+    close_file();
 
     file_name = output_path + mesh.GetMeshName() + "_modal_bath.txt";
     if (stepper.GetStep() == 0) {
@@ -84,7 +93,7 @@ void write_modal_data(const StepperType& stepper, MeshType& mesh, const std::str
         }
     }
 
-    file.close();
+    close_file();
 }
 }
 
diff --git a/source/simulation/writer.hpp b/source/simulation/writer.hpp
index cb27169..a0913b9 100644
--- a/source/simulation/writer.hpp
+++ b/source/simulation/writer.hpp
@@ -55,6 +55,8 @@ class Writer {
   private:
     void InitializeMeshGeometryVTK(typename ProblemType::ProblemMeshType& mesh);
     void InitializeMeshGeometryVTU(typename ProblemType::ProblemMeshType& mesh);
+
+    void CloseFile(std::ofstream& file, const std::string& file_name);
 };
 
 template <typename ProblemType>
@@ -125,7 +127,7 @@ void Writer<ProblemType>::WriteOutput(const typename ProblemType::ProblemStepper
 
         ProblemType::write_VTK_data(mesh, raw_data_file);
 
-        raw_data_file.close();
+        this->CloseFile(raw_data_file, this->vtk_file_name_raw);
 
         if (!Utilities::file_exists(this->vtk_file_name_geom)) {
             throw std::logic_error("Fatal Error: vtk geometry data file " + this->vtk_file_name_geom +
@@ -145,7 +147,7 @@ void Writer<ProblemType>::WriteOutput(const typename ProblemType::ProblemStepper
 
         file_merge << file_geom.rdbuf() << file_data.rdbuf();
 
-        file_merge.close();
+        this->CloseFile(file_merge, file_name_merge);
         file_geom.close();
         file_data.close();
     }
@@ -155,7 +157,7 @@ void Writer<ProblemType>::WriteOutput(const typename ProblemType::ProblemStepper
 
         ProblemType::write_VTU_data(mesh, raw_data_file);
 
-        raw_data_file.close();
+        this->CloseFile(raw_data_file, this->vtu_file_name_raw);
 
         if (!Utilities::file_exists(this->vtu_file_name_geom_head)) {
             throw std::logic_error("Fatal Error: vtu geometry head data file " + this->vtu_file_name_geom_head +
@@ -181,7 +183,7 @@ void Writer<ProblemType>::WriteOutput(const typename ProblemType::ProblemStepper
 
         file_merge << file_geom_head.rdbuf() << file_data.rdbuf() << file_geom_foot.rdbuf();
 
-        file_merge.close();
+        this->CloseFile(file_merge, file_name_merge);
         file_geom_head.close();
         file_geom_foot.close();
         file_data.close();
@@ -192,6 +194,15 @@ void Writer<ProblemType>::WriteOutput(const typename ProblemType::ProblemStepper
     }
 }
 
+template <typename ProblemType>
+void Writer<ProblemType>::CloseFile(std::ofstream& file, const std::string& file_name) {
+    file.close();
+
+    if (!file) {
+        throw std::logic_error("Fatal Error: output file " + file_name + " could not be written!\n");
+    }
+}
+
 template <typename ProblemType>
 void Writer<ProblemType>::InitializeMeshGeometryVTK(typename ProblemType::ProblemMeshType& mesh) {
     AlignedVector<Point<3>> points;
@@ -254,7 +265,7 @@ void Writer<ProblemType>::InitializeMeshGeometryVTK(typename ProblemType::Proble
         file << cell[0] << '\n';
     }
 
-    file.close();
+    this->CloseFile(file, this->vtk_file_name_geom);
 }
 
 template <typename ProblemType>
@@ -271,7 +282,7 @@ void Writer<ProblemType>::InitializeMeshGeometryVTU(typename ProblemType::Proble
     file << "\t<UnstructuredGrid>\n";
     file << "\t\t<Piece NumberOfPoints=\"" << points.size() << "\" NumberOfCells=\"" << cells.size() << "\">\n";
 
-    file.close();
+    this->CloseFile(file, this->vtu_file_name_geom_head);
 
     file = std::ofstream(this->vtu_file_name_geom_foot);
 
@@ -344,7 +355,7 @@ void Writer<ProblemType>::InitializeMeshGeometryVTU(typename ProblemType::Proble
     file << "\t</UnstructuredGrid>\n";
     file << "</VTKFile>\n";
 
-    file.close();
+    this->CloseFile(file, this->vtu_file_name_geom_foot);
 }
 
 #endif
-- 
2.43.0


From 701e7134c7eacadcfaef3db341a8706e853a5991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 42/57] fix: MPI errors in distributed runs are not ignored

---
 source/dgswemv2-ompi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/dgswemv2-ompi.cpp b/source/dgswemv2-ompi.cpp
index 279c347..ed8aff9 100644
--- a/source/dgswemv2-ompi.cpp
+++ b/source/dgswemv2-ompi.cpp
@@ -33,6 +33,9 @@ int main(int argc, char* argv[]) {
 
 #ifdef HAS_PETSC
         PetscInitialize(&argc, &argv, (char*)nullptr, nullptr);
+
+        // PETSc makes MPI return errors, but they must not go unnoticed in the communication between submeshes
+        MPI_Comm_set_errhandler(MPI_COMM_WORLD, MPI_ERRORS_ARE_FATAL);
 #endif
 
         std::string input_string = std::string(argv[1]);
-- 
2.43.0


From fc5af30e30ab23c93c57e99f62930bc53e092951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 43/57] fix: distributed runs with missing or stale submesh
 files are rejected

---
 source/simulation/ompi/simulation_ompi.hpp | 61 ++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/source/simulation/ompi/simulation_ompi.hpp b/source/simulation/ompi/simulation_ompi.hpp
index 40fe21e..bcc3324 100644
--- a/source/simulation/ompi/simulation_ompi.hpp
+++ b/source/simulation/ompi/simulation_ompi.hpp
@@ -26,6 +26,9 @@ class OMPISimulation : public OMPISimulationBase {
     void Run() override;
     void ComputeL2Residual() override;
     void Finalize() override;
+
+  private:
+    void CheckConnections();
 };
 
 template <typename ProblemType>
@@ -57,6 +60,64 @@ OMPISimulation<ProblemType>::OMPISimulation(const std::string& input_string) {
         std::cerr << "Warning: MPI Rank " << locality_id << " has not been assigned any work. This may inidicate\n"
                   << "         poor partitioning and imply degraded performance." << std::endl;
     }
+
+    this->CheckConnections();
+}
+
+template <typename ProblemType>
+void OMPISimulation<ProblemType>::CheckConnections() {
+    int n_submeshes = this->sim_units.size();
+    MPI_Allreduce(MPI_IN_PLACE, &n_submeshes, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+
+    if (n_submeshes == 0) {
+        throw std::logic_error("Fatal Error: no submesh files were found!\n");
+    }
+
+    // every connection to another submesh must have its counterpart there, otherwise files are missing or stale
+    std::vector<std::array<int, 5>> connections;
+
+    for (auto& sim_unit : this->sim_units) {
+        for (uint rank_boundary_id = 0; rank_boundary_id < sim_unit->communicator.GetRankBoundaryNumber();
+             ++rank_boundary_id) {
+            auto& db_data = sim_unit->communicator.GetRankBoundary(rank_boundary_id).db_data;
+
+            connections.push_back({(int)db_data.locality_in,
+                                   (int)db_data.submesh_in,
+                                   (int)db_data.locality_ex,
+                                   (int)db_data.submesh_ex,
+                                   (int)db_data.elements_in.size()});
+        }
+    }
+
+    int n_localities;
+    MPI_Comm_size(MPI_COMM_WORLD, &n_localities);
+
+    int n_values = 5 * connections.size();
+    std::vector<int> n_values_all(n_localities);
+    MPI_Allgather(&n_values, 1, MPI_INT, n_values_all.data(), 1, MPI_INT, MPI_COMM_WORLD);
+
+    std::vector<int> offsets(n_localities, 0);
+    std::partial_sum(n_values_all.begin(), n_values_all.end() - 1, offsets.begin() + 1);
+
+    std::vector<std::array<int, 5>> connections_all((offsets.back() + n_values_all.back()) / 5);
+    MPI_Allgatherv(connections.data(),
+                   n_values,
+                   MPI_INT,
+                   connections_all.data(),
+                   n_values_all.data(),
+                   offsets.data(),
+                   MPI_INT,
+                   MPI_COMM_WORLD);
+
+    std::set<std::array<int, 5>> counterparts(connections_all.begin(), connections_all.end());
+
+    for (auto& c : connections) {
+        if (counterparts.find({c[2], c[3], c[0], c[1], c[4]}) == counterparts.end()) {
+            throw std::logic_error("Fatal Error: submesh " + std::to_string(c[0]) + '_' + std::to_string(c[1]) +
+                                   " is connected to submesh " + std::to_string(c[2]) + '_' + std::to_string(c[3]) +
+                                   ", which is missing or comes from another partitioning!\n");
+        }
+    }
 }
 
 template <typename ProblemType>
-- 
2.43.0


From 4c2c8d10156a5111ecbd8b5f6324f6acf41176b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 44/57] fix: threads that stop a distributed run do not get
 past MPI_Abort

---
 .../kernels_processor/ehdg_swe_proc_ompi_step.hpp            | 4 +++-
 .../kernels_processor/ihdg_swe_proc_ompi_step.hpp            | 5 ++++-
 .../kernels_processor/rkdg_swe_proc_ompi_step.hpp            | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
index 1b6cdc2..955b08f 100644
--- a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
@@ -145,8 +145,10 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
         sim_units[su_id]->discretization.mesh.CallForEachElement([&stepper](auto& elt) {
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
-            if (nan_found)
+            if (nan_found) {
+#pragma omp critical
                 MPI_Abort(MPI_COMM_WORLD, 1);
+            }
         });
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
index d3892a2..50d4551 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
@@ -89,6 +89,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
 
     if (!converged) {
         std::cerr << "Fatal Error: no convergence in step " << stepper.GetStep() + 1 << std::endl;
+#pragma omp critical
         MPI_Abort(MPI_COMM_WORLD, 1);
     }
 
@@ -115,8 +116,10 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
         sim_units[su_id]->discretization.mesh.CallForEachElement([&stepper](auto& elt) {
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
-            if (nan_found)
+            if (nan_found) {
+#pragma omp critical
                 MPI_Abort(MPI_COMM_WORLD, 1);
+            }
         });
     }
 }
diff --git a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
index c3047d9..ba99477 100644
--- a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
@@ -121,8 +121,10 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
         sim_units[su_id]->discretization.mesh.CallForEachElement([&stepper](auto& elt) {
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
-            if (nan_found)
+            if (nan_found) {
+#pragma omp critical
                 MPI_Abort(MPI_COMM_WORLD, 1);
+            }
         });
     }
 
-- 
2.43.0


From 02021c10cff47ac01873158a50b32e96d950b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 45/57] fix: Manning data files without a value for a node are
 rejected

---
 .../SWE/problem_preprocessor/swe_pre_init_data.hpp       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
index 3f3eb00..767a46a 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
@@ -184,7 +184,14 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
         mesh.CallForEachElement([&node_manning_n](auto& elt) {
             const std::vector<uint>& node_ID = elt.GetNodeID();
             for (uint node = 0; node < elt.data.get_nnode(); ++node) {
-                elt.data.source.manning_n[node] = node_manning_n[node_ID[node]];
+                auto it = node_manning_n.find(node_ID[node]);
+
+                if (it == node_manning_n.end()) {
+                    throw std::logic_error("Fatal Error: manning factor for node " + std::to_string(node_ID[node]) +
+                                           " was not found!\n");
+                }
+
+                elt.data.source.manning_n[node] = it->second;
             }
 
             elt.data.source.manning = true;
-- 
2.43.0


From 0efbfbbeb2cd288d604e1e83dceecdd215d0fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 46/57] fix: elements at an edge agree on the bathymetry for
 order 0

---
 .../swe_pre_init_data.hpp                     | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
index 767a46a..d376796 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
@@ -72,10 +72,19 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
         const uint nnode = intface.data_in.get_nnode();
         const uint ngp   = intface.data_in.get_ngp_boundary(intface.bound_id_in);
 
-        row(boundary_in.aux_at_gp, SWE::Auxiliaries::bath) =
-            intface.ComputeUgpIN(row(intface.data_in.state[0].aux, SWE::Auxiliaries::bath));
-        row(boundary_ex.aux_at_gp, SWE::Auxiliaries::bath) =
-            intface.ComputeUgpEX(row(intface.data_ex.state[0].aux, SWE::Auxiliaries::bath));
+        // Bathymetry at edges comes from the nodes so that elements at an edge agree on it for any polynomial order
+        auto& shape_ex = intface.GetShapeEX();
+
+        DynRowVector<double> bathymetry_in(nnode);
+        DynRowVector<double> bathymetry_ex(intface.data_ex.get_nnode());
+        for (uint node_id = 0; node_id < nnode; ++node_id) {
+            bathymetry_in[node_id] = shape_in.nodal_coordinates[node_id][GlobalCoord::z];
+        }
+        for (uint node_id = 0; node_id < intface.data_ex.get_nnode(); ++node_id) {
+            bathymetry_ex[node_id] = shape_ex.nodal_coordinates[node_id][GlobalCoord::z];
+        }
+        row(boundary_in.aux_at_gp, SWE::Auxiliaries::bath) = intface.ComputeNodalUgpIN(bathymetry_in);
+        row(boundary_ex.aux_at_gp, SWE::Auxiliaries::bath) = intface.ComputeNodalUgpEX(bathymetry_ex);
 
         if (problem_specific_input.spherical_projection.type == SWE::SphericalProjectionType::Enable) {
             DynRowVector<double> y_node(nnode);
@@ -108,8 +117,11 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
         const uint nnode = bound.data.get_nnode();
         const uint ngp   = bound.data.get_ngp_boundary(bound.bound_id);
 
-        row(boundary.aux_at_gp, SWE::Auxiliaries::bath) =
-            bound.ComputeUgp(row(bound.data.state[0].aux, SWE::Auxiliaries::bath));
+        DynRowVector<double> bathymetry(nnode);
+        for (uint node_id = 0; node_id < nnode; ++node_id) {
+            bathymetry[node_id] = shape.nodal_coordinates[node_id][GlobalCoord::z];
+        }
+        row(boundary.aux_at_gp, SWE::Auxiliaries::bath) = bound.ComputeNodalUgp(bathymetry);
 
         if (problem_specific_input.spherical_projection.type == SWE::SphericalProjectionType::Enable) {
             DynRowVector<double> y_node(nnode);
@@ -138,8 +150,11 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
         const uint nnode = dbound.data.get_nnode();
         const uint ngp   = dbound.data.get_ngp_boundary(dbound.bound_id);
 
-        row(boundary.aux_at_gp, SWE::Auxiliaries::bath) =
-            dbound.ComputeUgp(row(dbound.data.state[0].aux, SWE::Auxiliaries::bath));
+        DynRowVector<double> bathymetry(nnode);
+        for (uint node_id = 0; node_id < nnode; ++node_id) {
+            bathymetry[node_id] = shape.nodal_coordinates[node_id][GlobalCoord::z];
+        }
+        row(boundary.aux_at_gp, SWE::Auxiliaries::bath) = dbound.ComputeNodalUgp(bathymetry);
 
         if (problem_specific_input.spherical_projection.type == SWE::SphericalProjectionType::Enable) {
             DynRowVector<double> y_node(nnode);
-- 
2.43.0


From 7c9e262fcf4baa34c0aa5c1b70c64decffb62c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 47/57] fix: still water stays still for order 0

---
 .../problem/SWE/problem_preprocessor/swe_pre_init_data.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
index d376796..05e522f 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
@@ -24,10 +24,9 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
         row(state.aux, SWE::Auxiliaries::bath) = elt.L2ProjectionNode(bathymetry);
 
         row(internal.aux_at_gp, SWE::Auxiliaries::bath) = elt.ComputeUgp(row(state.aux, SWE::Auxiliaries::bath));
-        row(internal.db_at_gp, GlobalCoord::x) =
-            elt.ComputeDUgp(GlobalCoord::x, row(state.aux, SWE::Auxiliaries::bath));
-        row(internal.db_at_gp, GlobalCoord::y) =
-            elt.ComputeDUgp(GlobalCoord::y, row(state.aux, SWE::Auxiliaries::bath));
+        // Slopes come from the nodes as well, order 0 has no other way to see them
+        row(internal.db_at_gp, GlobalCoord::x) = elt.ComputeNodalDUgp(GlobalCoord::x, bathymetry);
+        row(internal.db_at_gp, GlobalCoord::y) = elt.ComputeNodalDUgp(GlobalCoord::y, bathymetry);
 
         if (problem_specific_input.spherical_projection.type == SWE::SphericalProjectionType::Enable) {
             DynRowVector<double> y_node(nnode);
-- 
2.43.0


From e99ef686db9471c8794736270d149006afcd5893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 48/57] fix: no reference to the first entry of an empty vector
 in distributed runs

---
 .../kernels_preprocessor/ehdg_gn_pre_ompi.hpp               | 6 +++---
 .../kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp   | 6 +++---
 .../kernels_preprocessor/ihdg_swe_pre_ompi.hpp              | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
index b106c7e..ef6a8e3 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
@@ -56,7 +56,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType>>& s
             dc_global_dof_offsets.resize(n_localities);
         }
         MPI_Gather(
-            &dc_global_dof_offset, 1, MPI_UNSIGNED, &dc_global_dof_offsets.front(), 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
+            &dc_global_dof_offset, 1, MPI_UNSIGNED, dc_global_dof_offsets.data(), 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
         uint n_dc_global_dofs = 0;
         if (locality_id == 0) {
@@ -103,7 +103,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType>>& s
             }
         }
         MPI_Scatter(
-            &dc_global_dof_offsets.front(), 1, MPI_UNSIGNED, &dc_global_dof_offset, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
+            dc_global_dof_offsets.data(), 1, MPI_UNSIGNED, &dc_global_dof_offset, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
         for (uint su_id = 0; su_id < sim_units.size(); ++su_id) {
             sim_units[su_id]->communicator.ReceiveAll(CommTypes::dc_global_dof_indx, 0);
@@ -131,7 +131,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType>>& s
         ISCreateBlock(MPI_COMM_SELF,
                       n_global_dofs,
                       dc_global_dof_indx.size(),
-                      (int*)&dc_global_dof_indx.front(),
+                      (int*)dc_global_dof_indx.data(),
                       PETSC_COPY_VALUES,
                       &(global_data.dc_from));
         ISCreateStride(MPI_COMM_SELF, n_global_dofs * dc_global_dof_indx.size(), 0, 1, &(global_data.dc_to));
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
index 1b05d7b..e3af51c 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
@@ -470,7 +470,7 @@ void Problem::reset_PETSC_solver(std::vector<std::unique_ptr<OMPISimUnitType>>&
         dc_global_dof_offsets.resize(n_localities);
     }
     MPI_Gather(
-        &dc_global_dof_offset, 1, MPI_UNSIGNED, &dc_global_dof_offsets.front(), 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
+        &dc_global_dof_offset, 1, MPI_UNSIGNED, dc_global_dof_offsets.data(), 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
     uint n_dc_global_dofs = 0;
     if (locality_id == 0) {
@@ -511,7 +511,7 @@ void Problem::reset_PETSC_solver(std::vector<std::unique_ptr<OMPISimUnitType>>&
         }
     }
     MPI_Scatter(
-        &dc_global_dof_offsets.front(), 1, MPI_UNSIGNED, &dc_global_dof_offset, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
+        dc_global_dof_offsets.data(), 1, MPI_UNSIGNED, &dc_global_dof_offset, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
     for (uint su_id = 0; su_id < sim_units.size(); ++su_id) {
         sim_units[su_id]->communicator.ReceiveAll(CommTypes::dc_global_dof_indx, stepper.GetTimestamp());
@@ -632,7 +632,7 @@ void Problem::reset_PETSC_solver(std::vector<std::unique_ptr<OMPISimUnitType>>&
     ISCreateBlock(MPI_COMM_SELF,
                   n_global_dofs,
                   dc_global_dof_indx.size(),
-                  (int*)&dc_global_dof_indx.front(),
+                  (int*)dc_global_dof_indx.data(),
                   PETSC_COPY_VALUES,
                   &(global_data.dc_from));
     ISCreateStride(MPI_COMM_SELF, n_global_dofs * dc_global_dof_indx.size(), 0, 1, &(global_data.dc_to));
diff --git a/source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp b/source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp
index 84c6184..03cd2fe 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp
@@ -74,7 +74,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType<Prob
         MPI_Gather(&total_global_dof_offset,
                    1,
                    MPI_UNSIGNED,
-                   &total_global_dof_offsets.front(),
+                   total_global_dof_offsets.data(),
                    1,
                    MPI_UNSIGNED,
                    0,
@@ -98,7 +98,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType<Prob
 
         MPI_Bcast(&n_global_dofs, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
-        MPI_Scatter(&total_global_dof_offsets.front(),
+        MPI_Scatter(total_global_dof_offsets.data(),
                     1,
                     MPI_UNSIGNED,
                     &total_global_dof_offset,
-- 
2.43.0


From 755cdcf8e6b13a2f1584c2eab3159b3bcc209eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 49/57] fix: sparse systems that cannot be factorized stop the
 run

---
 source/utilities/linear_algebra/use_eigen.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/utilities/linear_algebra/use_eigen.hpp b/source/utilities/linear_algebra/use_eigen.hpp
index b024728..cc35cdf 100644
--- a/source/utilities/linear_algebra/use_eigen.hpp
+++ b/source/utilities/linear_algebra/use_eigen.hpp
@@ -4,6 +4,7 @@
 #include <Eigen/Dense>
 #include <Eigen/Sparse>
 #include <Eigen/StdVector>
+#include <stdexcept>
 
 #define EIGEN_DONT_PARALLELIZE
 
@@ -216,6 +217,9 @@ void solve_sle(SparseMatrix<T>& A_sparse, ArrayType& B) {
     Eigen::SparseLU<SparseMatrix<T>> solver;
     solver.analyzePattern(A_sparse);
     solver.factorize(A_sparse);
+    if (solver.info() != Eigen::Success) {
+        throw std::runtime_error("Error: sparse linear system cannot be factorized!");
+    }
     B = solver.solve(B);
 }
 
-- 
2.43.0


From 8f8012e1bf36fc0044d0aed14ef15f85bfc86f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 50/57] fix: mesh sizes that cannot be numbered are rejected

---
 mesh_generators/quad_mesh_generator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mesh_generators/quad_mesh_generator.cpp b/mesh_generators/quad_mesh_generator.cpp
index d519449..227adb2 100644
--- a/mesh_generators/quad_mesh_generator.cpp
+++ b/mesh_generators/quad_mesh_generator.cpp
@@ -1,4 +1,6 @@
+#include <algorithm>
 #include <array>
+#include <limits>
 #include <yaml-cpp/yaml.h>
 
 #include "problem/SWE/swe_definitions.hpp"
@@ -381,6 +383,13 @@ MeshGeneratorInput::MeshGeneratorInput(const std::string& input_string) : bounda
         throw std::logic_error("Error: numbers of subdivisions have to be positive");
     }
 
+    // nodes and elements are numbered with uint
+    const double n_nodes    = (this->num_x_subdivisions + 1.0) * (this->num_y_subdivisions + 1.0);
+    const double n_elements = 2.0 * this->num_x_subdivisions * this->num_y_subdivisions;
+    if (std::max(n_nodes, n_elements) > std::numeric_limits<uint>::max()) {
+        throw std::logic_error("Error: numbers of subdivisions are too large");
+    }
+
     if (yaml_input["pattern"]) {
         const uint pattern_id = yaml_input["pattern"].as<uint>();
         if (pattern_id > 2) {
-- 
2.43.0


From 5316ef721537c47f75baa21913bbf49895f05a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 51/57] fix: boundary data without a value per node and
 constituent are rejected

---
 source/problem/SWE/problem_input/swe_inputs.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/problem/SWE/problem_input/swe_inputs.cpp b/source/problem/SWE/problem_input/swe_inputs.cpp
index 2d7ed27..4e5f352 100644
--- a/source/problem/SWE/problem_input/swe_inputs.cpp
+++ b/source/problem/SWE/problem_input/swe_inputs.cpp
@@ -272,6 +272,11 @@ void Inputs::read_bcis(const std::string& bcis_file) {
                 }
             }
 
+            // every node needs one value per constituent
+            for (const auto& tide_node : tide_bound.tide_nodes) {
+                check(tide_node.second.amplitude.size() == ncon);
+            }
+
             this->tide_bc_data.push_back(std::move(tide_bound));
         } else if (btype == SWE::BoundaryTypes::flow) {
             FlowBoundary flow_bound;
@@ -307,6 +312,11 @@ void Inputs::read_bcis(const std::string& bcis_file) {
                 }
             }
 
+            // every node needs one value per constituent
+            for (const auto& flow_node : flow_bound.flow_nodes) {
+                check(flow_node.second.amplitude.size() == ncon);
+            }
+
             this->flow_bc_data.push_back(std::move(flow_bound));
         } else if (btype == SWE::BoundaryTypes::levee) {
             uint front_node, back_node;
-- 
2.43.0


From 334d5cb50565da5791c15ea203e555cdd5688451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 52/57] fix: numbers of time steps that cannot be counted are
 rejected

---
 source/utilities/count_steps.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/utilities/count_steps.hpp b/source/utilities/count_steps.hpp
index 73dbf1b..30a5dc5 100644
--- a/source/utilities/count_steps.hpp
+++ b/source/utilities/count_steps.hpp
@@ -1,6 +1,9 @@
 #ifndef COUNT_STEPS_HPP
 #define COUNT_STEPS_HPP
 
+#include <limits>
+#include <stdexcept>
+
 #include "general_definitions.hpp"
 #include "almost_equal.hpp"
 
@@ -18,7 +21,14 @@ static uint count_steps(double duration, double dt) {
     const double ratio   = duration / dt;
     const double nearest = std::round(ratio);
 
-    return (uint)(nearest >= 1.0 && almost_equal(ratio, nearest) ? nearest : std::ceil(ratio));
+    const double steps   = nearest >= 1.0 && almost_equal(ratio, nearest) ? nearest : std::ceil(ratio);
+
+    if (!(steps <= std::numeric_limits<uint>::max())) {
+        throw std::logic_error("Fatal Error: number of time steps in " + std::to_string(duration) +
+                               " s is too large!\n");
+    }
+
+    return (uint)steps;
 }
 }
 
-- 
2.43.0


From 43adfcd939af1a0944fdf329e21167f250ac380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 53/57] fix: submesh files with elements other than triangles
 are rejected

---
 source/preprocessor/mesh_metadata.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/preprocessor/mesh_metadata.cpp b/source/preprocessor/mesh_metadata.cpp
index afbe76e..43dc8b7 100644
--- a/source/preprocessor/mesh_metadata.cpp
+++ b/source/preprocessor/mesh_metadata.cpp
@@ -124,6 +124,10 @@ MeshMetaData::MeshMetaData(const std::string& mesh_file) {
         ifs >> elt_id;
         ifs >> this->elements[elt_id];
         check_read();
+        if (this->elements[elt_id].node_ID.size() != 3) {
+            throw std::logic_error("Fatal Error: meta mesh file " + mesh_file + " has an element with " +
+                                   std::to_string(this->elements[elt_id].node_ID.size()) + " nodes!\n");
+        }
         ifs.ignore(1000, '\n');
     }
 
-- 
2.43.0


From 63c80ab60d385744a81b472278f1ef2aab3ba205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 54/57] fix: distributed boundaries with another polynomial
 order than their element are rejected

---
 .../problem_preprocessor/gn_pre_create_dbound.hpp      | 10 ++++++++--
 .../SWE/problem_preprocessor/swe_pre_create_dbound.hpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_dbound.hpp b/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_dbound.hpp
index cc99705..2435085 100644
--- a/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_dbound.hpp
+++ b/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_dbound.hpp
@@ -66,7 +66,10 @@ void create_distributed_boundaries(std::map<uchar, std::map<std::pair<uint, uint
             if (raw_bound_distributed.find(dbound_key) != raw_bound_distributed.end()) {
                 auto& raw_boundary = raw_bound_distributed.find(dbound_key)->second;
 
-                raw_boundary.p = p;
+                if (raw_boundary.p != p) {
+                    throw std::logic_error(
+                        "Fatal Error: polynomial order of a distributed boundary is not the one of its element!\n");
+                }
 
                 mesh.template CreateDistributedBoundary<DBTypeDistributed>(
                     std::move(raw_boundary),
@@ -84,7 +87,10 @@ void create_distributed_boundaries(std::map<uchar, std::map<std::pair<uint, uint
             } else if (raw_bound_distr_levee.find(dbound_key) != raw_bound_distr_levee.end()) {
                 auto& raw_boundary = raw_bound_distr_levee.find(dbound_key)->second;
 
-                raw_boundary.p = p;
+                if (raw_boundary.p != p) {
+                    throw std::logic_error(
+                        "Fatal Error: polynomial order of a distributed boundary is not the one of its element!\n");
+                }
 
                 auto& levee_data = problem_input.levee_is_data;
 
diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_create_dbound.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_create_dbound.hpp
index cae759b..62e2683 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_create_dbound.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_create_dbound.hpp
@@ -66,7 +66,10 @@ void create_distributed_boundaries(std::map<uchar, std::map<std::pair<uint, uint
             if (raw_bound_distributed.find(dbound_key) != raw_bound_distributed.end()) {
                 auto& raw_boundary = raw_bound_distributed.find(dbound_key)->second;
 
-                raw_boundary.p = p;
+                if (raw_boundary.p != p) {
+                    throw std::logic_error(
+                        "Fatal Error: polynomial order of a distributed boundary is not the one of its element!\n");
+                }
 
                 mesh.template CreateDistributedBoundary<DBTypeDistributed>(
                     std::move(raw_boundary),
@@ -84,7 +87,10 @@ void create_distributed_boundaries(std::map<uchar, std::map<std::pair<uint, uint
             } else if (raw_bound_distr_levee.find(dbound_key) != raw_bound_distr_levee.end()) {
                 auto& raw_boundary = raw_bound_distr_levee.find(dbound_key)->second;
 
-                raw_boundary.p = p;
+                if (raw_boundary.p != p) {
+                    throw std::logic_error(
+                        "Fatal Error: polynomial order of a distributed boundary is not the one of its element!\n");
+                }
 
                 auto& levee_data = problem_input.levee_is_data;
 
-- 
2.43.0


From 5361148487f54ca956041628a3e1e3ff5932b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 55/57] fix: the Green-Naghdi dispersive source uses the
 gradient of the water depth, zeta_x + bath_x, on sloping beds

---
 .../kernels_processor/ehdg_gn_proc_source.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
index aa37de5..55a18e3 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
@@ -25,8 +25,8 @@ void Problem::local_dc_source_kernel(const ESSPRKStepper& stepper, ElementType&
         const auto zex = elt.ComputeUgp(row(state.dze, GlobalCoord::x));
         const auto zey = elt.ComputeUgp(row(state.dze, GlobalCoord::y));
 
-        const auto hx = zex + bx;
-        const auto hy = zey + by;
+        const auto hx = zex - bx;
+        const auto hy = zey - by;
 
         const auto u = row(internal.u_at_gp, GlobalCoord::x);
         const auto v = row(internal.u_at_gp, GlobalCoord::y);
-- 
2.43.0


From 803e0a26b058d3bcffaf24447c6ad1d0b3b5d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 56/57] fix: times with trailing characters or days the month
 does not have are rejected

---
 source/preprocessor/input_parameters.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/source/preprocessor/input_parameters.hpp b/source/preprocessor/input_parameters.hpp
index 06ad55b..0de74f8 100644
--- a/source/preprocessor/input_parameters.hpp
+++ b/source/preprocessor/input_parameters.hpp
@@ -157,14 +157,24 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
             this->stepper_input.T_end   = {0};
 
             auto parse_time = [](const std::string& time, std::tm& tm) {
+                const char* rest = strptime(time.c_str(), "%d-%m-%Y %H:%M:%S", &tm);
+
                 // the seconds may be omitted
-                if (!strptime(time.c_str(), "%d-%m-%Y %H:%M:%S", &tm)) {
-                    tm = {0};
+                if (!rest || *rest != '\0') {
+                    tm   = {0};
+                    rest = strptime(time.c_str(), "%d-%m-%Y %H:%M", &tm);
+                }
 
-                    if (!strptime(time.c_str(), "%d-%m-%Y %H:%M", &tm)) {
-                        std::string err_msg{"Error: times must be of the form dd-mm-yyyy hh:mm:ss, not " + time + '\n'};
-                        throw std::logic_error(err_msg);
-                    }
+                // timegm moves a day the month does not have into the next month
+                std::tm date = {0};
+                date.tm_year = tm.tm_year;
+                date.tm_mon  = tm.tm_mon;
+                date.tm_mday = tm.tm_mday;
+                timegm(&date);
+
+                if (!rest || *rest != '\0' || date.tm_mday != tm.tm_mday) {
+                    std::string err_msg{"Error: times must be of the form dd-mm-yyyy hh:mm:ss, not " + time + '\n'};
+                    throw std::logic_error(err_msg);
                 }
             };
 
-- 
2.43.0


From 2defa5eeecb329dd26b7be94fa179bc6fac2d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 57/57] fix: open boundaries of the hybridized solvers start
 their trace iteration from the water at the boundary

---
 .../boundary_conditions/compute_bc_trace.hpp                   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp b/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp
index 7e106ad..7ed47dc 100644
--- a/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp
+++ b/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp
@@ -14,6 +14,9 @@ void compute_bc_trace(EdgeBoundaryType& edge_bound) {
     auto& aux_hat_at_gp  = edge_internal.aux_hat_at_gp;
     auto& surface_normal = edge_bound.boundary.surface_normal;
 
+    // start from the water at the boundary, which may lie at any level
+    edge_state.q_hat = edge_bound.L2Projection(boundary.q_at_gp);
+
     uint iter = 0;
     while (iter != 100) {
         edge_internal.q_hat_at_gp = edge_bound.ComputeUgp(edge_state.q_hat);
-- 
2.43.0

