From 906a41784d7c042427754101d5a5fc71ea8a9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 1/9] fix: apply the spherical correction factor to the
 exterior normal flux in the RKDG LLF flux

---
 .../numerical_fluxes/rkdg_swe_LLF_flux.hpp                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
index 9b577c6..619e205 100644
--- a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
+++ b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
@@ -52,9 +52,9 @@ void LLF_flux(const double gravity,
     double uvh_ex = u_ex * q_ex[SWE::Variables::qy];
     double pe_ex  = gravity * (std::pow(q_ex[SWE::Variables::ze], 2) / 2 + q_ex[SWE::Variables::ze] * bath);
 
-    Fn_ex[SWE::Variables::ze] = q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
-    Fn_ex[SWE::Variables::qx] = (uuh_ex + pe_ex) * nx + uvh_ex * ny;
-    Fn_ex[SWE::Variables::qy] = uvh_ex * nx + (vvh_ex + pe_ex) * ny;
+    Fn_ex[SWE::Variables::ze] = sp * q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
+    Fn_ex[SWE::Variables::qx] = sp * (uuh_ex + pe_ex) * nx + uvh_ex * ny;
+    Fn_ex[SWE::Variables::qy] = sp * uvh_ex * nx + (vvh_ex + pe_ex) * ny;
 
     F_hat = 0.5 * (Fn_in + Fn_ex + max_eigenvalue * (q_in - q_ex));
 }
-- 
2.43.0


From 28034b04e7705f04c91ea3f3c3c6aaad9dbb5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 2/9] fix: compute the stage times of the SSP Runge-Kutta
 methods from all previous stages

---
 source/simulation/stepper/explicit_ssp_rk_stepper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
index f6b8872..f796085 100644
--- a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
+++ b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
@@ -260,10 +260,10 @@ void ESSPRKStepper::InitializeCoefficients() {
     // Compute the time dependent parameters
 
     for (uint i = 0; i < this->nstages; ++i) {
-        for (uint k = 0; k < i; ++k) {
+        for (uint k = 0; k <= i; ++k) {
             double casum = 0.;
-            for (uint l = k + 1; l < i; ++l) {
-                casum += this->crk.at(l).at(k) * this->ark.at(i).at(l);
+            for (uint l = k + 1; l <= i; ++l) {
+                casum += this->crk.at(l - 1).at(k) * this->ark.at(i).at(l);
             }
             this->crk.at(i).at(k) = this->brk.at(i).at(k) + casum;
         }
-- 
2.43.0


From 7e9e2df9b16ac0fdd0dfb1f246ee81db457c570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 3/9] fix: reflect about the projected normal at land
 boundaries so that no water crosses them when sp differs from one

---
 .../boundary_conditions/rkdg_swe_bc_land.hpp  | 41 +++++++------------
 .../rkdg_swe_dbc_distributed_levee.hpp        |  6 ++-
 .../rkdg_swe_is_levee.hpp                     |  7 +++-
 3 files changed, 23 insertions(+), 31 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
index 8bce928..0054f37 100644
--- a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
+++ b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
@@ -24,6 +24,7 @@ class Land {
 
     void GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
                const Column<HybMatrix<double, SWE::n_variables>>& q_in,
+               const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                Column<HybMatrix<double, SWE::n_variables>>&& q_ex);
 };
 
@@ -41,21 +42,12 @@ template <typename StepperType, typename BoundaryType>
 void Land::ComputeFlux(const StepperType& stepper, BoundaryType& bound) {
     auto& boundary = bound.data.boundary[bound.bound_id];
 
-    auto n_x = row(bound.surface_normal, GlobalCoord::x);
-    auto n_y = row(bound.surface_normal, GlobalCoord::y);
-    auto t_x = -n_y;
-    auto t_y = n_x;
-
-    auto qn_ex = -(vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), n_x) +
-                   vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), n_y));
-    auto qt_ex = vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), t_x) +
-                 vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), t_y);
-
-    row(this->q_ex, SWE::Variables::ze) = row(boundary.q_at_gp, SWE::Variables::ze);
-    row(this->q_ex, SWE::Variables::qx) = vec_cw_mult(qn_ex, n_x) + vec_cw_mult(qt_ex, t_x);
-    row(this->q_ex, SWE::Variables::qy) = vec_cw_mult(qn_ex, n_y) + vec_cw_mult(qt_ex, t_y);
-
     for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
+        this->GetEX(column(bound.surface_normal, gp),
+                    column(boundary.q_at_gp, gp),
+                    column(boundary.aux_at_gp, gp),
+                    column(this->q_ex, gp));
+
         LLF_flux(Global::g,
                  column(boundary.q_at_gp, gp),
                  column(this->q_ex, gp),
@@ -70,28 +62,23 @@ void Land::ComputeFlux(const Column<HybMatrix<double, SWE::n_dimensions>>& surfa
                        const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                        Column<HybMatrix<double, SWE::n_variables>>&& F_hat) {
     // *** //
-    double n_x = surface_normal[GlobalCoord::x];
-    double n_y = surface_normal[GlobalCoord::y];
-    double t_x = -n_y;
-    double t_y = n_x;
-
-    double qn_ex = -(q_in[SWE::Variables::qx] * n_x + q_in[SWE::Variables::qy] * n_y);
-    double qt_ex = q_in[SWE::Variables::qx] * t_x + q_in[SWE::Variables::qy] * t_y;
-
-    this->q_ex(SWE::Variables::ze, 0) = q_in[SWE::Variables::ze];
-    this->q_ex(SWE::Variables::qx, 0) = qn_ex * n_x + qt_ex * t_x;
-    this->q_ex(SWE::Variables::qy, 0) = qn_ex * n_y + qt_ex * t_y;
+    this->GetEX(surface_normal, q_in, aux_in, column(this->q_ex, 0));
 
     LLF_flux(Global::g, q_in, column(this->q_ex, 0), aux_in, surface_normal, std::move(F_hat));
 }
 
 void Land::GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
                  const Column<HybMatrix<double, SWE::n_variables>>& q_in,
+                 const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                  Column<HybMatrix<double, SWE::n_variables>>&& q_ex) {
     double n_x, n_y, t_x, t_y, qn_in, qt_in, qn_ex, qt_ex;
 
-    n_x = surface_normal[GlobalCoord::x];
-    n_y = surface_normal[GlobalCoord::y];
+    // under the spherical projection the wall is normal to (sp * n_x, n_y)
+    double sp     = aux_in[SWE::Auxiliaries::sp];
+    double n_norm = std::hypot(sp * surface_normal[GlobalCoord::x], surface_normal[GlobalCoord::y]);
+
+    n_x = sp * surface_normal[GlobalCoord::x] / n_norm;
+    n_y = surface_normal[GlobalCoord::y] / n_norm;
     t_x = -n_y;
     t_y = n_x;
 
diff --git a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
index 2ed7e4b..ebc3d6d 100644
--- a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
@@ -100,8 +100,10 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary
-            this->land_boundary.GetEX(
-                column(dbound.surface_normal, gp), column(boundary.q_at_gp, gp), column(this->q_ex, gp));
+            this->land_boundary.GetEX(column(dbound.surface_normal, gp),
+                                      column(boundary.q_at_gp, gp),
+                                      column(boundary.aux_at_gp, gp),
+                                      column(this->q_ex, gp));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
 
diff --git a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
index 3fc8cac..9c4a20f 100644
--- a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
@@ -90,12 +90,15 @@ void Levee::ComputeFlux(InterfaceType& intface) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary in
-            this->land_boundary.GetEX(
-                column(intface.surface_normal_in, gp), column(boundary_in.q_at_gp, gp), column(this->q_in_ex, gp));
+            this->land_boundary.GetEX(column(intface.surface_normal_in, gp),
+                                      column(boundary_in.q_at_gp, gp),
+                                      column(boundary_in.aux_at_gp, gp),
+                                      column(this->q_in_ex, gp));
 
             // reflective boundary ex
             this->land_boundary.GetEX(column(intface.surface_normal_ex, gp_ex),
                                       column(boundary_ex.q_at_gp, gp_ex),
+                                      column(boundary_ex.aux_at_gp, gp_ex),
                                       column(this->q_ex_ex, gp_ex));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
-- 
2.43.0


From ddd4b22613bc60c75cad2fcc079344111df62e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:26 +0000
Subject: [PATCH 4/9] fix: scale the bed slope source by the spherical
 projection factor

The hydrostatic pressure in the x momentum flux is multiplied by sp but the
bed slope source that balances it was not, so a lake at rest with a nonzero
surface level started to move on spherically projected meshes.
---
 .../kernels_processor/rkdg_swe_proc_source.hpp             | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
index ab7dbb2..e73e286 100644
--- a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
@@ -13,6 +13,13 @@ void Problem::source_kernel(const ProblemStepperType& stepper, ElementType& elt)
 
         SWE::get_source(stepper.GetTimeAtCurrentStage(), elt);
 
+        // Spherical projection: the bed slope term has to balance the projected hydrostatic pressure
+        const DynRowVector<double> bed_slope_x =
+            Global::g * vec_cw_mult(row(internal.db_at_gp, GlobalCoord::x), row(internal.q_at_gp, SWE::Variables::ze));
+
+        row(internal.source_at_gp, SWE::Variables::qx) +=
+            vec_cw_mult(row(internal.aux_at_gp, SWE::Auxiliaries::sp), bed_slope_x) - bed_slope_x;
+
         state.rhs += elt.IntegrationPhi(internal.source_at_gp);
     }
 }
-- 
2.43.0


From 61705595d213d81792114ce09f3a8adcb88dc78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 5/9] fix: IHDG tide and flow boundaries use the phase in
 degrees at the end of the step

---
 .../boundary_conditions/ihdg_swe_bc_flow.hpp                  | 4 ++--
 .../boundary_conditions/ihdg_swe_bc_tide.hpp                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
index a6455f1..4f36ea7 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
@@ -156,8 +156,8 @@ void Flow::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
     for (uint con = 0; con < this->frequency.size(); ++con) {
         for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
             this->qn[gp] += stepper.GetRampNext() * this->forcing_fact[con] * this->amplitude_gp[con][gp] *
-                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() + this->equilib_arg[con] -
-                                this->phase_gp[con][gp]);
+                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
+                                (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
index 23c7fc5..89c7a82 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
@@ -153,7 +153,7 @@ void Tide::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
             this->q_ex(SWE::Variables::ze, gp) += stepper.GetRampNext() * this->forcing_fact[con] *
                                                   this->amplitude_gp[con][gp] *
                                                   cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
-                                                      this->equilib_arg[con] - this->phase_gp[con][gp]);
+                                                      (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
-- 
2.43.0


From 20cc0153c151c79b5f3e354fee0b0f87fb1f7e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 6/9] fix: IHDG friction linearisation is defined for water at
 rest

---
 .../kernels_processor/ihdg_swe_proc_source.hpp        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index a999ba1..78a1301 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -47,18 +47,21 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
                 }
             }
 
-            double bottom_friction_stress = Cf * std::hypot(u, v) / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
-            double C                      = Cf / (std::hypot(u, v) * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
+            double speed                  = std::hypot(u, v);
+            double bottom_friction_stress = Cf * speed / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
+            double dstress_dze            = dCf_dze * speed / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
+            // u * u / speed, u * v / speed and v * v / speed vanish with the speed
+            double C = speed > 0.0 ? Cf / (speed * internal.aux_at_gp(SWE::Auxiliaries::h, gp)) : 0.0;
 
             internal.dsource_dq_at_gp(JacobianVariables::qx_ze, gp) -=
                 -2.0 * bottom_friction_stress * u +
-                dCf_dze * bottom_friction_stress / Cf * internal.q_at_gp(SWE::Variables::qx, gp);
+                dstress_dze * internal.q_at_gp(SWE::Variables::qx, gp);
             internal.dsource_dq_at_gp(JacobianVariables::qx_qx, gp) -= bottom_friction_stress + C * u * u;
             internal.dsource_dq_at_gp(JacobianVariables::qx_qy, gp) -= C * u * v;
 
             internal.dsource_dq_at_gp(JacobianVariables::qy_ze, gp) -=
                 -2.0 * bottom_friction_stress * v +
-                dCf_dze * bottom_friction_stress / Cf * internal.q_at_gp(SWE::Variables::qy, gp);
+                dstress_dze * internal.q_at_gp(SWE::Variables::qy, gp);
             internal.dsource_dq_at_gp(JacobianVariables::qy_qx, gp) -= C * u * v;
             internal.dsource_dq_at_gp(JacobianVariables::qy_qy, gp) -= bottom_friction_stress + C * v * v;
         }
-- 
2.43.0


From 3b59ad9f9131f2d67228b8d75c7fe7f8e1bd0a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 7/9] fix: IHDG local linearisation includes the hydrostatic
 pressure source over a sloping bed

---
 .../kernels_processor/ihdg_swe_proc_source.hpp                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index 78a1301..4793760 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -26,6 +26,10 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
 
     set_constant(internal.dsource_dq_at_gp, 0.0);
 
+    // contribution of hydrostatic pressure
+    row(internal.dsource_dq_at_gp, JacobianVariables::qx_ze) = Global::g * row(internal.db_at_gp, GlobalCoord::x);
+    row(internal.dsource_dq_at_gp, JacobianVariables::qy_ze) = Global::g * row(internal.db_at_gp, GlobalCoord::y);
+
     if (SWE::SourceTerms::bottom_friction) {
         double Cf      = SWE::SourceTerms::Cf;
         double dCf_dze = 0.0;
-- 
2.43.0


From 96ccc2e96663b61f8cd24c8e7b125b21d511ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 8/9] fix: stabilisation parameter of a single state uses the
 gravity it is given

---
 .../SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp b/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
index abf025b..f3ae417 100644
--- a/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
+++ b/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
@@ -35,7 +35,7 @@ void get_tau_LF(double gravity,
     double nx = surface_normal[GlobalCoord::x];
     double ny = surface_normal[GlobalCoord::y];
 
-    double c  = std::sqrt(Global::g * h);
+    double c  = std::sqrt(gravity * h);
     double un = u * nx + v * ny;
 
     tau = (c + std::abs(un)) * IdentityMatrix<double>(3);
-- 
2.43.0


From 12dab5910c6246d0e13ac4761d243c2422dbbe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 9/9] fix: a distributed run with a single submesh (no rank
 boundaries) crashed in the communicator

---
 source/communication/ompi_communicator.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/communication/ompi_communicator.cpp b/source/communication/ompi_communicator.cpp
index 4f0ba95..5d13ad3 100644
--- a/source/communication/ompi_communicator.cpp
+++ b/source/communication/ompi_communicator.cpp
@@ -19,6 +19,9 @@ OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
 }
 
 void OMPICommunicator::InitializeCommunication() {
+    if (this->rank_boundaries.empty())
+        return;
+
     uint ncomm   = this->rank_boundaries.begin()->send_buffer.size();
     uint nrbound = this->rank_boundaries.size();
 
@@ -59,18 +62,30 @@ void OMPICommunicator::InitializeCommunication() {
 }
 
 void OMPICommunicator::SendAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Startall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front());
 }
 
 void OMPICommunicator::ReceiveAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Startall(this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front());
 }
 
 void OMPICommunicator::WaitAllSends(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Waitall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
 
 void OMPICommunicator::WaitAllReceives(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Waitall(
         this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
\ No newline at end of file
-- 
2.43.0

