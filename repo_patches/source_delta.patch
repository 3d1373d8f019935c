From 71d1534d40dcc6b1959a30de9d12ad6bdbb21538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 01/28] fix: order control start values like the control
 variables (component by component)

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c6a4bd6..1da5ab4 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -685,7 +685,7 @@ class mpopt:
                         self._Npoints,
                     )
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
 
@@ -3024,7 +3024,7 @@ class mpopt_adaptive(mpopt):
                         self._Npoints,
                     )
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
         z0[5] = [1.0 / self.n_segments] * self.n_segments
-- 
2.43.0


From abe4cf06d88a33e52027711103ccb224462405d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 02/28] fix: count a phase's own parameters only in the
 variables per phase

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 1da5ab4..0572c7a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -129,7 +129,7 @@ class mpopt:
 
         self._optimization_vars_per_phase = (
             self._Npoints * (self._ocp.nx + self._ocp.nu)
-            + self._ocp.n_phases * self._ocp.na
+            + self._ocp.na
             + 2
         )
 
-- 
2.43.0


From 5d8f312060c8b019ec83c96b9648c7093911db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 03/28] fix: leave the caller's option dictionaries alone in
 h-adaptive solve

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 0572c7a..83a236f 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2366,11 +2366,13 @@ class mpopt_h_adaptive(mpopt):
 
         start_time = time.monotonic()
         if (not self._nlpsolver_initialized) or (reinitialize_nlp):
+            nlp_solver_options = dict(nlp_solver_options)
             if "ipopt.print_level" not in nlp_solver_options:
                 nlp_solver_options["ipopt.print_level"] = 0
             self.create_solver(solver=solver, options=nlp_solver_options)
 
         if mpopt_options == {}:
+            mpopt_options = dict()
             mpopt_options["method"] = self._DEFAULT_METHOD
             mpopt_options["sub_method"] = self._DEFAULT_SUB_METHOD
 
-- 
2.43.0


From 01e2817aaab07f093da080bd7f3204c0fcc22864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 04/28] fix: keep state residuals when dynamics residuals are
 not requested

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 83a236f..b28f25f 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -921,7 +921,7 @@ class mpopt:
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not (residual_x or residual_dx):
             resid_value = None
 
         r_time = time.monotonic()
@@ -3317,7 +3317,7 @@ class mpopt_adaptive(mpopt):
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not (residual_x or residual_dx):
             resid_value = None
 
         r_time = time.monotonic()
-- 
2.43.0


From 774e64445ad46408578f3f26869592e4407a93f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 05/28] fix: default phase of plot_phases, return the axes of
 plot_phase

---
 mpopt/mpopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index b28f25f..bd5deee 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1871,6 +1871,8 @@ class post_process:
         """
         fig, axs = self.plot_phases([phase], interpolate, fig=fig, axs=axs)
 
+        return fig, axs
+
     def plot_phases(
         self,
         phases: List = None,
@@ -1898,7 +1900,7 @@ class post_process:
             if "phases_to_plot" in self.options:
                 phases = self.options["phases_to_plot"][0]
             else:
-                phase = [0]
+                phases = [0]
 
         if residuals:
             if self.residuals is not None:
-- 
2.43.0


From 024803c933b1a5c10f191febf1e6afd35290d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 06/28] fix: unscale every parameter with its own scale factor

---
 mpopt/mpopt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index bd5deee..c1b150d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1662,7 +1662,12 @@ class post_process:
             scale_u = self.options["scale_u"] if "scale_u" in self.options else 1.0
             scale_a = self.options["scale_a"] if "scale_a" in self.options else 1.0
 
-            return (x_opt / scale_x, u_opt / scale_u, t_opt, a_opt / scale_a)
+            return (
+                x_opt / scale_x,
+                u_opt / scale_u,
+                t_opt,
+                a_opt / np.reshape(scale_a, (-1, 1)),
+            )
 
         return (x_opt, u_opt, t_opt, a_opt)
 
-- 
2.43.0


From 12e9e1f0fa0b419cf273604b0bb68c93730df2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 07/28] fix: stack the parameters of interpolated phases like
 the original data

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c1b150d..4c68fe8 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1831,7 +1831,7 @@ class post_process:
                 x = np.vstack((x, xp))
                 u = np.vstack((u, up))
                 t = np.hstack((t, tp))
-                a = np.hstack((a, ap))
+                a = np.vstack((a, ap))
 
         return (x, u, t, a)
 
-- 
2.43.0


From b951291c98463c343b737ac6bc808e79945afa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 08/28] fix: do not carry the residual grid type of one phase
 over to the next

---
 mpopt/mpopt.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 4c68fe8..d65ca01 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1386,8 +1386,6 @@ class mpopt:
         residuals, ti = [None] * self._ocp.n_phases, [None] * self._ocp.n_phases
         for phase in range(self._ocp.n_phases):
             if nodes is None:
-                if grid_type is None:
-                    grid_type = self.grid_type[phase]
                 target_nodes = self.get_residual_grid_taus(phase, grid_type=grid_type)
             else:
                 target_nodes = nodes[phase]
-- 
2.43.0


From 6ba3c859a28efc5f51401d4632c334aeca31aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 09/28] fix: use the requested grid type for second derivatives
 of a single phase

---
 mpopt/mpopt.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index d65ca01..14b57fc 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1309,9 +1309,7 @@ class mpopt:
         if nodes is None:
             if grid_type is None:
                 grid_type = self.grid_type[phase]
-            target_nodes = self.get_residual_grid_taus(
-                phase=phase, grid_type=self.grid_type[phase]
-            )
+            target_nodes = self.get_residual_grid_taus(phase=phase, grid_type=grid_type)
         else:
             target_nodes = nodes
         ti = self.get_interpolated_time_grid(
-- 
2.43.0


From dda17e0a1552fcbf369e1b38da3fb3bbfc5afea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 10/28] fix: leave out the end of the phase, not of the first
 segment, in the fixed grid

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 14b57fc..d970f7d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1180,7 +1180,7 @@ class mpopt:
                     tau1=self.tau1,
                 )
             )
-            taus_on_original_grid[0] = taus_on_original_grid[0][:-1]
+            taus_on_original_grid[-1] = taus_on_original_grid[-1][:-1]
         elif grid_type == "mid-points":
             mid_points = lambda x: np.array(
                 [(x[i] + x[i + 1]) / 2.0 for i in range(len(x) - 1)]
-- 
2.43.0


From 3f2732a8dc21b286c2b67fefe3cae3de9bd272cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 11/28] fix: keep the quadrature weight of the first node of
 every segment in the cost

---
 mpopt/mpopt.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index d970f7d..9e42913 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -166,7 +166,7 @@ class mpopt:
                 q - List of constraints for discretized running costs
         """
         # Initialize variables to store dynamics(f), contraints(c) and cost function(g) at each collocation point
-        f, q = [None] * self._Npoints, [None] * self._Npoints
+        f, q = [None] * self._Npoints, []
         # Check if OCP has path constraints
         has_constraints = self._ocp.has_path_constraints(phase)
         c = [None] * self._Npoints if has_constraints else []
@@ -193,6 +193,8 @@ class mpopt:
                 h_seg = (
                     (tf - t0) / (self.tau1 - self.tau0) * self.seg_widths[seg, phase]
                 )
+                # The node shared with the previous segment also starts this one
+                q.append(h_seg * running_cost)
             x = ca.mtimes(self.__invScX, self.X[phase][index, :].T)
             u = ca.mtimes(self.__invScU, self.U[phase][index, :].T)
             t = t_seg0 + h_seg * (self._taus[self.poly_orders[seg]][point] - self.tau0)
@@ -203,7 +205,8 @@ class mpopt:
             if has_constraints:
                 c[index] = ca.vertcat(*path_constraints(x, u, t, a)).T
             # running cost
-            q[index] = h_seg * ca.vertcat(running_costs(x, u, t, a)).T
+            running_cost = ca.vertcat(running_costs(x, u, t, a)).T
+            q.append(h_seg * running_cost)
 
             point += 1
             self.time_grid[phase][index] = t
@@ -4062,9 +4065,7 @@ class Collocation:
             tau1 = self.tau1
 
         quad_mats = self.get_quad_weight_matrices(poly_orders, tau0=tau0, tau1=tau1)
-        comp_quad_weights = ca.vertcat(
-            *([quad_mats[poly_orders[0]][0]] + [quad_mats[p][1:] for p in poly_orders])
-        ).T
+        comp_quad_weights = ca.vertcat(*[quad_mats[p] for p in poly_orders]).T
 
         return comp_quad_weights
 
-- 
2.43.0


From aadde51351ab74a47f3e07ba6622cc8c1eeb02c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 12/28] fix: provide degree + 1 nodes up to the end of the
 interval for LG and unknown schemes

---
 mpopt/mpopt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 9e42913..f029355 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4188,8 +4188,8 @@ class CollocationRoots:
         else:
             # Unknown scheme, return equally spaced points
             return (
-                lambda n_nodes: np.linspace(self._TAU_MIN, self._TAU_MAX, n_nodes)
-                if n_nodes > 1
+                lambda deg: np.linspace(self._TAU_MIN, self._TAU_MAX, deg + 1)
+                if deg > 1
                 else np.array([self._TAU_MIN, self._TAU_MAX])
             )
 
@@ -4203,8 +4203,10 @@ class CollocationRoots:
         """
         # LG roots : same as scipy.special.j_roots(deg, 0, 0)[0]
         def lg_roots(deg):
+            if deg == 1:
+                return np.array([tau_min, tau_max])
             roots = np.polynomial.legendre.leggauss(deg - 1)[0]
-            roots_default = np.append(-1, roots)
+            roots_default = np.append(np.append(-1, roots), 1.0)
 
             return tau_min + (tau_max - tau_min) / (2) * (roots_default + 1)
 
-- 
2.43.0


From 0fb66eecd755b1b93ad101aa8d84b1e974ab82a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 13/28] fix: do not share the list of polynomial orders with
 the caller

---
 mpopt/mpopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index f029355..8c5b15f 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -71,7 +71,9 @@ class mpopt:
 
         # if poly_orders is an integer, convert it to list with n_segments elements
         self.poly_orders = (
-            [poly_orders] * n_segments if isinstance(poly_orders, int) else poly_orders
+            [poly_orders] * n_segments
+            if isinstance(poly_orders, int)
+            else copy.copy(poly_orders)
         )
 
         self._ocp = copy.deepcopy(problem)
-- 
2.43.0


From 1cd6067bf04fdb6b14c0a3b32b9976cd82c50ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 14/28] fix: ph-adaptive solve reads an unassigned name and
 ignores the refined widths

---
 mpopt/mpopt.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 8c5b15f..2bb8a91 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4446,8 +4446,8 @@ class mpopt_ph_adaptive(mpopt):
                 for p in poly_orders
             ]
 
-        if grid_type is None:
-            grid_type = self.grid_type[0]
+        # Use a copy, the caller's dictionary is not to be modified
+        solve_dict = copy.copy(solve_dict)
         # ph-Adaptive algorithm (http://dx.doi.org/10.1016/j.jfranklin.2015.05.028)
         nlp_sw_params = []  # Initialize
         poly_orders = []
@@ -4455,7 +4455,10 @@ class mpopt_ph_adaptive(mpopt):
             if iter_no > 0:
                 # Update Mesh for the next iteration
                 self._nlp_sw_params = np.hstack(nlp_sw_params)
-                solve_dict["nlp_sw_params"] = self._nlp_sw_params
+                solve_dict["mpopt_options"] = {
+                    **solve_dict.get("mpopt_options", {}),
+                    "nlp_sw_params": self._nlp_sw_params,
+                }
                 self.poly_orders = np.hstack(poly_orders)
                 self.n_segments = self._nlp_sw_params.shape[0]
 
-- 
2.43.0


From 77b41d0a64729ca5159bfec516971c36659454c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 15/28] fix: honour the control slope continuity switch in the
 adaptive-width optimizer

---
 mpopt/mpopt.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 2bb8a91..c9dbbb1 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3169,6 +3169,11 @@ class mpopt_adaptive(mpopt):
             mayer_term,
         ) = self.get_nlp_constraints_for_terminal_contraints(phase)
         (DU, DUmin, DUmax) = self.get_nlp_constraints_for_control_input_slope(phase)
+        (
+            dU,
+            dUmin,
+            dUmax,
+        ) = self.get_nlp_constrains_for_control_slope_continuity_across_segments(phase)
 
         # Constraints related to segment widths
         (SW, SWmin, SWmax) = self.get_nlp_constrains_for_segment_widths(phase)
@@ -3177,9 +3182,9 @@ class mpopt_adaptive(mpopt):
         J = mayer_term + ca.mtimes(self._compW, ca.vertcat(*q))
 
         # Merge constraint vectors into sigle constraint vector
-        G = ca.vertcat(*[F, C, DU, TC, SW])
-        Gmin = np.concatenate([Fmin, Cmin, DUmin, TCmin, SWmin])
-        Gmax = np.concatenate([Fmax, Cmax, DUmax, TCmax, SWmax])
+        G = ca.vertcat(*[F, C, DU, dU, TC, SW])
+        Gmin = np.concatenate([Fmin, Cmin, DUmin, dUmin, TCmin, SWmin])
+        Gmax = np.concatenate([Fmax, Cmax, DUmax, dUmax, TCmax, SWmax])
 
         return (G, Gmin, Gmax, J)
 
-- 
2.43.0


From 7e238a4c469c20fe1794500e0e7cbf82a5697c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 16/28] fix: draw curves of more than 15 states or controls

---
 mpopt/mpopt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c9dbbb1..58fbb30 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2168,10 +2168,12 @@ class post_process:
         """
         nx = x.shape[1]
         for i in range(nx):
-            state_index = i + 1 if legend_index is None else legend_index[i]
+            state_index = (
+                i + 1 if legend_index is None else legend_index[i % len(legend_index)]
+            )
             # state_index = ""  # if legend_index is None else legend_index[i]
             label = f"{name} {state_index}" if name is not None else name
-            ax.plot(t, x[:, i], tics[i], label=label)
+            ax.plot(t, x[:, i], tics[i % len(tics)], label=label)
         ax.set(ylabel=ylabel)
         if name is not None:
             ax.legend()
-- 
2.43.0


From 86c8747a4942e422b81ee32af294fcb229f96f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 17/28] fix: return the initial solution when no h-adaptive
 iteration is allowed

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 58fbb30..c4206be 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2388,6 +2388,7 @@ class mpopt_h_adaptive(mpopt):
 
         self.iter_count, self.iter_info = 0, dict()
         sw_old = []
+        solution = initial_solution
         new_nlp_sw_params, max_error = self.get_segment_width_parameters(
             initial_solution, options=mpopt_options
         )
@@ -2399,7 +2400,6 @@ class mpopt_h_adaptive(mpopt):
                     f"Solved to acceptable tolerance {min(self.tol_residual)}",
                     max_error,
                 )
-                solution = initial_solution
                 solved = True
 
         if not solved:
-- 
2.43.0


From 64b844751a75bf38ba877d426952642411042b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 18/28] fix: report missing polynomial orders instead of
 reading an unassigned name

---
 mpopt/mpopt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c4206be..f650974 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1792,8 +1792,7 @@ class post_process:
         scheme = (
             self.options["colloc_scheme"] if "colloc_scheme" in self.options else "LGR"
         )
-        if "poly_orders" in self.options:
-            poly_orders = self.options["poly_orders"]
+        poly_orders = self.options["poly_orders"]
         collocation = Collocation(poly_orders, scheme)
         if taus == []:
             taus = [
-- 
2.43.0


From c08b63146346f5b7cd7b256073cb374e77f500b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 19/28] fix: h-adaptive solve passes ipopt options to other
 solver plugins

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index f650974..c77949f 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2376,7 +2376,7 @@ class mpopt_h_adaptive(mpopt):
         start_time = time.monotonic()
         if (not self._nlpsolver_initialized) or (reinitialize_nlp):
             nlp_solver_options = dict(nlp_solver_options)
-            if "ipopt.print_level" not in nlp_solver_options:
+            if solver == "ipopt" and "ipopt.print_level" not in nlp_solver_options:
                 nlp_solver_options["ipopt.print_level"] = 0
             self.create_solver(solver=solver, options=nlp_solver_options)
 
-- 
2.43.0


From 9f23418471053e025257db0311f5d47fd78278f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 20/28] fix: computing segment widths sorted the caller's list
 of times in place

---
 mpopt/mpopt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c77949f..d84240d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2855,14 +2855,13 @@ class mpopt_h_adaptive(mpopt):
         n_points_available = len(times)
         segment_widths = [None] * n_segments
         if n_points_available > (n_segments - 2):
-            times = times[:n_segments]
-            times.sort()
+            times = sorted(times[:n_segments])
             segment_widths[0] = times[0] - t0
             for i in range(1, n_segments - 1):
                 segment_widths[i] = times[i] - times[i - 1]
             segment_widths[n_segments - 1] = tf - times[n_segments - 2]
         else:
-            times.sort()
+            times = sorted(times)
             sw0 = times[0] - t0
             sw_end = tf - times[-1]
             n_req = n_segments - (n_points_available - 1)
-- 
2.43.0


From 92c7994a6c2f14bee9007604082830cacc6e0b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 21/28] fix: equal area refinement ends the last segment with
 the phase

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index d84240d..aadd31a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2660,6 +2660,8 @@ class mpopt_h_adaptive(mpopt):
                 + ((i + 1) / n_segments - cumulative_area[ind_j - 1])
                 / (cumulative_area[ind_j] - cumulative_area[ind_j - 1])
             ) / (n_points - 1)
+        # Area may be reached earlier (zero residual at the end): last segment ends with phase
+        seg_widths_cumulative[n_segments - 1] = 1.0
 
         seg_widths_cumulative = np.append(0, seg_widths_cumulative)
         seg_widths = [
-- 
2.43.0


From f2539f3b2e413560fb073639aa8d546733f6e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:59 +0000
Subject: [PATCH 22/28] fix: report unsupported derivative orders instead of
 reading an unassigned name

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index aadd31a..081c9d5 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3839,6 +3839,8 @@ class Collocation:
         returns:
             :D: Differentiation matrix
         """
+        if order not in (1, 2):
+            raise ValueError(f"Derivatives of order {order} are not supported")
         if (key not in self.roots) or (key not in self.polys):
             self.init_polynomials([key])
         eval_D_at = self.roots[key] if taus is None else taus
-- 
2.43.0


From 6954f0667d1c9db408d2d4190fdeded23f4f7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:20 +0000
Subject: [PATCH 23/28] fix: solve_ph returns the solution on the initial mesh
 when no iteration is allowed

---
 mpopt/mpopt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 081c9d5..3178af7 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4457,6 +4457,9 @@ class mpopt_ph_adaptive(mpopt):
 
         # Use a copy, the caller's dictionary is not to be modified
         solve_dict = copy.copy(solve_dict)
+        if max_iter < 1:
+            # No refinement allowed: solution on the initial mesh
+            return self.solve(reinitialize_nlp=True, **solve_dict)
         # ph-Adaptive algorithm (http://dx.doi.org/10.1016/j.jfranklin.2015.05.028)
         nlp_sw_params = []  # Initialize
         poly_orders = []
-- 
2.43.0


From 72fb6a313e03360c43d13b32721daab7dbcb6103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:43 +0000
Subject: [PATCH 24/28] fix: plot_phases draws on the caller's figure and axes
 even when residuals are stored

---
 mpopt/mpopt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 3178af7..2fffc46 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1907,6 +1907,9 @@ class post_process:
             else:
                 phases = [0]
 
+        # Residuals have a figure of their own layout, the caller's axes are not replaced
+        residuals = residuals and (fig is None) and (axs is None)
+
         if residuals:
             if self.residuals is not None:
                 fig = plt.figure()
-- 
2.43.0


From 6b19e6fbc08f273e15901f18a86488c59e7b8ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:27 +0000
Subject: [PATCH 25/28] fix: residual plots show the requested phases

---
 mpopt/mpopt.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 2fffc46..2379805 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1149,7 +1149,7 @@ class mpopt:
 
         if plot:
             fig, axs = post_process.plot_residuals(
-                ti, residuals, phases=range(self._ocp.n_phases), fig=fig, axs=axs
+                ti, residuals, phases=phases, fig=fig, axs=axs
             )
 
         return x_int, u_int, ti, residuals
@@ -2227,16 +2227,10 @@ class post_process:
                 for err in residual
             ]
         )
-        t, r = time[0], norm_residual(residuals[0])
-        if len(phases) > 1:
-            for phase in phases[1:]:
-                tp, rp = time[phase], norm_residual(residuals[phase])
-                r = np.vstack((r, rp))
-                t = np.vstack((t, tp))
-
-            r = np.concatenate(r)
-
-        t = np.concatenate(t)
+        t = np.concatenate(
+            [t_seg for phase in phases for t_seg in time[phase] if t_seg is not None]
+        )
+        r = np.concatenate([norm_residual(residuals[phase]) for phase in phases])
         r = r.reshape(t.shape[0], 1)
         return (r, t)
 
-- 
2.43.0


From d65136e6968ef47c8a6827e29a1f59bca1a2f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:27 +0000
Subject: [PATCH 26/28] fix: residual evolution plots take the phases out of
 the groups to plot

---
 mpopt/mpopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 2379805..6502726 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2549,7 +2549,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=list(itertools.chain(*self._ocp.phases_to_plot)),
                 name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2558,7 +2558,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=list(itertools.chain(*self._ocp.phases_to_plot)),
                 # name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2732,7 +2732,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=list(itertools.chain(*self._ocp.phases_to_plot)),
                 name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2741,7 +2741,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=list(itertools.chain(*self._ocp.phases_to_plot)),
                 # name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
-- 
2.43.0


From 237a2f5ef86a46392f39a9fc8605a15995f1faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:37 +0000
Subject: [PATCH 27/28] fix: a single group of dimensions is plotted with the
 label of each dimension

---
 mpopt/mpopt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 6502726..5f076ad 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2134,6 +2134,9 @@ class post_process:
         """
         if tics is None:
             tics = self.__TICS
+        if len(dims) == 1 and isinstance(dims[0], list):
+            # A single group of dimensions, a single subplot
+            dims = dims[0]
         n = len(dims) if isinstance(dims[0], list) else 1
         if (fig == None) and (axs == None):
             if axis == 1:
-- 
2.43.0


From 507bf81f9d8b1b0e687aab07a3631d1047291dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 28/28] fix: an array of axes can be passed to the plotting
 methods without a figure

---
 mpopt/mpopt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 5f076ad..1fcb2b4 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2138,7 +2138,7 @@ class post_process:
             # A single group of dimensions, a single subplot
             dims = dims[0]
         n = len(dims) if isinstance(dims[0], list) else 1
-        if (fig == None) and (axs == None):
+        if (fig is None) and (axs is None):
             if axis == 1:
                 fig, axs = plt.subplots(n, 1, sharex=True)
             else:
@@ -2212,7 +2212,7 @@ class post_process:
         """
         if tics is None:
             tics = self.__TICS
-        if (fig == None) and (axs == None):
+        if (fig is None) and (axs is None):
             fig, axs = plt.subplots(2, 1, sharex=True)
         name_x, name_u = (name + "state", name + "control") if legend else (None, None)
         self.plot_curve(axs[0], x, t, name_x, "State variables", tics=tics)
@@ -2251,7 +2251,7 @@ class post_process:
         """Plot residual in dynamics"""
         if tics is None:
             tics = self.__TICS
-        if (fig == None) and (axs == None):
+        if (fig is None) and (axs is None):
             fig, axs = plt.subplots(1, 1)
 
         r, t = self.sort_residual_data(time, residuals, phases=phases)
-- 
2.43.0

