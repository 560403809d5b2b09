From f2b2b71cd76659e479a6c05a06bac7faad888f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:58 +0000
Subject: [PATCH 001/117] fix: AcadosParamManager: initialize exactly the added
 stages when the horizon grows

The setter reset the last existing stage to its default value and left the
last added stage as a copy of stage 0's current value.
---
 .../acados_template/acados_template/acados_param_manager.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_param_manager.py b/interfaces/acados_template/acados_template/acados_param_manager.py
index 11183c8..70a16bd 100644
--- a/interfaces/acados_template/acados_template/acados_param_manager.py
+++ b/interfaces/acados_template/acados_template/acados_param_manager.py
@@ -98,8 +98,8 @@ class AcadosParamManager:
 
         # Initialize with default values
         for p in self._params:
-            for n in range(self._N_horizon, N_horizon):
-                self._param_values[n][p.name] = p.value
+            for n in range(self._N_horizon + 1, N_horizon + 1):
+                self._param_values[n][p.name] = deepcopy(p.value)
 
         self._N_horizon = N_horizon
 
-- 
2.43.0


From 18a0b458dafa88e63db6fae2a2e63281037bbded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:58 +0000
Subject: [PATCH 002/117] fix: J_to_idx_slack: keep the slack order given by
 the columns of J

Columns in non-ascending order were silently sorted, and a column without a
one was accepted when another column had two.
---
 .../acados_template/acados_template/utils.py      | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/interfaces/acados_template/acados_template/utils.py b/interfaces/acados_template/acados_template/utils.py
index b44e231..5f1f178 100644
--- a/interfaces/acados_template/acados_template/utils.py
+++ b/interfaces/acados_template/acados_template/utils.py
@@ -460,20 +460,21 @@ def J_to_idx_slack(J):
     J = cast_to_2d_nparray(J, 'J')
     nrows = J.shape[0]
     ncol = J.shape[1]
-    idx = np.zeros((ncol, ))
-    i_idx = 0
+    idx = np.full((ncol, ), -1.0)
     for i in range(nrows):
         this_idx = np.nonzero(J[i,:])[0]
-        if len(this_idx) == 1:
-            idx[i_idx] = i
-            i_idx = i_idx + 1
-        elif len(this_idx) > 1:
+        if len(this_idx) > 1:
             raise ValueError('J_to_idx_slack: Invalid J matrix. ' \
                 'Found more than one nonzero in row ' + str(i))
         if this_idx.size > 0 and J[i,this_idx[0]] != 1:
             raise ValueError('J_to_idx_slack: J matrices can only contain 1s, ' \
                  'got J(' + str(i) + ', ' + str(this_idx[0]) + ') = ' + str(J[i,this_idx[0]]) )
-    if not i_idx == ncol:
+        if this_idx.size > 0:
+            if idx[this_idx[0]] != -1:
+                raise ValueError('J_to_idx_slack: Invalid J matrix. ' \
+                    'Found more than one nonzero in column ' + str(this_idx[0]))
+            idx[this_idx[0]] = i
+    if np.any(idx == -1):
         raise ValueError('J_to_idx_slack: J must contain a 1 in every column!')
     return idx
 
-- 
2.43.0


From 9506819c45460d5a442b156ea9e4c4e21fc9d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:53 +0000
Subject: [PATCH 003/117] fix: nonlinear constraints: pass the transposed
 Jacobian with respect to z, as the C interface expects

---
 .../acados_template/casadi_function_generation.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/casadi_function_generation.py b/interfaces/acados_template/acados_template/casadi_function_generation.py
index a8093b0..c359a91 100644
--- a/interfaces/acados_template/acados_template/casadi_function_generation.py
+++ b/interfaces/acados_template/acados_template/casadi_function_generation.py
@@ -780,7 +780,7 @@ def generate_c_code_constraint(context: GenerateContext, model: AcadosModel, con
             fun_name = model.name + '_constr_h_fun_jac_uxt_zt'
 
         jac_ux_t = ca.transpose(ca.jacobian(con_h_expr, ca.vertcat(u,x)))
-        jac_z_t = ca.jacobian(con_h_expr, z)
+        jac_z_t = ca.transpose(ca.jacobian(con_h_expr, z))
         context.add_function_definition(fun_name, [x, u, z, p], \
                 [con_h_expr, jac_ux_t, jac_z_t], constraints_dir, 'constr')
 
-- 
2.43.0


From 1ebce0a769c1fa54253c1e1f45e6d77e40d85f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:53 +0000
Subject: [PATCH 004/117] fix: IRK cost integration: weight the residual with
 the transposed Cholesky factor of W

---
 acados/sim/sim_irk_integrator.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acados/sim/sim_irk_integrator.c b/acados/sim/sim_irk_integrator.c
index 91c1794..5ba4616 100644
--- a/acados/sim/sim_irk_integrator.c
+++ b/acados/sim/sim_irk_integrator.c
@@ -1773,8 +1773,8 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                         blasfeo_dtrmm_rlnn(nu+nx, ny, 1.0, mem->W_chol, 0, 0, tmp_nux_ny, 0, 0,
                                         tmp_nux_ny2, 0, 0);
 
-                        // tmp_ny = W_chol * nls_res
-                        blasfeo_dtrmv_lnn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
+                        // tmp_ny = W_chol^T * nls_res
+                        blasfeo_dtrmv_ltn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
                     }
 
                     // cost_grad += b * tmp_ny^T * tmp_ny_nux = b * tmp_ny_nux^T * tmp_ny
@@ -1974,8 +1974,8 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                     blasfeo_dvecmul(ny, mem->W_chol_diag, 0, nls_res, 0, tmp_ny, 0);
                 }
                 else {
-                    // tmp_ny = W_chol * nls_res
-                    blasfeo_dtrmv_lnn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
+                    // tmp_ny = W_chol^T * nls_res
+                    blasfeo_dtrmv_ltn(ny, mem->W_chol, 0, 0, nls_res, 0, tmp_ny, 0);
                 }
 
                 // cost function value
-- 
2.43.0


From c48c591e1699651f43c7f5390340694ccb4afdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:51 +0000
Subject: [PATCH 005/117] fix: external cost with a different initial cost
 type: set the numerical Hessian option only at external stages

---
 .../acados_template/c_templates_tera/acados_solver.in.c      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index bcc0b35..fddfd58 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2932,8 +2932,11 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
 {% endif %}
 
     int ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
+{%- if cost.cost_type_0 == "EXTERNAL" and solver_options.N_horizon > 0 %}
+    ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, 0, "cost_numerical_hessian", &ext_cost_num_hess);
+{%- endif %}
 {%- if cost.cost_type == "EXTERNAL" and solver_options.N_horizon > 0 %}
-    for (int i = 0; i < N; i++)
+    for (int i = 1; i < N; i++)
     {
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "cost_numerical_hessian", &ext_cost_num_hess);
     }
-- 
2.43.0


From 96d0ab5a63bfbcc3ecf0da47a7a48956300f3072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:34 +0000
Subject: [PATCH 006/117] fix: multi-phase solver: set the numerical Hessian
 option only at external stages and always initialize it

---
 .../c_templates_tera/acados_multi_solver.in.c             | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 39e9d60..62edca6 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2716,7 +2716,10 @@ ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "allow_direction_mode_switch_to_no
 
 
     /* Stage varying options */
-    int ext_cost_num_hess;
+    int ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
+{%- if cost[0].cost_type_0 == "EXTERNAL" %}
+    ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, 0, "cost_numerical_hessian", &ext_cost_num_hess);
+{%- endif %}
     bool output_z_val = true;
     bool sens_algebraic_val = true;
     sim_collocation_type collocation_type;
@@ -2789,8 +2792,7 @@ ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "allow_direction_mode_switch_to_no
 {%- endif %}{# mocp_opts.integrator_type[jj] != "DISCRETE" #}
 
 {%- if cost[jj].cost_type == "EXTERNAL" %}
-    ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
-    for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
+    for (int i = {{ cost_start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
     {
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "cost_numerical_hessian", &ext_cost_num_hess);
     }
-- 
2.43.0


From 27fa6875a5e2de2afe8f4c0df4bd7eff73d96278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:46 +0000
Subject: [PATCH 007/117] fix: convex-over-nonlinear constraints with idxs_rev:
 add the multipliers of the slack bounds to the adjoint

---
 acados/ocp_nlp/ocp_nlp_constraints_bgp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
index fec1c56..de2ffe2 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
@@ -1341,9 +1341,9 @@ void ocp_nlp_constraints_bgp_update_qp_matrices(void *config_, void *dims_, void
         {
             blasfeo_dvecex_sp(ns, 1.0, model->idxs, memory->lam, 0, &memory->adj, nu + nx);
             blasfeo_dvecex_sp(ns, 1.0, model->idxs, memory->lam, nb+ng+nphi, &memory->adj, nu+nx+ns);
-            blasfeo_daxpy(2 * ns, 1.0, memory->lam, 2 * nb + 2 * ng + 2 * nphi, &memory->adj, nu + nx,
-                        &memory->adj, nu + nx);
         }
+        blasfeo_daxpy(2 * ns, 1.0, memory->lam, 2 * nb + 2 * ng + 2 * nphi, &memory->adj, nu + nx,
+                    &memory->adj, nu + nx);
     }
 
     if (opts->compute_hess)
-- 
2.43.0


From a9c3a28ad6be286a216294bd1026625e71f1c255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:26 +0000
Subject: [PATCH 008/117] fix: initial guess: place the initial state bounds
 according to idxbx_0

---
 .../c_templates_tera/acados_multi_solver.in.c               | 6 +++---
 .../acados_template/c_templates_tera/acados_solver.in.c     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 62edca6..1aabe7c 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2829,9 +2829,9 @@ void {{ name }}_acados_create_set_nlp_out({{ name }}_solver_capsule* capsule)
     double* x0 = xu0;
 {% if dims_0.nbx_0 == dims_0.nx %}
     // initialize with x0
-    {%- for item in constraints_0.lbx_0 %}
-        {%- if item != 0 %}
-    x0[{{ loop.index0 }}] = {{ item }};
+    {%- for i in range(end=dims_0.nbx_0) %}
+        {%- if constraints_0.lbx_0[i] != 0 %}
+    x0[{{ constraints_0.idxbx_0[i] }}] = {{ constraints_0.lbx_0[i] }};
         {%- endif %}
     {%- endfor %}
 {% else %}
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index fddfd58..bc1db35 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2963,9 +2963,9 @@ void {{ name }}_acados_set_nlp_out({{ name }}_solver_capsule* capsule)
     double* x0 = xu0;
 {% if dims.nbx_0 == dims.nx and solver_options.N_horizon > 0 %}
     // initialize with x0
-    {%- for item in constraints.lbx_0 %}
-        {%- if item != 0 %}
-    x0[{{ loop.index0 }}] = {{ item }};
+    {%- for i in range(end=dims.nbx_0) %}
+        {%- if constraints.lbx_0[i] != 0 %}
+    x0[{{ constraints.idxbx_0[i] }}] = {{ constraints.lbx_0[i] }};
         {%- endif %}
     {%- endfor %}
 {% else %}
-- 
2.43.0


From 281373dfe624c03782dde55a2d57af59d55e0043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 009/117] fix: reject bounds of convex-over-nonlinear
 constraints with inconsistent dimension

---
 interfaces/acados_template/acados_template/acados_ocp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 1402b8d..0d46ce0 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -522,6 +522,9 @@ class AcadosOcp:
             else:
                 dims.nr_0 = casadi_length(model.con_r_expr_0)
 
+        if constraints.uphi_0.shape[0] != dims.nphi_0 or constraints.lphi_0.shape[0] != dims.nphi_0:
+            raise ValueError('inconsistent dimension nphi_0, regarding lphi_0, uphi_0, con_phi_expr_0.')
+
 
     def _make_consistent_constraints_path(self):
         constraints = self.constraints
@@ -582,6 +585,9 @@ class AcadosOcp:
             else:
                 dims.nr = casadi_length(model.con_r_expr)
 
+        if constraints.uphi.shape[0] != dims.nphi or constraints.lphi.shape[0] != dims.nphi:
+            raise ValueError('inconsistent dimension nphi, regarding lphi, uphi, con_phi_expr.')
+
 
     def _make_consistent_constraints_terminal(self):
         dims = self.dims
@@ -620,6 +626,9 @@ class AcadosOcp:
             else:
                 dims.nr_e = casadi_length(model.con_r_expr_e)
 
+        if constraints.uphi_e.shape[0] != dims.nphi_e or constraints.lphi_e.shape[0] != dims.nphi_e:
+            raise ValueError('inconsistent dimension nphi_e, regarding lphi_e, uphi_e, con_phi_expr_e.')
+
 
     def _make_consistent_slacks_rev_initial(self):
         constraints = self.constraints
-- 
2.43.0


From de21e352f1bd83317fb3ac01d8554494581bab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 010/117] fix: reject terminal constraint matrix C_e with wrong
 number of columns

---
 interfaces/acados_template/acados_template/acados_ocp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 0d46ce0..99b8e62 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -608,6 +608,9 @@ class AcadosOcp:
         else:
             dims.ng_e = ng_e
 
+        if ng_e > 0 and constraints.C_e.shape[1] != dims.nx:
+            raise ValueError(f'inconsistent dimension nx, regarding C_e, got C_e.shape[1] = {constraints.C_e.shape[1]}.')
+
         nh_e = 0 if is_empty(model.con_h_expr_e) else casadi_length(model.con_h_expr_e)
 
         if constraints.uh_e.shape[0] != nh_e or constraints.lh_e.shape[0] != nh_e:
-- 
2.43.0


From 77951504055d5c663fe57e50fb56b5b2ec35a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 011/117] fix: reject negative constraint and slack indices

---
 interfaces/acados_template/acados_template/acados_ocp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 99b8e62..5682f9b 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1212,6 +1212,14 @@ class AcadosOcp:
             if opts.nlp_solver_type == "SQP_WITH_FEASIBLE_QP":
                 raise ValueError("idxs_rev formulation is not compatible with SQP_WITH_FEASIBLE_QP yet.")
 
+        # indices are used without further checks in the generated code
+        for idx_name in ['idxbx_0', 'idxbxe_0', 'idxbx', 'idxbu', 'idxbx_e',
+                         'idxsbx', 'idxsbu', 'idxsg', 'idxsh', 'idxsphi', 'idxsh_0', 'idxsphi_0',
+                         'idxsbx_e', 'idxsg_e', 'idxsh_e', 'idxsphi_e']:
+            idx_val = getattr(constraints, idx_name)
+            if any(idx_val < 0):
+                raise ValueError(f'{idx_name} = {idx_val} contains negative values.')
+
         if is_empty(constraints.idxs_rev):
             self._make_consistent_slacks_path()
         else:
-- 
2.43.0


From d6242f3a8a5fd8f69788724faba17620601fecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 012/117] fix: reject time steps that sum up to less than tf

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 5682f9b..6bb41e6 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1031,7 +1031,7 @@ class AcadosOcp:
             opts.time_steps = time_steps
 
         tf = np.sum(opts.time_steps)
-        if (tf - opts.tf) / tf > 1e-13:
+        if abs(tf - opts.tf) / tf > 1e-13:
             raise ValueError(f'Inconsistent discretization: {opts.tf}'
                 f' = tf != sum(opts.time_steps) = {tf}.')
 
-- 
2.43.0


From 209b5fd8deeb234f8fff69f7ccad556be4eba4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 013/117] fix: reject time_steps of wrong length also when
 cost_scaling is given

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 6bb41e6..fb9cbd2 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1012,6 +1012,8 @@ class AcadosOcp:
             opts.shooting_nodes = np.concatenate((np.array([0.]), np.cumsum(opts.time_steps)))
 
         elif not is_empty(opts.time_steps):
+            if np.shape(opts.time_steps)[0] != opts.N_horizon:
+                raise ValueError('inconsistent dimension N, regarding time_steps.')
             # compute shooting nodes from time_steps for convenience
             opts.shooting_nodes = np.concatenate((np.array([0.]), np.cumsum(opts.time_steps)))
 
-- 
2.43.0


From 46ba60e24247fc48899619c5db088ec0b22f7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:43 +0000
Subject: [PATCH 014/117] fix: get_*_cost_expression: subtract yref for
 CONVEX_OVER_NONLINEAR costs

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index fb9cbd2..b908923 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2681,7 +2681,7 @@ class AcadosOcp:
             psi_expr = getattr(self.model, f"cost_psi_expr{suffix}")
             r_in_psi_expr = getattr(self.model, f"cost_r_in_psi_expr{suffix}")
             y_expr = getattr(self.model, f"cost_y_expr{suffix}")
-            cost_dot = ca.substitute(psi_expr, r_in_psi_expr, y_expr)
+            cost_dot = ca.substitute(psi_expr, r_in_psi_expr, y_expr - yref)
 
         else:
             raise ValueError(f"Unknown cost type {cost_type}.")
-- 
2.43.0


From d954578bdf9d1de8baa26653b6c27e45ee9aa5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:01 +0000
Subject: [PATCH 015/117] fix: copy_path_cost_to_stage_0: copy the custom outer
 Hessian as well

---
 interfaces/acados_template/acados_template/acados_ocp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index b908923..f8095fd 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1768,6 +1768,7 @@ class AcadosOcp:
         model.cost_expr_ext_cost_custom_hess_0 = model.cost_expr_ext_cost_custom_hess
         model.cost_psi_expr_0 = model.cost_psi_expr
         model.cost_r_in_psi_expr_0 = model.cost_r_in_psi_expr
+        model.cost_conl_custom_outer_hess_0 = model.cost_conl_custom_outer_hess
         return
 
     def translate_nls_cost_to_conl(self):
-- 
2.43.0


From 6920678612c4ea3568f436b937e0e9aef4b3e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:01 +0000
Subject: [PATCH 016/117] fix: translate_cost_to_external_cost: support MX
 weighting matrices

---
 interfaces/acados_template/acados_template/acados_ocp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index f8095fd..b5f7e5c 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2005,19 +2005,19 @@ class AcadosOcp:
             res += ca.sparsify(Vz) @ z
         res -= yref
 
-        return 0.5 * (res.T @ ca.sparsify(W) @ res)
+        return 0.5 * (res.T @ (W if isinstance(W, ca.MX) else ca.sparsify(W)) @ res)
 
     @staticmethod
     def __translate_nls_cost_to_external_cost(y_expr, yref, W):
         res = y_expr - yref
-        return 0.5 * (res.T @ ca.sparsify(W) @ res)
+        return 0.5 * (res.T @ (W if isinstance(W, ca.MX) else ca.sparsify(W)) @ res)
 
     @staticmethod
     def __get_gn_hessian_expression_from_nls_cost(y_expr, yref, W, x, u):
         res = y_expr - yref
         ux = ca.vertcat(u, x)
         inner_jac = ca.jacobian(res, ux)
-        gn_hess = inner_jac.T @ ca.sparsify(W) @ inner_jac
+        gn_hess = inner_jac.T @ (W if isinstance(W, ca.MX) else ca.sparsify(W)) @ inner_jac
         return gn_hess
 
     @staticmethod
-- 
2.43.0


From 66cc369784729b91ba83f8bf1adc954c7a698377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:01 +0000
Subject: [PATCH 017/117] fix: two-sided Huber penalty: weight is the Hessian
 in the quadratic region, as documented

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index b5f7e5c..d241164 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2200,7 +2200,7 @@ class AcadosOcp:
             center = lower_bound + 0.5 * width
             constr_expr = 2 * (constr_expr - center) / width
             penalty, _, penalty_hess, penalty_hess_xgn = \
-                symmetric_huber_penalty(new_residual, delta=huber_delta, w=weight*width**2, min_hess=min_hess)
+                symmetric_huber_penalty(new_residual, delta=huber_delta, w=weight*(0.5*width)**2, min_hess=min_hess)
 
         elif upper_bound is not None:
             constr_expr -= upper_bound
-- 
2.43.0


From 9bf2876cd42ec2ee58494f9a0620ad1e97314aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:01 +0000
Subject: [PATCH 018/117] fix: cost type detection: zero cost terms get
 matrices of valid shape

---
 interfaces/acados_template/acados_template/acados_ocp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index d241164..251b635 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2457,7 +2457,8 @@ class AcadosOcp:
                 if verbose:
                     print('Cost function is zero -> Reformulating as LINEAR_LS cost.')
                 ny = 0
-                Vx, Vu, Vz, W, y_ref, y = [], [], [], [], [], []
+                Vx, Vu, Vz, W = np.zeros((0, nx)), np.zeros((0, nu)), np.zeros((0, nz)), np.zeros((0, 0))
+                y_ref, y = np.zeros((0,)), []
             else:
                 cost_fun = ca.Function('cost_fun', [x, u, z], [expr_cost])
                 dummy = ca.SX.sym('dummy', 1, 1)
-- 
2.43.0


From bdc020d411a3eaec8eab6d0b9df5ef052b1df014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:43 +0000
Subject: [PATCH 019/117] fix: cost type detection: support MX expressions

---
 .../acados_template/acados_template/acados_ocp.py    | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 251b635..16fd1c5 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2461,13 +2461,14 @@ class AcadosOcp:
                 y_ref, y = np.zeros((0,)), []
             else:
                 cost_fun = ca.Function('cost_fun', [x, u, z], [expr_cost])
-                dummy = ca.SX.sym('dummy', 1, 1)
+                xuz = ca.vertcat(x, u, z)
 
                 if verbose:
                     print('Cost function is quadratic -> Reformulating as LINEAR_LS cost.')
 
-                Hxuz_fun = ca.Function('Hxuz_fun', [dummy], [ca.hessian(expr_cost, ca.vertcat(x, u, z))[0]])
-                H_xuz = np.array(Hxuz_fun(0))
+                # Hessian is constant, since the cost is quadratic
+                H_fun = ca.Function('H_fun', [x, u, z], list(ca.hessian(expr_cost, xuz)))
+                H_xuz, g_xuz = [value.full() for value in H_fun(np.zeros(nx), np.zeros(nu), np.zeros(nz))]
 
                 xuz_idx = []
                 for i in range(nx + nu + nz):
@@ -2503,10 +2504,7 @@ class AcadosOcp:
                     W[i, :] = H_xuz[idx, xuz_idx] / 2
                     i += 1
 
-                xuz = ca.vertcat(x, u, z)
-                y = xuz[xuz_idx]
-                jac_fun = ca.Function('jac_fun', [y], [ca.jacobian(expr_cost, y).T])
-                y_ref = np.linalg.solve(W, -0.5 * np.array(jac_fun(np.zeros((ny, 1)))))
+                y_ref = np.linalg.solve(W, -0.5 * g_xuz[xuz_idx])
 
                 y = -y_ref + Vx @ x + Vu @ u
                 if nz > 0:
-- 
2.43.0


From a7762055e4f6653a8a309031faf8d77171e45855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:43 +0000
Subject: [PATCH 020/117] fix: L2 penalty for initial constraints with EXTERNAL
 cost: do not touch the (unset) reference

---
 .../acados_template/acados_ocp.py               | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 16fd1c5..c5fb41d 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2050,16 +2050,17 @@ class AcadosOcp:
 
         casadi_symbol = self.model.get_casadi_symbol()
 
-        # append zero reference
-        existing_yref = getattr(self.cost, yref_attr)
-        new_ref = np.zeros(1)
-        setattr(self.cost, yref_attr, np.concatenate((existing_yref, new_ref)))
+        cost_type = getattr(self.cost, cost_type_attr)
 
-        # append violation expression to model cost_y_expr
-        existing_cost_y = getattr(self.model, cost_y_expr_attr)
-        setattr(self.model, cost_y_expr_attr, ca.vertcat(existing_cost_y, violation_expr))
+        if cost_type in ["NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"]:
+            # append zero reference
+            existing_yref = getattr(self.cost, yref_attr)
+            new_ref = np.zeros(1)
+            setattr(self.cost, yref_attr, np.concatenate((existing_yref, new_ref)))
 
-        cost_type = getattr(self.cost, cost_type_attr)
+            # append violation expression to model cost_y_expr
+            existing_cost_y = getattr(self.model, cost_y_expr_attr)
+            setattr(self.model, cost_y_expr_attr, ca.vertcat(existing_cost_y, violation_expr))
 
         if cost_type == "NONLINEAR_LS":
             current_W = getattr(self.cost, W_attr)
-- 
2.43.0


From dad737add272cf09e3b6dec984cc79d6404ed9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:43 +0000
Subject: [PATCH 021/117] fix: L2 penalty with CONVEX_OVER_NONLINEAR cost:
 extend the custom outer Hessian

---
 interfaces/acados_template/acados_template/acados_ocp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index c5fb41d..df3d1d7 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2078,6 +2078,12 @@ class AcadosOcp:
             else:
                 setattr(self.model, cost_psi_attr, new_term)
 
+            # extend custom outer Hessian by the new residual, if there is one
+            custom_hess_attr = f'cost_conl_custom_outer_hess{suffix}'
+            current_outer = getattr(self.model, custom_hess_attr)
+            if not is_empty(current_outer):
+                setattr(self.model, custom_hess_attr, ca.diagcat(current_outer, weight))
+
         elif cost_type == "EXTERNAL":
             current_ext_cost = getattr(self.model, cost_ext_attr)
             new_cost_term = .5 * weight * violation_expr**2
-- 
2.43.0


From 885cf6abd4ebcbd767d7e6833d52fade85d10eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:43 +0000
Subject: [PATCH 022/117] fix: Huber penalty: respect min_hess also with
 use_xgn=False

---
 .../acados_template/acados_ocp.py             | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index df3d1d7..2f74c1c 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2192,7 +2192,8 @@ class AcadosOcp:
         yref_attr = f'yref{suffix}'
 
         # switch to custom Hessian start with exact Hessian of previously defined cost
-        if use_xgn and is_empty(getattr(self.model, cost_conl_hess_attr)) and not is_empty(getattr(self.model, cost_psi_attr)):
+        use_custom_hess = use_xgn or min_hess > 0.0
+        if use_custom_hess and is_empty(getattr(self.model, cost_conl_hess_attr)) and not is_empty(getattr(self.model, cost_psi_attr)):
             exact_cost_hess = ca.hessian(getattr(self.model, cost_psi_attr), getattr(self.model, cost_r_attr))[0]
             setattr(self.model, cost_conl_hess_attr, exact_cost_hess)
 
@@ -2236,18 +2237,13 @@ class AcadosOcp:
 
         # add Hessian term to custom outer hessian
         current_outer = getattr(self.model, cost_conl_hess_attr)
-        if use_xgn:
-
-            if is_empty(current_outer):
-                setattr(self.model, cost_conl_hess_attr, penalty_hess_xgn)
-            else:
-                zero_offdiag = casadi_zeros(current_outer.shape[0], penalty_hess_xgn.shape[1])
-                setattr(self.model, cost_conl_hess_attr,
-                        ca.blockcat(current_outer, zero_offdiag, zero_offdiag.T, penalty_hess_xgn))
-        elif not is_empty(current_outer):
-            zero_offdiag = casadi_zeros(current_outer.shape[0], penalty_hess.shape[1])
+        new_outer_hess = penalty_hess_xgn if use_xgn else penalty_hess
+        if not is_empty(current_outer):
+            zero_offdiag = casadi_zeros(current_outer.shape[0], new_outer_hess.shape[1])
             setattr(self.model, cost_conl_hess_attr,
-                    ca.blockcat(current_outer, zero_offdiag, zero_offdiag.T, penalty_hess))
+                    ca.blockcat(current_outer, zero_offdiag, zero_offdiag.T, new_outer_hess))
+        elif use_custom_hess:
+            setattr(self.model, cost_conl_hess_attr, new_outer_hess)
 
 
     def add_linear_constraint(self, C: np.ndarray, D: np.ndarray, lg: np.ndarray, ug: np.ndarray) -> None:
-- 
2.43.0


From f2d560082c9f19e3ff2af55e1954abb4afa761a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:18 +0000
Subject: [PATCH 023/117] fix: cost type detection: require the cost to be
 jointly quadratic in x, u, z

---
 interfaces/acados_template/acados_template/acados_ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 2f74c1c..4a2b5e0 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2452,7 +2452,7 @@ class AcadosOcp:
             print('expr_cost =', expr_cost)
             raise ValueError("Cost type detection requires definition of cost term as CasADi SX or MX.")
 
-        if ca.is_quadratic(expr_cost, x) and ca.is_quadratic(expr_cost, u) and ca.is_quadratic(expr_cost, z) \
+        if ca.is_quadratic(expr_cost, ca.vertcat(x, u, z)) \
                 and not any(ca.which_depends(expr_cost, p)) and not any(ca.which_depends(expr_cost, model.p_global)) \
                 and not any(ca.which_depends(expr_cost, model.t)):
 
@@ -2524,7 +2524,7 @@ class AcadosOcp:
                     val1 = np.array(lls_cost_fun(x0, u0, z0))
                     val2 = np.array(cost_fun(x0, u0, z0))
                     diff_eval = np.abs(val1 - val2)
-                    rel_error = diff_eval / np.maximum(np.abs(val1), np.abs(val2))
+                    rel_error = (diff_eval / np.maximum(np.abs(val1), np.abs(val2))).item()
                     if rel_error > rel_err_tol:
                         print(f'Something went wrong when reformulating with linear least square cost, '
                             f'got relative error {rel_error:.2e}, should be < {rel_err_tol:.2e}')
-- 
2.43.0


From ec56496100882dad21264622fd337218a135dd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:43 +0000
Subject: [PATCH 024/117] fix: cost/constraint evaluator: parameters per stage,
 terminal scaling and slacks, scalar states

---
 .../acados_template/mpc_utils.py              | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index baa353b..f312c4c 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -74,7 +74,7 @@ class AcadosCostConstraintEvaluator:
             raise NotImplementedError(
                 "AcadosCostConstraintEvaluatator: not implemented for models with z.")
 
-        self.__parameter_values = np.tile(ocp.parameter_values, (ocp.dims.np, ocp.dims.N))
+        self.__parameter_values = np.tile(np.reshape(ocp.parameter_values, (-1, 1)), (1, ocp.dims.N+1))
         self.__p_global_values = ocp.p_global_values
 
         self.cost_scaling = ocp.solver_options.cost_scaling
@@ -100,9 +100,9 @@ class AcadosCostConstraintEvaluator:
         )
 
         # constraints
-        bu_expr = model.u[constraints.idxbu]
-        bx_expr = model.x[constraints.idxbx]
-        bx_expr_e = model.x[constraints.idxbx_e]
+        bu_expr = model.u[constraints.idxbu, 0]
+        bx_expr = model.x[constraints.idxbx, 0]
+        bx_expr_e = model.x[constraints.idxbx_e, 0]
 
         if not is_empty(constraints.C):
             g_expr = constraints.C @ model.x + constraints.D @ model.u
@@ -184,11 +184,11 @@ class AcadosCostConstraintEvaluator:
             slack_indices_e
         )
 
-        lower_slack_expression = lower_violation[slack_indices]
-        upper_slack_expression = upper_violation[slack_indices]
+        lower_slack_expression = lower_violation[slack_indices, 0]
+        upper_slack_expression = upper_violation[slack_indices, 0]
 
-        lower_slack_expression_e = lower_violation_e[slack_indices_e]
-        upper_slack_expression_e = upper_violation_e[slack_indices_e]
+        lower_slack_expression_e = lower_violation_e[slack_indices_e, 0]
+        upper_slack_expression_e = upper_violation_e[slack_indices_e, 0]
 
         self.constraint_function = ca.Function(
             'constraint_function',
@@ -221,7 +221,7 @@ class AcadosCostConstraintEvaluator:
         """
         N = self.__ocp.dims.N
         if self.__ocp.dims.np > 0:
-            for i in range(N):
+            for i in range(N+1):
                 self.__parameter_values[:, i] = acados_solver.get(i, 'p')
 
         if acados_solver.save_p_global is False:
@@ -291,7 +291,7 @@ class AcadosCostConstraintEvaluator:
                                      parameter_values,
                                      p_global_values))
         violation_hard_constraints = np.concatenate(
-            (lower_violation[self.nonslacked_indices], upper_violation[self.nonslacked_indices]))
+            (lower_violation[self.nonslacked_indices, 0], upper_violation[self.nonslacked_indices, 0]))
 
         # evaluate cost of soft constraints
         lower_slack_cost, upper_slack_cost = 0.,0.
@@ -337,12 +337,12 @@ class AcadosCostConstraintEvaluator:
         # the cost on the first step is different in the OCP
         # TODO: this is not correct, since the cost on the first step might be different!
         step = 0
-        result = self.evaluate(acados_ocp_iterate.x_traj[0], acados_ocp_iterate.u_traj[0], step=step)
+        result = self.evaluate(acados_ocp_iterate.x_traj[0], acados_ocp_iterate.u_traj[0], step=step, p=p, p_global=p_global)
         cost += result['cost_without_slacks']
         step += 1
 
         for x_traj, u_traj in zip(acados_ocp_iterate.x_traj[1:], acados_ocp_iterate.u_traj[1:]):
-            result = self.evaluate(x_traj, u_traj, step=step)
+            result = self.evaluate(x_traj, u_traj, step=step, p=p, p_global=p_global)
             cost += result['cost']
             step += 1
 
@@ -352,7 +352,7 @@ class AcadosCostConstraintEvaluator:
             parameter_values = parameter_values
 
         cost_fun_args = [acados_ocp_iterate.x_traj[-1], parameter_values, p_global_values]
-        cost += self.terminal_cost_fun(*cost_fun_args).full()
+        cost += self.terminal_cost_fun(*cost_fun_args).full() * self.cost_scaling[-1]
 
         lower_violation_e, upper_violation_e, lower_slack_e, upper_slack_e = (
             self.constraint_function_e(acados_ocp_iterate.x_traj[-1],
@@ -360,28 +360,28 @@ class AcadosCostConstraintEvaluator:
                                        p_global_values))
 
         violation_hard_constraints = np.concatenate(
-            (lower_violation_e[self.nonslacked_indices_e],
-             upper_violation_e[self.nonslacked_indices_e]))
+            (lower_violation_e[self.nonslacked_indices_e, 0],
+             upper_violation_e[self.nonslacked_indices_e, 0]))
 
         # evaluate cost of soft constraints
         lower_slack_cost_e, upper_slack_cost_e = np.array([0.]), np.array([0.])
         if self.__ocp.cost.Zl_e.size > 0:
-            lower_slack_cost_e += 0.5 * lower_slack_e.full().transpose()@self.__ocp.cost.Zl_e @ lower_slack_e.full()
+            lower_slack_cost_e += 0.5 * self.__ocp.cost.Zl_e @ (lower_slack_e.full() * lower_slack_e.full())
 
         if self.__ocp.cost.zl_e.size > 0:
             lower_slack_cost_e += self.__ocp.cost.zl_e @ lower_slack_e.full()
 
 
         if self.__ocp.cost.Zu_e.size > 0:
-            upper_slack_cost_e += 0.5 * upper_slack_e.full().transpose()@self.__ocp.cost.Zu_e @  upper_slack_e.full()
+            upper_slack_cost_e += 0.5 * self.__ocp.cost.Zu_e @ (upper_slack_e.full() * upper_slack_e.full())
 
         if self.__ocp.cost.zu_e.size > 0:
             upper_slack_cost_e += self.__ocp.cost.zu_e @ upper_slack_e.full()
 
         if lower_slack_e.full().size > 0:
-            cost += lower_slack_cost_e
+            cost += lower_slack_cost_e * self.cost_scaling[-1]
         if upper_slack_e.full().size > 0:
-            cost += upper_slack_cost_e
+            cost += upper_slack_cost_e * self.cost_scaling[-1]
 
         return cost[0][0]
 
-- 
2.43.0


From 7b010fffc4a10714351a20f752cbff556e86e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:59 +0000
Subject: [PATCH 025/117] fix: cost state uses the 0.5*Z*s^2 slack penalty of
 the solver

---
 .../acados_template/acados_template/mpc_utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index f312c4c..a64fe2b 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -410,9 +410,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
         lower_violation = ca.fmax(ocp.constraints.lbu[ibu] - model.u[iu], 0)
         upper_violation = ca.fmax(model.u[iu] - ocp.constraints.ubu[ibu], 0)
         cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                    ocp.cost.Zl[i_slack] * lower_violation ** 2
+                    0.5 * ocp.cost.Zl[i_slack] * lower_violation ** 2
         cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                    ocp.cost.Zu[i_slack] * upper_violation ** 2
+                    0.5 * ocp.cost.Zu[i_slack] * upper_violation ** 2
         i_slack += 1
 
     for ibx in ocp.constraints.idxsbx:
@@ -420,9 +420,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
         lower_violation = ca.fmax(ocp.constraints.lbx[ibx] - model.x[ix], 0)
         upper_violation = ca.fmax(model.x[ix] - ocp.constraints.ubx[ibx], 0)
         cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                    ocp.cost.Zl[i_slack] * lower_violation ** 2
+                    0.5 * ocp.cost.Zl[i_slack] * lower_violation ** 2
         cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                    ocp.cost.Zu[i_slack] * upper_violation ** 2
+                    0.5 * ocp.cost.Zu[i_slack] * upper_violation ** 2
         i_slack += 1
 
     if not is_empty(ocp.constraints.C):
@@ -431,9 +431,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
             lower_violation = ca.fmax(ocp.constraints.lg[ig] - g[ig], 0)
             upper_violation = ca.fmax(g[ig] - ocp.constraints.ug[ig], 0)
             cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                        ocp.cost.Zl[i_slack] * lower_violation ** 2
+                        0.5 * ocp.cost.Zl[i_slack] * lower_violation ** 2
             cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                        ocp.cost.Zu[i_slack] * upper_violation ** 2
+                        0.5 * ocp.cost.Zu[i_slack] * upper_violation ** 2
             i_slack += 1
 
     for ih in ocp.constraints.idxsh:
@@ -442,9 +442,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
         upper_violation = ca.fmax(
             ocp.model.con_h_expr[ih] - ocp.constraints.uh[ih], 0)
         cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                    ocp.cost.Zl[i_slack] * lower_violation ** 2
+                    0.5 * ocp.cost.Zl[i_slack] * lower_violation ** 2
         cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                    ocp.cost.Zu[i_slack] * upper_violation ** 2
+                    0.5 * ocp.cost.Zu[i_slack] * upper_violation ** 2
         i_slack += 1
 
     if not is_empty(ocp.constraints.idxsphi):
-- 
2.43.0


From efbc4e36fee2a7591ccafa38bbbbd04b553c32d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:59 +0000
Subject: [PATCH 026/117] fix: detect_constraint_structure handles negative
 coefficients, affine constants and infinite bounds

---
 .../acados_template/mpc_utils.py              | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index a64fe2b..0bda93f 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -37,7 +37,7 @@ from . import AcadosOcpIterate, AcadosOcpSolver
 from .acados_model import AcadosModel
 from .acados_ocp import AcadosOcp, AcadosOcpConstraints
 from .acados_multiphase_ocp import AcadosMultiphaseOcp
-from .utils import casadi_length, is_empty
+from .utils import casadi_length, is_empty, ACADOS_INFTY
 
 
 class AcadosCostConstraintEvaluator:
@@ -529,17 +529,25 @@ def detect_constraint_structure(model: AcadosModel, constraints: AcadosOcpConstr
             print(' ')
         else:  # c is linear in x and u
             Jc_fun = ca.Function('Jc_fun', [x, u], [
-                ca.jacobian(c, ca.vertcat(x, u))])
-            Jc = Jc_fun(0, 0)
+                ca.jacobian(c, ca.vertcat(x, u)), c])
+            Jc, c_const = Jc_fun(0, 0)
+            # move constant part of affine expression to the bounds, infinite bounds stay infinite
+            lb_ii = lb[ii] - float(c_const) if lb[ii] > -ACADOS_INFTY else -np.inf
+            ub_ii = ub[ii] - float(c_const) if ub[ii] < ACADOS_INFTY else np.inf
             if np.sum(Jc != 0) == 1:
                 # c is bound
-                idb = Jc.full().squeeze().nonzero()[0][0]
+                idb = Jc.full().flatten().nonzero()[0][0]
+                coeff = float(Jc[idb])
+                lb_var, ub_var = lb_ii / coeff, ub_ii / coeff
+                if coeff < 0:
+                    lb_var, ub_var = ub_var, lb_var
+                lb_var, ub_var = max(lb_var, -ACADOS_INFTY), min(ub_var, ACADOS_INFTY)
                 if idb < nx:
                     # Bound on x
                     Jbx = ca.vertcat(Jbx, casadi_dm_zeros(1, nx))
                     Jbx[-1, idb] = 1
-                    lbx.append(lb[ii] / Jc[idb])
-                    ubx.append(ub[ii] / Jc[idb])
+                    lbx.append(lb_var)
+                    ubx.append(ub_var)
                     print(f'constraint {ii + 1} is reformulated as bound on x.')
                     print(c)
                     print(' ')
@@ -547,8 +555,8 @@ def detect_constraint_structure(model: AcadosModel, constraints: AcadosOcpConstr
                     # Bound on u
                     Jbu = ca.vertcat(Jbu, casadi_dm_zeros(1, nu))
                     Jbu[-1, idb - nx] = 1
-                    lbu.append(lb[ii] / Jc[idb])
-                    ubu.append(ub[ii] / Jc[idb])
+                    lbu.append(lb_var)
+                    ubu.append(ub_var)
                     print(f'constraint {ii + 1} is reformulated as bound on u.')
                     print(c)
                     print(' ')
@@ -556,8 +564,8 @@ def detect_constraint_structure(model: AcadosModel, constraints: AcadosOcpConstr
                 # c is general linear constraint
                 c_lin = ca.vertcat(c_lin, Jc[:nx])
                 d_lin = ca.vertcat(d_lin, Jc[nx:])
-                lg.append(lb[ii])
-                ug.append(ub[ii])
+                lg.append(max(lb_ii, -ACADOS_INFTY))
+                ug.append(min(ub_ii, ACADOS_INFTY))
                 print(
                     f'constraint {ii + 1} is reformulated as general linear constraint.')
                 print(c)
@@ -565,7 +573,7 @@ def detect_constraint_structure(model: AcadosModel, constraints: AcadosOcpConstr
 
     if stage_type == 'terminal':
         # Checks
-        if any(ca.which_depends(expr_constr, u)) or lbu or (d_lin.size()[0] > 0 and any(d_lin)):
+        if any(ca.which_depends(expr_constr, u)) or lbu or np.any(d_lin.full()):
             raise ValueError(
                 'Terminal constraint may not depend on control input.')
         # h
-- 
2.43.0


From 54dae563e510044c5eca5353e24034b022373c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:59 +0000
Subject: [PATCH 027/117] fix: create_ocp_with_control_horizon covers the full
 horizon and augments all dynamics expressions

---
 .../acados_template/acados_template/mpc_utils.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index 0bda93f..bdde16b 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -717,12 +717,14 @@ def create_ocp_with_control_horizon(ocp: AcadosOcp, Nc: int, Nr: int=None) -> Un
     aug_ocp = deepcopy(ocp)
     aug_ocp.model.x = ca.vertcat(ocp.model.x, ocp.model.u)
     aug_ocp.model.u = ca_symbol('u_aug', 0, 0)
-    if ocp.solver_options.integrator_type == 'ERK':
-        aug_ocp.model.f_expl_expr = ca.vertcat(ocp.model.f_expl_expr, ca.SX.zeros(nu))
-    elif ocp.solver_options.integrator_type == 'IRK':
+    if ocp.solver_options.integrator_type in ['ERK', 'IRK']:
         udot = ca_symbol('udot', nu)
-        aug_ocp.model.xdot = ca.vertcat(ocp.model.xdot, udot)
-        aug_ocp.model.f_impl_expr = ca.vertcat(ocp.model.f_impl_expr, udot)
+        if not is_empty(ocp.model.xdot):
+            aug_ocp.model.xdot = ca.vertcat(ocp.model.xdot, udot)
+        if not is_empty(ocp.model.f_expl_expr):
+            aug_ocp.model.f_expl_expr = ca.vertcat(ocp.model.f_expl_expr, np.zeros((nu, 1)))
+        if not is_empty(ocp.model.f_impl_expr):
+            aug_ocp.model.f_impl_expr = ca.vertcat(ocp.model.f_impl_expr, udot)
     elif ocp.solver_options.integrator_type == 'DISCRETE':
         aug_ocp.model.disc_dyn_expr = ca.vertcat(ocp.model.disc_dyn_expr, ocp.model.u)
     else:
@@ -749,7 +751,7 @@ def create_ocp_with_control_horizon(ocp: AcadosOcp, Nc: int, Nr: int=None) -> Un
         # Missing Ts from transition node needs to be compensated for by additional shooting node in Nr interval effectively promoting one of the Nr-nodes to a Nu-node
         mocp = AcadosMultiphaseOcp(N_list=[1, Nr+1])
         mocp.solver_options = ocp.solver_options
-        mocp.solver_options.time_steps = np.array([0] + (Nr+1) * [Ts*(Np-Nc)/Nr])
+        mocp.solver_options.time_steps = np.array([0, Ts] + Nr * [Ts*(Np-Nc)/Nr])
         mocp.mocp_opts.integrator_type = ['DISCRETE', aug_ocp.solver_options.integrator_type]
 
         trns_model.name = ocp.model.name
@@ -760,7 +762,7 @@ def create_ocp_with_control_horizon(ocp: AcadosOcp, Nc: int, Nr: int=None) -> Un
     else:
         mocp = AcadosMultiphaseOcp(N_list=[Nc-1, 1, Nr+1])
         mocp.solver_options = ocp.solver_options
-        mocp.solver_options.time_steps = np.array((Nc-1) * [Ts] + [0] + (Nr+1) * [Ts*(Np-Nc)/Nr])
+        mocp.solver_options.time_steps = np.array((Nc-1) * [Ts] + [0, Ts] + Nr * [Ts*(Np-Nc)/Nr])
         mocp.mocp_opts.integrator_type = [ocp.solver_options.integrator_type, 'DISCRETE', aug_ocp.solver_options.integrator_type]
 
         mocp.set_phase(ocp, 0)
-- 
2.43.0


From 1278bd7a6be39407b239ca8eacc5c8b87d424566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:59 +0000
Subject: [PATCH 028/117] fix: translate_to_feasibility_problem keeps linear
 constraints

---
 .../acados_template/acados_template/acados_ocp.py      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 4a2b5e0..4d702f1 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2325,6 +2325,10 @@ class AcadosOcp:
             expr_bound_list.append((phi_o_r_expr, constraints.lphi, constraints.uphi))
             # NOTE: for now, we don't exploit convex over nonlinear structure of phi
 
+        if not is_empty(constraints.C):
+            g_expr = constraints.C @ model.x + constraints.D @ model.u
+            expr_bound_list.append((g_expr, constraints.lg, constraints.ug))
+
         for constr_expr, lower_bound, upper_bound in expr_bound_list:
             for i in range(casadi_length(constr_expr)):
                 self.formulate_constraint_as_L2_penalty(constr_expr[i], weight=1.0, upper_bound=upper_bound[i], lower_bound=lower_bound[i])
@@ -2340,6 +2344,9 @@ class AcadosOcp:
             expr_bound_list_e.append((phi_o_r_expr_e, constraints.lphi_e, constraints.uphi_e))
             # NOTE: for now, we don't exploit convex over nonlinear structure of phi
 
+        if not is_empty(constraints.C_e):
+            expr_bound_list_e.append((constraints.C_e @ model.x, constraints.lg_e, constraints.ug_e))
+
         for constr_expr, lower_bound, upper_bound in expr_bound_list_e:
             for i in range(casadi_length(constr_expr)):
                 self.formulate_constraint_as_L2_penalty(constr_expr[i], weight=1.0, upper_bound=upper_bound[i], lower_bound=lower_bound[i], constraint_type="terminal")
@@ -2372,6 +2379,9 @@ class AcadosOcp:
             expr_bound_list_0.append((phi_o_r_expr_0, constraints.lphi_0, constraints.uphi_0))
             # NOTE: for now, we don't exploit convex over nonlinear structure of phi
 
+        if not is_empty(constraints.C):
+            expr_bound_list_0.append((g_expr, constraints.lg, constraints.ug))
+
         for constr_expr, lower_bound, upper_bound in expr_bound_list_0:
             for i in range(casadi_length(constr_expr)):
                 self.formulate_constraint_as_L2_penalty(constr_expr[i], weight=1.0, upper_bound=upper_bound[i], lower_bound=lower_bound[i], constraint_type="initial")
-- 
2.43.0


From bcb83cf80717ce96f0c32c4a17f626df5b4bd4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:59 +0000
Subject: [PATCH 029/117] fix: augment_with_t0_param keeps p_global_values and
 the symbol type

---
 interfaces/acados_template/acados_template/acados_ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 4d702f1..65a65f7 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2425,10 +2425,10 @@ class AcadosOcp:
         # maybe remove this function and model.t0 from acados (and move to benchmark)
         if self.model.t0 is not None:
             raise ValueError("Parameter t0 is already present in the model.")
-        self.model.t0 = ca.SX.sym("t0")
+        casadi_symbol = self.model.get_casadi_symbol()
+        self.model.t0 = casadi_symbol("t0")
         self.model.p = ca.vertcat(self.model.p, self.model.t0)
         self.parameter_values = np.append(self.parameter_values, [0.0])
-        self.p_global_values = np.append(self.p_global_values, [0.0])
         return
 
 
-- 
2.43.0


From 5dfd5f820f20348fa9a120fcb1aa52e280bb85b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:59 +0000
Subject: [PATCH 030/117] fix: reformulate_with_polynomial_control works if
 time is not defined

---
 interfaces/acados_template/acados_template/acados_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_model.py b/interfaces/acados_template/acados_template/acados_model.py
index d295ed9..77bfaab 100644
--- a/interfaces/acados_template/acados_template/acados_model.py
+++ b/interfaces/acados_template/acados_template/acados_model.py
@@ -983,7 +983,7 @@ class AcadosModel():
         casadi_symbol = self.get_casadi_symbol()
 
         # add time to model
-        if self.t == []:
+        if is_empty(self.t):
             self.t = casadi_symbol('t')
 
         t = self.t
-- 
2.43.0


From 10ae5db09b1e9746f3aa70aa53d129b8d9012f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:59 +0000
Subject: [PATCH 031/117] fix: multi-phase solver initializes parameters at the
 terminal node and clears those of previous phases

---
 .../c_templates_tera/acados_multi_solver.in.c                | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 1aabe7c..0ceb393 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -884,6 +884,7 @@ void {{ name }}_acados_create_set_default_parameters({{ name }}_solver_capsule*
     {% if parameter_values_nnz[jj] / phases_dims[jj].np > sparsity_threshold %}
     memcpy(p, p_init_{{ jj }}, NP_{{ jj }}*sizeof(double));
     {%- else %}
+    memset(p, 0, NP_{{ jj }}*sizeof(double));
     {%- for item in parameter_values[jj] %}
         {%- if item != 0 %}
     p[{{ loop.index0 }}] = {{ item }};
@@ -891,7 +892,11 @@ void {{ name }}_acados_create_set_default_parameters({{ name }}_solver_capsule*
     {%- endfor %}
     {%- endif %}
 
+    {%- if jj == n_phases - 1 %}{# last phase includes terminal node #}
+    for (int i = {{ start_idx[jj] }}; i <= {{ end_idx[jj] }}; i++) {
+    {%- else %}
     for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++) {
+    {%- endif %}
         {{ name }}_acados_update_params(capsule, i, p, NP_{{ jj }});
     }
     {%- endif %}{# if phases_dims[jj].np #}
-- 
2.43.0


From da28badccd8ca3169763d0b3d25434a97edddf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:45 +0000
Subject: [PATCH 032/117] fix: path convex-over-nonlinear constraints in
 multi-phase solvers reference the phase's functions

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 0ceb393..9539ef1 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2331,9 +2331,9 @@ void {{ name }}_acados_create_setup_nlp_in({{ name }}_solver_capsule* capsule, i
     for (int i = {{ cost_start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
     {
         i_fun = i - {{ cost_start_idx[jj] }};
-        ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i, "nl_constr_phi_o_r_fun", &capsule->phi_constraint_fun[i_fun]);
+        ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i, "nl_constr_phi_o_r_fun", &capsule->phi_constraint_fun_{{ jj }}[i_fun]);
         ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i,
-                                      "nl_constr_phi_o_r_fun_phi_jac_ux_z_phi_hess_r_jac_ux", &capsule->phi_constraint_fun_jac_hess[i_fun]);
+                                      "nl_constr_phi_o_r_fun_phi_jac_ux_z_phi_hess_r_jac_ux", &capsule->phi_constraint_fun_jac_hess_{{ jj }}[i_fun]);
     }
 {%- endif %}
 {%- endfor %}{# phases loop !#}
-- 
2.43.0


From da6b5b6be8006f3f0e839e557ea8cf6eb6152605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:45 +0000
Subject: [PATCH 033/117] fix: reject multi-phase OCPs whose phase transition
 dimensions do not match

---
 .../acados_template/acados_template/acados_multiphase_ocp.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
index 29b5232..dd8f11f 100644
--- a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
@@ -503,9 +503,9 @@ class AcadosMultiphaseOcp:
         # check for transition consistency
         nx_list = [self.phases_dims[i].nx for i in range(self.n_phases)]
         for i in range(1, self.n_phases):
+            if nx_list[i] != self.phases_dims[i-1].nx_next:
+                raise ValueError(f"detected inconsistent stage transition from phase {i-1} to {i}, nx_next at phase {i-1} = {self.phases_dims[i-1].nx_next} should match nx at phase {i} = {nx_list[i]}.")
             if nx_list[i] != nx_list[i-1]:
-                if self.phases_dims[i].nx != self.phases_dims[i-1].nx_next:
-                    raise ValueError(f"detected stage transition with different nx from phase {i-1} to {i}, nx_next at phase {i-1} = {self.phases_dims[i-1].nx_next} should match nx at phase {i} = {nx_list[i]}.")
                 if self.N_list[i-1] != 1 or self.mocp_opts.integrator_type[i-1] != 'DISCRETE':
                     raise ValueError(f"detected stage transition with different nx from phase {i-1} to {i}, which is only supported for integrator_type='DISCRETE' and N_list[i] == 1.")
 
-- 
2.43.0


From 47fddb8a8048a2d21f827fcd4557c2b5d08fc816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:45 +0000
Subject: [PATCH 034/117] fix: GNSF integrators in multi-phase OCPs

---
 .../acados_template/acados_multiphase_ocp.py                | 2 +-
 .../acados_template/acados_template/acados_ocp_solver.py    | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
index dd8f11f..d0ecf40 100644
--- a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
@@ -576,7 +576,7 @@ class AcadosMultiphaseOcp:
                     if isinstance(item, (AcadosOcpDims, AcadosOcpConstraints, AcadosOcpCost)):
                         ocp_dict[key][i] = format_class_dict(dict(item.__dict__))
                     if isinstance(item, (AcadosModel,)):
-                        ocp_dict[key][i] = item.to_dict()
+                        ocp_dict[key][i] = format_class_dict(item.to_dict())
 
         ocp_dict = format_class_dict(ocp_dict)
 
diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 006d00b..0be8599 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -141,7 +141,11 @@ class AcadosOcpSolver:
         ocp.make_consistent(verbose=verbose)
 
         # module dependent post processing
-        if ocp.solver_options.integrator_type == 'GNSF':
+        if isinstance(ocp, AcadosMultiphaseOcp):
+            for i in range(ocp.n_phases):
+                if ocp.mocp_opts.integrator_type[i] == 'GNSF' and ocp.model[i].gnsf_model is None:
+                    detect_gnsf_structure(ocp.model[i], ocp.phases_dims[i])
+        elif ocp.solver_options.integrator_type == 'GNSF':
             if 'gnsf_model' in ocp.__dict__:
                 raise ValueError("AcadosSim should not have gnsf_model, loading GNSF model functions from json is deprecated.")
             elif ocp.model.gnsf_model is not None:
-- 
2.43.0


From 4f7865a1f9bd0c2a42f11a2182f030207d097a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:13 +0000
Subject: [PATCH 035/117] fix: DDP does not use the feedback matrix at stage 0,
 which is undefined if x0 is eliminated

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 42 ++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index e9349b8..85c8055 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -358,30 +358,34 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
     struct blasfeo_dvec *tmp_vec;
     ocp_qp_xcond_solver_config *xcond_solver_config = config->qp_solver;
 
-    // compute x_0
+    // compute x_0, u_0
+    // NOTE: K is not available at stage 0 if x_0 is eliminated from the QP
     int i = 0;
-    blasfeo_daxpy(nx[i], alpha, qp_out->ux + i, nu[i],
-                out->ux + i, nu[i], out_destination->ux + i, nu[i]);
+    blasfeo_daxpy(nu[i]+nx[i], alpha, qp_out->ux + i, 0,
+                out->ux + i, 0, out_destination->ux + i, 0);
 
     // compute u_i, x_{i+1}
     for (i = 0; i < N; i++)
     {
-        /* step in primal variables */
-        // compute u   // (if i < N?)
-        /* u_i = \bar{u}_i + alpha * k_i + K_i * (x_i - \bar{x}_i) */
-        // get K
-        xcond_solver_config->solver_get(xcond_solver_config, mem->qp_in, qp_out, opts->qp_solver_opts, mem->qp_solver_mem, "K", i, ddp_mem->tmp_nu_times_nx, nu[i], nx[i]);
-        blasfeo_pack_dmat(nu[i], nx[i], ddp_mem->tmp_nu_times_nx, nu[i], &ddp_mem->K_mat, 0, 0);
-
-        // get k = tmp_nv;
-        xcond_solver_config->solver_get(xcond_solver_config, mem->qp_in, qp_out, opts->qp_solver_opts, mem->qp_solver_mem, "k", i, work->tmp_nv_double, nu[i], 1);
-        blasfeo_pack_dvec(nu[i], work->tmp_nv_double, 1, &work->tmp_nv, 0);
-
-        // compute delta_u = alpha * k_i + K_i * (x_i - \bar{x}_i)
-        // tmp_nv[nu:] = (x_i - \bar{x}_i)
-        blasfeo_daxpby(nx[i], -1.0, out->ux+i, nu[i], 1.0, out_destination->ux+i, nu[i], &work->tmp_nv, nu[i]);
-        blasfeo_dgemv_n(nu[i], nx[i], 1.0, &ddp_mem->K_mat, 0, 0, &work->tmp_nv, nu[i], alpha, &work->tmp_nv, 0, &work->tmp_nv, 0);
-        blasfeo_daxpby(nu[i], 1.0, out->ux+i, 0, 1.0, &work->tmp_nv, 0, out_destination->ux+i, 0);
+        if (i > 0)
+        {
+            /* step in primal variables */
+            // compute u   // (if i < N?)
+            /* u_i = \bar{u}_i + alpha * k_i + K_i * (x_i - \bar{x}_i) */
+            // get K
+            xcond_solver_config->solver_get(xcond_solver_config, mem->qp_in, qp_out, opts->qp_solver_opts, mem->qp_solver_mem, "K", i, ddp_mem->tmp_nu_times_nx, nu[i], nx[i]);
+            blasfeo_pack_dmat(nu[i], nx[i], ddp_mem->tmp_nu_times_nx, nu[i], &ddp_mem->K_mat, 0, 0);
+
+            // get k = tmp_nv;
+            xcond_solver_config->solver_get(xcond_solver_config, mem->qp_in, qp_out, opts->qp_solver_opts, mem->qp_solver_mem, "k", i, work->tmp_nv_double, nu[i], 1);
+            blasfeo_pack_dvec(nu[i], work->tmp_nv_double, 1, &work->tmp_nv, 0);
+
+            // compute delta_u = alpha * k_i + K_i * (x_i - \bar{x}_i)
+            // tmp_nv[nu:] = (x_i - \bar{x}_i)
+            blasfeo_daxpby(nx[i], -1.0, out->ux+i, nu[i], 1.0, out_destination->ux+i, nu[i], &work->tmp_nv, nu[i]);
+            blasfeo_dgemv_n(nu[i], nx[i], 1.0, &ddp_mem->K_mat, 0, 0, &work->tmp_nv, nu[i], alpha, &work->tmp_nv, 0, &work->tmp_nv, 0);
+            blasfeo_daxpby(nu[i], 1.0, out->ux+i, 0, 1.0, &work->tmp_nv, 0, out_destination->ux+i, 0);
+        }
 
         // evalutate dynamics
         // x_{i+1} = f_dyn_i(x_i, u_i)
-- 
2.43.0


From 4f08c3b4c314d6b2b421769abca9f9c0471b6307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:22 +0000
Subject: [PATCH 036/117] fix: stale residuals do not decide on termination if
 they are not evaluated at max_iter

---
 acados/ocp_nlp/ocp_nlp_ddp.c                  | 11 +++++++++++
 acados/ocp_nlp/ocp_nlp_sqp.c                  | 18 +++++++++---------
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c | 18 +++++++++---------
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 85c8055..1e31758 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -441,6 +441,17 @@ static bool check_termination(int ddp_iter, ocp_nlp_res *nlp_res, ocp_nlp_ddp_me
 {
     ocp_nlp_memory *nlp_mem = mem->nlp_mem;
     ocp_nlp_opts *nlp_opts = opts->nlp_opts;
+    // check for maximum iterations, if residuals are not evaluated in the last iteration
+    if (!nlp_opts->eval_residual_at_max_iter && ddp_iter >= nlp_opts->max_iter)
+    {
+        nlp_mem->status = ACADOS_MAXITER;
+        if (nlp_opts->print_level > 0)
+        {
+            printf("Stopped: Maximum iterations reached.\n");
+        }
+        return true;
+    }
+
     // check for nans
     if (isnan(nlp_res->inf_norm_res_stat) || isnan(nlp_res->inf_norm_res_eq) ||
             isnan(nlp_res->inf_norm_res_ineq))
diff --git a/acados/ocp_nlp/ocp_nlp_sqp.c b/acados/ocp_nlp/ocp_nlp_sqp.c
index c9bf0fc..18a8810 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp.c
@@ -353,25 +353,25 @@ static bool check_termination(int n_iter, ocp_nlp_dims *dims, ocp_nlp_res *nlp_r
     // ocp_nlp_memory *nlp_mem = mem->nlp_mem;
     ocp_nlp_opts *nlp_opts = opts->nlp_opts;
 
-    // check for nans
-    if (isnan(nlp_res->inf_norm_res_stat) || isnan(nlp_res->inf_norm_res_eq) ||
-        isnan(nlp_res->inf_norm_res_ineq) || isnan(nlp_res->inf_norm_res_comp))
+    // check for maximum iterations, if residuals are not evaluated in the last iteration
+    if (!nlp_opts->eval_residual_at_max_iter && n_iter >= nlp_opts->max_iter)
     {
-        mem->nlp_mem->status = ACADOS_NAN_DETECTED;
+        mem->nlp_mem->status = ACADOS_MAXITER;
         if (nlp_opts->print_level > 0)
         {
-            printf("Stopped: NaN detected in iterate.\n");
+            printf("Stopped: Maximum iterations reached.\n");
         }
         return true;
     }
 
-    // check for maximum iterations
-    if (!nlp_opts->eval_residual_at_max_iter && n_iter >= nlp_opts->max_iter)
+    // check for nans
+    if (isnan(nlp_res->inf_norm_res_stat) || isnan(nlp_res->inf_norm_res_eq) ||
+        isnan(nlp_res->inf_norm_res_ineq) || isnan(nlp_res->inf_norm_res_comp))
     {
-        mem->nlp_mem->status = ACADOS_MAXITER;
+        mem->nlp_mem->status = ACADOS_NAN_DETECTED;
         if (nlp_opts->print_level > 0)
         {
-            printf("Stopped: Maximum iterations reached.\n");
+            printf("Stopped: NaN detected in iterate.\n");
         }
         return true;
     }
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index 297afc8..6de1b63 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -526,25 +526,25 @@ static bool check_termination(int n_iter, ocp_nlp_dims *dims, ocp_nlp_res *nlp_r
 {
     ocp_nlp_opts *nlp_opts = opts->nlp_opts;
 
-    // check for nans
-    if (isnan(nlp_res->inf_norm_res_stat) || isnan(nlp_res->inf_norm_res_eq) ||
-        isnan(nlp_res->inf_norm_res_ineq) || isnan(nlp_res->inf_norm_res_comp))
+    // check for maximum iterations, if residuals are not evaluated in the last iteration
+    if (!nlp_opts->eval_residual_at_max_iter && n_iter >= nlp_opts->max_iter)
     {
-        mem->nlp_mem->status = ACADOS_NAN_DETECTED;
+        mem->nlp_mem->status = ACADOS_MAXITER;
         if (nlp_opts->print_level > 0)
         {
-            printf("Stopped: NaN detected in iterate.\n");
+            printf("Stopped: Maximum iterations Reached.\n");
         }
         return true;
     }
 
-    // check for maximum iterations
-    if (!nlp_opts->eval_residual_at_max_iter && n_iter >= nlp_opts->max_iter)
+    // check for nans
+    if (isnan(nlp_res->inf_norm_res_stat) || isnan(nlp_res->inf_norm_res_eq) ||
+        isnan(nlp_res->inf_norm_res_ineq) || isnan(nlp_res->inf_norm_res_comp))
     {
-        mem->nlp_mem->status = ACADOS_MAXITER;
+        mem->nlp_mem->status = ACADOS_NAN_DETECTED;
         if (nlp_opts->print_level > 0)
         {
-            printf("Stopped: Maximum iterations Reached.\n");
+            printf("Stopped: NaN detected in iterate.\n");
         }
         return true;
     }
-- 
2.43.0


From f97cfe577c2e5eb44d62765d77e82c805165aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 037/117] fix: ERK integrator: Hessian propagation without
 forward sensitivities wrote out of bounds

---
 acados/sim/sim_erk_integrator.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/acados/sim/sim_erk_integrator.c b/acados/sim/sim_erk_integrator.c
index 82a0688..6600bd4 100644
--- a/acados/sim/sim_erk_integrator.c
+++ b/acados/sim/sim_erk_integrator.c
@@ -454,7 +454,7 @@ acados_size_t sim_erk_workspace_calculate_size(void *config_, void *dims_, void
     int nx = dims->nx;
     int nu = dims->nu;
     int nf = opts->num_forw_sens;                  // existing (Sx,Su) cols
-    if (!opts->sens_forw && !opts->sens_forw_p) nf = 0;
+    if (!opts->sens_forw && !opts->sens_forw_p && !opts->sens_hess) nf = 0;
 
     int np   = dims->np;
     int nf_p = opts->sens_forw_p ? np : 0;
@@ -506,7 +506,7 @@ static void *sim_erk_cast_workspace(void *config_, sim_erk_dims *dims, sim_opts
     int nx = dims->nx;
     int nu = dims->nu;
     int nf = opts->num_forw_sens;
-    if (!opts->sens_forw && !opts->sens_forw_p) nf = 0;
+    if (!opts->sens_forw && !opts->sens_forw_p && !opts->sens_hess) nf = 0;
 
     int np   = dims->np;
     int nf_p = opts->sens_forw_p ? np : 0;
@@ -681,7 +681,7 @@ int sim_erk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
     }
 
     int nf = opts->num_forw_sens;
-    if (!opts->sens_forw && !opts->sens_forw_p) nf = 0;
+    if (!opts->sens_forw && !opts->sens_forw_p && !opts->sens_hess) nf = 0;
 
     /* ------------------ parameter-sensitivity (S_p) support ------------------ */
     /* parameter dimension for S_p uses only stagewise np */
@@ -744,7 +744,7 @@ int sim_erk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
     ext_fun_arg_t expl_vde_type_out[3];
     void *expl_vde_out[3];
 
-    if (opts->sens_forw || opts->sens_forw_p)
+    if (opts->sens_forw || opts->sens_forw_p || opts->sens_hess)
     {  // simulation + forward sensitivities
         expl_vde_type_in[0] = COLMAJ;
         expl_vde_in[0] = rhs_forw_in + off_x;   // x: nx
@@ -779,7 +779,7 @@ int sim_erk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
 
     // initialize integrator variables
     for (i = 0; i < nx; i++) forw_traj[off_x + i] = x[i];  // x0
-    if (opts->sens_forw || opts->sens_forw_p)
+    if (opts->sens_forw || opts->sens_forw_p || opts->sens_hess)
     {
         for (i = 0; i < nx * nf; i++) forw_traj[off_Sx + i] = S_forw_in[i];  // sensitivities
     }
@@ -817,7 +817,7 @@ int sim_erk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
             }
 
             acados_tic(&timer_ad);
-            if (opts->sens_forw || opts->sens_forw_p)
+            if (opts->sens_forw || opts->sens_forw_p || opts->sens_hess)
             {  // simulation + forward sensitivities
                 // forward VDE evaluation
                 expl_vde_out[0] = K_traj + s * nX + off_x;   // fun: nx
-- 
2.43.0


From 9988e41507a863ba1ae72d1e374f33b7a5bd8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 038/117] fix: GNSF integrator: changing the simulation time at
 runtime ended the process

---
 acados/sim/sim_gnsf.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 2d31c70..6b189ea 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -2167,6 +2167,15 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
     sim_opts *opts = (sim_opts *) args;
     sim_gnsf_dims *dims = (sim_gnsf_dims *) in->dims;
     gnsf_model *model = in->model;
+
+    // the precomputed quantities depend on the step size, update them if it changed
+    if (mem->dt != in->T / opts->num_steps && !mem->first_call)
+    {
+        int status = sim_gnsf_precompute(config, in, out, args, mem_, work_);
+        if (status != ACADOS_SUCCESS)
+            return status;
+    }
+
     gnsf_workspace *workspace =
         (gnsf_workspace *) sim_gnsf_cast_workspace(config, dims, opts, work_);
 
@@ -2205,13 +2214,6 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
 
     int nxz2 = nx2 + nz2;
 
-    // assert - only use supported features
-    if (mem->dt != in->T / opts->num_steps)
-    {
-        printf("ERROR sim_gnsf: mem->dt n!= in->T/opts->num_steps, check initialization\n");
-        exit(1);
-    }
-
     // assign variables from workspace
     struct blasfeo_dmat *J_r_vv =
         &workspace->J_r_vv;  // store the the jacobian of the residual w.r.t. vv
-- 
2.43.0


From e2b46e7107fdb9f3e3b14af7b822d866ba11c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 039/117] fix: IRK, GNSF: non-finite values of one call were
 kept as initialization of all later calls

---
 acados/sim/sim_gnsf.c           |  7 +++++++
 acados/sim/sim_irk_integrator.c | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 6b189ea..5143536 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -31,6 +31,7 @@
 
 // standard
 #include <assert.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -2853,6 +2854,12 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
             {
                 // store last vv values for next initialization
                 blasfeo_unpack_dvec(n_out, &vv_traj[ss], (num_stages-1) * n_out, mem->phi_guess, 1);
+                // do not initialize later calls with NaNs
+                for (int ii = 0; ii < n_out; ii++)
+                {
+                    if (!isfinite(mem->phi_guess[ii]))
+                        mem->phi_guess[ii] = 0.0;
+                }
             }
         }  // end step loop: ss
 
diff --git a/acados/sim/sim_irk_integrator.c b/acados/sim/sim_irk_integrator.c
index 5ba4616..16f4866 100644
--- a/acados/sim/sim_irk_integrator.c
+++ b/acados/sim/sim_irk_integrator.c
@@ -2049,6 +2049,17 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
             // store last xdot, z values for next initialization
             blasfeo_unpack_dvec(nx, K, (ns-1) * nx, mem->xdot, 1);
             blasfeo_unpack_dvec(nz, K, (ns-1) * nz + ns*nx, mem->z, 1);
+            // do not initialize later calls with NaNs
+            for (int ii = 0; ii < nx; ii++)
+            {
+                if (!isfinite(mem->xdot[ii]))
+                    mem->xdot[ii] = 0.0;
+            }
+            for (int ii = 0; ii < nz; ii++)
+            {
+                if (!isfinite(mem->z[ii]))
+                    mem->z[ii] = 0.0;
+            }
         }
     }  // end step loop (ss)
 
-- 
2.43.0


From 6bb4fc377c97c95409d1681f238694a8147187a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 040/117] fix: AcadosSimSolver: option sim_method_jac_reuse was
 not forwarded to the integrator

---
 .../acados_template/c_templates_tera/acados_sim_solver.in.c   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
index 3614489..0c806e6 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
@@ -349,6 +349,10 @@ int {{ name }}_acados_sim_create({{ name }}_sim_solver_capsule * capsule)
     sim_opts_set({{ name }}_sim_config, {{ name }}_sim_opts, "output_z", &tmp_bool);
     tmp_bool = {{ code_gen_options.sens_forw_p }};
     sim_opts_set({{ name }}_sim_config, {{ name }}_sim_opts, "sens_forw_p", &tmp_bool);
+{%- if solver_options.integrator_type != "ERK" %}
+    tmp_bool = {{ solver_options.sim_method_jac_reuse }};
+    sim_opts_set({{ name }}_sim_config, {{ name }}_sim_opts, "jac_reuse", &tmp_bool);
+{%- endif %}
 
 {% else %} {# num_stages and num_steps of first shooting interval are used #}
     tmp_int = {{ solver_options.sim_method_num_stages[0] }};
-- 
2.43.0


From c11878c522799fccbdb6e89d2cccefde55fc73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 041/117] fix: AcadosSimSolver.set: unknown fields, wrong
 parameter sizes and unsupported guesses ended the process or read out of
 bounds

---
 .../acados_template/acados_sim_solver.py         | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_sim_solver.py b/interfaces/acados_template/acados_template/acados_sim_solver.py
index fc611f6..8bd191c 100644
--- a/interfaces/acados_template/acados_template/acados_sim_solver.py
+++ b/interfaces/acados_template/acados_template/acados_sim_solver.py
@@ -442,6 +442,13 @@ class AcadosSimSolver:
         settable = ['x', 'u', 'p', 'xdot', 'z', 'seed_adj', 'T', 't0'] # S_forw
 
         # TODO: check and throw error here. then remove checks in Cython for speed
+        if field_ not in settable:
+            raise KeyError(f'AcadosSimSolver.set(): Unknown field {field_},'
+                f' available fields are {", ".join(settable)}')
+        if field_ in ['xdot', 'z'] and self.sim.solver_options.integrator_type != 'IRK':
+            raise ValueError(f'AcadosSimSolver.set(): Setting an initial guess for field {field_} is only supported for integrator type IRK,'
+                f' got {self.sim.solver_options.integrator_type}.')
+
         # cast value_ to avoid conversion issues
         if isinstance(value_, (float, int)):
             value_ = np.array([value_])
@@ -454,6 +461,10 @@ class AcadosSimSolver:
 
         # treat parameters separately
         if field_ == 'p':
+            if value_.size != self.sim.dims.np:
+                raise ValueError(f'AcadosSimSolver.set(): mismatching dimension' \
+                    f' for field "p" with dimension {self.sim.dims.np} (you have {value_.shape}).')
+            value_ = np.ravel(value_, order='F')
             value_data = cast(value_.ctypes.data, POINTER(c_double))
             getattr(self.shared_lib, f"{self.sim.name}_acados_sim_update_params")(self.capsule, value_data, value_.shape[0])
             return
@@ -481,11 +492,8 @@ class AcadosSimSolver:
         # set
         if field_ in ['xdot', 'z']:
             self.__acados_lib.sim_solver_set(self.sim_solver, field, value_data_p)
-        elif field_ in settable:
-            self.__acados_lib.sim_in_set(self.sim_config, self.sim_dims, self.sim_in, field, value_data_p)
         else:
-            raise KeyError(f'AcadosSimSolver.set(): Unknown field {field_},'
-                f' available fields are {", ".join(settable)}')
+            self.__acados_lib.sim_in_set(self.sim_config, self.sim_dims, self.sim_in, field, value_data_p)
 
         return
 
-- 
2.43.0


From 6841b1f1164157624b114f9c83d14d5f1b0029de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 042/117] fix: AcadosSim: reject unsupported sens_algebraic,
 check sens_forw_p after merging deprecated options

---
 .../acados_template/acados_template/acados_sim.py      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_sim.py b/interfaces/acados_template/acados_template/acados_sim.py
index ef86479..4e35679 100644
--- a/interfaces/acados_template/acados_template/acados_sim.py
+++ b/interfaces/acados_template/acados_template/acados_sim.py
@@ -481,8 +481,11 @@ class AcadosSim:
         if self.solver_options.T is None:
             raise ValueError('acados_sim.solver_options.T is None, should be provided.')
 
-        if self.code_gen_options.sens_forw_p and self.solver_options.integrator_type not in {'ERK', 'IRK'}:
-            raise ValueError("Option sens_forw_p=True is currently only supported for integrator_type={'ERK','IRK'}.")
+        if self.solver_options.sens_algebraic:
+            if self.solver_options.integrator_type == 'ERK':
+                raise ValueError("Option sens_algebraic=True is not supported for integrator_type='ERK'.")
+            if not self.solver_options.sens_forw and not (self.solver_options.integrator_type == 'IRK' and self.solver_options.sens_hess):
+                raise ValueError("Option sens_algebraic=True requires sens_forw=True.")
 
         if self.solver_options.integrator_type == 'ERK':
             assert not is_empty(self.model.f_expl_expr), "For the ERK integrator, AcadosModel.f_expl_expr should be provided."
@@ -505,6 +508,9 @@ class AcadosSim:
                 else:
                     warnings.warn(f"Option {field} is provided both in solver_options and code_gen_options. Setting {field} in solver_options is deprecated. The value in code_gen_options will be used.")
 
+        if self.code_gen_options.sens_forw_p and self.solver_options.integrator_type not in {'ERK', 'IRK'}:
+            raise ValueError("Option sens_forw_p=True is currently only supported for integrator_type={'ERK','IRK'}.")
+
         self.code_gen_options.generate_hess = self.solver_options.sens_hess
 
         if self.__name is None:
-- 
2.43.0


From 92de59c1acbe66548483fafbbe756214eaadca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 043/117] fix: GNSF structure detection failed for models with
 one state, algebraic variables, trivial or fully linear parts

---
 .../acados_template/acados_template/gnsf.py   | 320 +++++++-----------
 1 file changed, 114 insertions(+), 206 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 9eda0b2..f1432ca 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -579,6 +579,11 @@ class GnsfModel():
 
 
 
+def _select(v, idx):
+    """Components idx of the column vector v; always a column vector, also if idx is empty."""
+    return v[list(idx)] if len(idx) > 0 else ca.SX(0, 1)
+
+
 def check_reformulation(model, gnsf, print_info):
 
     ## Description:
@@ -587,7 +592,7 @@ def check_reformulation(model, gnsf, print_info):
     # if for all points the relative error is <= TOL, the function will return::
     # 1, otherwise it will give an error.
 
-    TOL = 1e-14
+    TOL = 1e-12
     num_eval = 10
 
     # get dimensions
@@ -597,6 +602,7 @@ def check_reformulation(model, gnsf, print_info):
     nx1 = gnsf["nx1"]
     nx2 = gnsf["nx2"]
     nz1 = gnsf["nz1"]
+    nz2 = gnsf["nz2"]
     n_out = gnsf["n_out"]
 
     # get model matrices
@@ -637,7 +643,7 @@ def check_reformulation(model, gnsf, print_info):
     impl_dae_fun = ca.Function("impl_dae_fun", [x, xdot, u, z, p], [model.f_impl_expr])
     phi_fun = ca.Function("phi_fun", [y, uhat, p], [gnsf["phi_expr"]])
     f_lo_fun = ca.Function(
-        "f_lo_fun", [x[range(nx1)], xdot[range(nx1)], z, u, p], [gnsf["f_lo_expr"]]
+        "f_lo_fun", [_select(x, I_x1), _select(xdot, I_x1), _select(z, I_z1), u, p], [gnsf["f_lo_expr"]]
     )
 
     for i_check in range(num_eval):
@@ -668,15 +674,11 @@ def check_reformulation(model, gnsf, print_info):
             C_phi = C @ phi_val
         else:
             C_phi = np.zeros((nx1 + nz1, 1))
-        try:
-            gnsf_val1 = (
-                A @ x0[I_x1] + B @ u0 + C_phi + c - E @ ca.vertcat(x0dot[I_x1], z0[I_z1])
-            )
-            # gnsf_1 = (A @ x[I_x1] + B @ u + C_phi + c - E @ ca.vertcat(xdot[I_x1], z[I_z1]))
-        except:
-            breakpoint()
+        gnsf_val1 = (
+            A @ x0[I_x1] + B @ u0 + C_phi + c - E @ ca.vertcat(x0dot[I_x1], z0[I_z1])
+        )
 
-        if nx2 > 0:  # eval LOS:
+        if nx2 + nz2 > 0:  # eval LOS:
             gnsf_val2 = (
                 A_LO @ x0[I_x2]
                 + B_LO @ u0
@@ -686,25 +688,19 @@ def check_reformulation(model, gnsf, print_info):
             )
             gnsf_val = ca.vertcat(gnsf_val1, gnsf_val2).full()
         else:
-            gnsf_val = gnsf_val1.full()
+            gnsf_val = ca.DM(gnsf_val1).full()
         # compute error and check
-        rel_error = np.linalg.norm(f_impl_val - gnsf_val) / np.linalg.norm(f_impl_val)
+        abs_error = gnsf_val - f_impl_val
+        rel_error = np.linalg.norm(abs_error) / max(1.0, np.linalg.norm(f_impl_val))
 
         if rel_error > TOL:
-            print("transcription failed rel_error > TOL")
-            abs_error = gnsf_val - f_impl_val
-            # T = table(f_impl_val, gnsf_val, abs_error)
-            # print(T)
-            print("abs_error:", abs_error)
-            #         error('transcription failed rel_error > TOL')
-            #         check = 0
-            breakpoint()
+            raise ValueError(f"GNSF transcription failed: rel_error = {rel_error} > TOL = {TOL}, abs_error: {abs_error}")
 
     if print_info:
         print(" ")
         print("model reformulation checked: relative error <= TOL = ", str(TOL))
         print(" ")
-        check = 1
+    check = 1
     ## helpful for debugging:
     # # use in calling function and compare
     # # compare f_impl(i) with gnsf_val1(i)
@@ -783,7 +779,7 @@ def detect_gnsf_structure(model: AcadosModel, dims: Union[AcadosSimDims, AcadosO
     # acados_root_dir = getenv('ACADOS_INSTALL_DIR')
 
     if not is_empty(model.p_global) and ca.depends_on(model.f_impl_expr, model.p_global):
-        NotImplementedError("GNSF does not support global parameters")
+        raise NotImplementedError("GNSF does not support global parameters")
 
     ## Reformulate implicit index-1 DAE into GNSF form
     # (Generalized nonlinear static feedback)
@@ -897,8 +893,8 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
             jac_fii_xi = ca.jacobian(fii, var)
             if jac_fii_xi.is_constant():
                 # jacobian value
-                jac_fii_xi_fun = ca.Function("jac_fii_xi_fun", [x[1]], [jac_fii_xi])
-                # x[1] as input just to have a scalar input and call the function as follows:
+                jac_fii_xi_fun = ca.Function("jac_fii_xi_fun", [x[0]], [jac_fii_xi])
+                # x[0] as input just to have a scalar input and call the function as follows:
                 gnsf["A"][ii, ix] = jac_fii_xi_fun(0).full()
             else:
                 gnsf["A"][ii, ix] = 0
@@ -932,7 +928,7 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
             jac_fii_ui = ca.jacobian(fii, var)
             if jac_fii_ui.is_constant():  # i.e. hessian is structural zero:
                 # jacobian value
-                jac_fii_ui_fun = ca.Function("jac_fii_ui_fun", [x[1]], [jac_fii_ui])
+                jac_fii_ui_fun = ca.Function("jac_fii_ui_fun", [x[0]], [jac_fii_ui])
                 gnsf["B"][ii, iu] = jac_fii_ui_fun(0).full()
             else:
                 gnsf["B"][ii, iu] = 0
@@ -967,7 +963,7 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
             jac_fii_ki = ca.jacobian(fii, var)
             if jac_fii_ki.is_constant():
                 # jacobian value
-                jac_fii_ki_fun = ca.Function("jac_fii_ki_fun", [x[1]], [jac_fii_ki])
+                jac_fii_ki_fun = ca.Function("jac_fii_ki_fun", [x[0]], [jac_fii_ki])
                 gnsf["E"][ii, ik] = -jac_fii_ki_fun(0).full()
             else:
                 gnsf["E"][ii, ik] = 0
@@ -995,7 +991,7 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
         fii = gnsf["phi_expr"][ii]
         if fii.is_constant():
             # function value goes into c
-            fii_fun = ca.Function("fii_fun", [x[1]], [fii])
+            fii_fun = ca.Function("fii_fun", [x[0]], [fii])
             gnsf["c"][ii] = fii_fun(0).full()
         else:
             gnsf["c"][ii] = 0
@@ -1024,7 +1020,7 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
         fii = ca.simplify(fii)
         if not fii.is_zero():
             ind_non_zero = list(set.union(set(ind_non_zero), set([ii])))
-    gnsf["phi_expr"] = gnsf["phi_expr"][ind_non_zero]
+    gnsf["phi_expr"] = _select(gnsf["phi_expr"], ind_non_zero)
 
     # C
     gnsf["C"] = np.zeros((nx + nz, len(ind_non_zero)))
@@ -1078,7 +1074,7 @@ def determine_input_nonlinearity_function(gnsf):
     # Furthermore the dimensions ny, nuhat, n_out are updated
 
     ## y
-    y = ca.SX.sym('y', 0, 0)
+    y = ca.SX(0, 1)
     # components of x1
     for ii in range(gnsf["nx1"]):
         if ca.which_depends(gnsf["phi_expr"], gnsf["x"][ii])[0]:
@@ -1088,7 +1084,6 @@ def determine_input_nonlinearity_function(gnsf):
     # components of x1dot
     for ii in range(gnsf["nx1"]):
         if ca.which_depends(gnsf["phi_expr"], gnsf["xdot"][ii])[0]:
-            print(gnsf["phi_expr"], "depends on", gnsf["xdot"][ii])
             y = ca.vertcat(y, gnsf["xdot"][ii])
         # else:
         # xdot[ii] is not part of y
@@ -1099,7 +1094,7 @@ def determine_input_nonlinearity_function(gnsf):
         # else:
         # z[ii] is not part of y
     ## uhat
-    uhat = ca.SX.sym('uhat', 0, 0)
+    uhat = ca.SX(0, 1)
     # components of u
     for ii in range(gnsf["nu"]):
         if ca.which_depends(gnsf["phi_expr"], gnsf["u"][ii])[0]:
@@ -1108,28 +1103,10 @@ def determine_input_nonlinearity_function(gnsf):
         # u[ii] is not part of uhat
     ## generate gnsf['phi_expr_fun']
     # linear input matrices
-    if is_empty(y):
-        gnsf["L_x"] = []
-        gnsf["L_xdot"] = []
-        gnsf["L_u"] = []
-        gnsf["L_z"] = []
-    else:
-        dummy = ca.SX.sym("dummy_input", 0)
-        L_x_fun = ca.Function(
-            "L_x_fun", [dummy], [ca.jacobian(y, gnsf["x"][range(gnsf["nx1"])])]
-        )
-        L_xdot_fun = ca.Function(
-            "L_xdot_fun", [dummy], [ca.jacobian(y, gnsf["xdot"][range(gnsf["nx1"])])]
-        )
-        L_z_fun = ca.Function(
-            "L_z_fun", [dummy], [ca.jacobian(y, gnsf["z"][range(gnsf["nz1"])])]
-        )
-        L_u_fun = ca.Function("L_u_fun", [dummy], [ca.jacobian(uhat, gnsf["u"])])
-
-        gnsf["L_x"] = L_x_fun(0).full()
-        gnsf["L_xdot"] = L_xdot_fun(0).full()
-        gnsf["L_u"] = L_u_fun(0).full()
-        gnsf["L_z"] = L_z_fun(0).full()
+    gnsf["L_x"] = ca.evalf(ca.jacobian(y, _select(gnsf["x"], range(gnsf["nx1"])))).full()
+    gnsf["L_xdot"] = ca.evalf(ca.jacobian(y, _select(gnsf["xdot"], range(gnsf["nx1"])))).full()
+    gnsf["L_z"] = ca.evalf(ca.jacobian(y, _select(gnsf["z"], range(gnsf["nz1"])))).full()
+    gnsf["L_u"] = ca.evalf(ca.jacobian(uhat, gnsf["u"])).full()
     gnsf["y"] = y
     gnsf["uhat"] = uhat
 
@@ -1166,8 +1143,7 @@ def determine_trivial_gnsf_transcription(model: AcadosModel, dims: Union[AcadosS
     if isinstance(x[0], ca.SX):
         isSX = True
     else:
-        print("GNSF detection only works for SX CasADi type!!!")
-        breakpoint()
+        raise NotImplementedError("GNSF detection only works for SX CasADi type!!!")
     # xdot
     xdot = model.xdot
     # u
@@ -1269,10 +1245,13 @@ def reformulate_with_invertible_E_mat(gnsf, model, print_info):
             np.linalg.matrix_rank(gnsf["E"][np.ix_(ind_22, ind_22)]) != gnsf["nz1"]
         )
 
-    if (
-        np.linalg.matrix_rank(gnsf["E"][np.ix_(ind_11, ind_11)]) != gnsf["nx1"]
-        or z_check
-    ):
+    x_check = False
+    if gnsf["nx1"] > 0:
+        x_check = (
+            np.linalg.matrix_rank(gnsf["E"][np.ix_(ind_11, ind_11)]) != gnsf["nx1"]
+        )
+
+    if x_check or z_check:
         # print warning (always)
         print(f"the rank of E11 or E22 is not full after the reformulation")
         print("")
@@ -1286,59 +1265,39 @@ def reformulate_with_invertible_E_mat(gnsf, model, print_info):
         # # GNSF
         # get dimensions
         nx1 = gnsf["nx1"]
-        x1dot = xdot[range(nx1)]
-
-        k = ca.vertcat(x1dot, z)
-        for i in [1, 2]:
-            if i == 1:
-                ind = range(gnsf["nx1"])
-            else:
-                ind = range(gnsf["nx1"], gnsf["nx1"] + gnsf["nz1"])
-            mat = gnsf["E"][np.ix_(ind, ind)]
-            breakpoint()
-
-            while np.linalg.matrix_rank(mat) < len(ind):
-                # import pdb; pdb.set_trace()
-                if print_info:
-                    print(" ")
-                    print(f"the rank of E", str(i), str(i), " is not full")
-                    print(
-                        f"the algorithm will try to reformulate the model with an invertible matrix instead"
-                    )
-                    print(
-                        f"NOTE: this feature is not super stable and might need more testing!!!!!!"
-                    )
-                for sub_max in ind:
-                    sub_ind = range(min(ind), sub_max)
-                    # regard the submatrix mat(sub_ind, sub_ind)
-                    sub_mat = gnsf["E"][sub_ind, sub_ind]
-                    if np.linalg.matrix_rank(sub_mat) < len(sub_ind):
-                        # reformulate the model by adding a 1 to last diagonal
-                        # element and changing rhs respectively.
-                        gnsf["E"][sub_max, sub_max] = gnsf["E"][sub_max, sub_max] + 1
-                        # this means adding the term 1 * k(sub_max) to the sub_max
-                        # row of the l.h.s
-                        if len(np.nonzero(gnsf["C"][sub_max, :])[0]) == 0:
-                            # if isempty(find(gnsf['C'](sub_max,:), 1)):
-                            # add new nonlinearity entry
-                            gnsf["C"][sub_max, gnsf["n_out"] + 1] = 1
-                            gnsf["phi_expr"] = ca.vertcat(gnsf["phi_expr"], k[sub_max])
-                        else:
-                            ind_f = np.nonzero(gnsf["C"][sub_max, :])[0]
-                            if len(ind_f) != 1:
-                                raise ValueError("C is assumed to be a selection matrix")
-                            else:
-                                ind_f = ind_f[0]
-                            # add term to corresponding nonlinearity entry
-                            # note: herbey we assume that C is a selection matrix,
-                            # i.e. gnsf['phi_expr'](ind_f) is only entering one equation
-
-                            gnsf["phi_expr"][ind_f] = (
-                                gnsf["phi_expr"][ind_f]
-                                + k[sub_max] / gnsf["C"][sub_max, ind_f]
-                            )
-                            gnsf = determine_input_nonlinearity_function(gnsf)
-                            check_reformulation(model, gnsf, print_info)
+        nz1 = gnsf["nz1"]
+
+        k = ca.vertcat(_select(xdot, range(nx1)), _select(z, range(nz1)))
+        for ind in [range(nx1), range(nx1, nx1 + nz1)]:
+            for sub_max in ind:
+                # regard the leading submatrix up to sub_max
+                sub_ind = range(ind[0], sub_max + 1)
+                sub_mat = gnsf["E"][np.ix_(sub_ind, sub_ind)]
+                if np.linalg.matrix_rank(sub_mat) < len(sub_ind) and np.linalg.matrix_rank(gnsf["E"][np.ix_(ind, ind)]) < len(ind):
+                    # reformulate the model by adding a 1 to last diagonal
+                    # element and changing rhs respectively.
+                    gnsf["E"][sub_max, sub_max] = gnsf["E"][sub_max, sub_max] + 1
+                    # this means adding the term 1 * k(sub_max) to the sub_max
+                    # row of the l.h.s
+                    ind_f = np.nonzero(gnsf["C"][sub_max, :])[0]
+                    if len(ind_f) == 0:
+                        # add new nonlinearity entry
+                        new_column = np.zeros((nx1 + nz1, 1))
+                        new_column[sub_max] = 1
+                        gnsf["C"] = np.hstack((gnsf["C"], new_column))
+                        gnsf["phi_expr"] = ca.vertcat(gnsf["phi_expr"], k[sub_max])
+                    else:
+                        if len(ind_f) != 1 or len(np.nonzero(gnsf["C"][:, ind_f[0]])[0]) != 1:
+                            raise ValueError("C is assumed to be a selection matrix")
+                        # add term to corresponding nonlinearity entry
+                        # note: hereby we assume that C is a selection matrix,
+                        # i.e. gnsf['phi_expr'](ind_f) is only entering one equation
+                        ind_f = int(ind_f[0])
+                        phi_expr = ca.SX(gnsf["phi_expr"])
+                        phi_expr[ind_f] = phi_expr[ind_f] + k[sub_max] / gnsf["C"][sub_max, ind_f]
+                        gnsf["phi_expr"] = phi_expr
+                    gnsf = determine_input_nonlinearity_function(gnsf)
+        check_reformulation(model, gnsf, print_info)
         print("successfully reformulated the model with invertible matrices E11, E22")
     else:
         if print_info:
@@ -1444,6 +1403,13 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     unsorted_dyn = set(range(nx + nz))
     xdot_z = ca.vertcat(xdot, z)
 
+    def least_dependent_equation(equations):
+        # the equation with least linear dependencies on I_LOS_candidates
+        I_LOS = sorted(I_LOS_candidates)
+        I_x2_candidates = [i for i in I_LOS if i < nx]
+        return min(sorted(equations), key=lambda eq: np.count_nonzero(
+            [E[eq, i] != 0 or (i in I_x2_candidates and A[eq, i] != 0) for i in I_LOS]))
+
     ## determine components of Linear Output System
     # determine maximal index set I_x2
     # such that the components x(I_x2) can be written as a LOS
@@ -1452,65 +1418,39 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
         ## find equations corresponding to new_nsf_components
         for ii in new_nsf_components:
             current_var = xdot_z[ii]
-            var_name = current_var.name
+            var_name = current_var.name()
 
-            # print( unsorted_dyn)
-            # print("np.nonzero(E[:,ii])[0]",np.nonzero(E[:,ii])[0])
             I_eq = set.intersection(set(np.nonzero(E[:, ii])[0]), unsorted_dyn)
             if len(I_eq) == 1:
                 i_eq = I_eq.pop()
-                if print_info:
-                    print(f"component {i_eq} is associated with state {ii}")
             elif len(I_eq) > 1:  # x_ii_dot occurs in more than 1 eq linearly
-                # find the equation with least linear dependencies on
-                # I_LOS_cancidates
-                number_of_eq = 0
-                candidate_dependencies = np.zeros(len(I_eq), 1)
-                I_x2_candidates = set.intersection(I_LOS_candidates, set(range(nx)))
-                for eq in I_eq:
-                    depending_candidates = set.union(
-                        np.nonzero(E[eq, I_LOS_candidates])[0],
-                        np.nonzero(A[eq, I_x2_candidates])[0],
-                    )
-                    candidate_dependencies[number_of_eq] = +len(depending_candidates)
-                    number_of_eq += 1
-                    number_of_eq = np.argmin(candidate_dependencies)
-                i_eq = I_eq[number_of_eq]
+                i_eq = least_dependent_equation(I_eq)
             else:  ## x_ii_dot does not occur linearly in any of the unsorted dynamics
                 for j in unsorted_dyn:
-                    phi_eq_j = gnsf["phi_expr"][np.nonzero(C[j, :])[0]]
-                    if ca.which_depends(phi_eq_j, xdot_z(ii))[0]:
-                        I_eq = set.union(I_eq, j)
-                if is_empty(I_eq):
+                    phi_eq_j = _select(gnsf["phi_expr"], np.nonzero(gnsf["C"][j, :])[0])
+                    if ca.depends_on(phi_eq_j, current_var):
+                        I_eq.add(j)
+                if len(I_eq) == 0:
                     I_eq = unsorted_dyn
-                # find the equation with least linear dependencies on I_LOS_cancidates
-                number_of_eq = 0
-                candidate_dependencies = np.zeros(len(I_eq), 1)
-                I_x2_candidates = set.intersection(I_LOS_candidates, set(range(nx)))
-                for eq in I_eq:
-                    depending_candidates = set.union(
-                        np.nonzero(E[eq, I_LOS_candidates])[0],
-                        np.nonzero(A[eq, I_x2_candidates])[0],
-                    )
-                    candidate_dependencies[number_of_eq] = +len(depending_candidates)
-                    number_of_eq += 1
-                    number_of_eq = np.argmin(candidate_dependencies)
-                i_eq = I_eq[number_of_eq]
+                i_eq = least_dependent_equation(I_eq)
                 ## add 1 * [xdot,z](ii) to both sides of i_eq
                 if print_info:
                     print(f"adding 1 * {var_name} to both sides of equation {i_eq}.")
                 gnsf["E"][i_eq, ii] = 1
-                i_phi = np.nonzero(gnsf["C"][i_eq, :])
-                if is_empty(i_phi):
-                    i_phi = len(gnsf["phi_expr"]) + 1
-                    gnsf["C"][i_eq, i_phi] = 1  # add column to C with 1 entry
-                    gnsf["phi_expr"] = ca.vertcat(gnsf["phi_expr"], 0)
-                    gnsf["phi_expr"][i_phi] = (
-                        gnsf["phi_expr"](i_phi)
-                        + gnsf["E"][i_eq, ii] / gnsf["C"][i_eq, i_phi] * xdot_z[ii]
-                    )
-                if print_info:
-                    print(f"detected equation {i_eq} to correspond to variable {var_name}")
+                i_phi = np.nonzero(gnsf["C"][i_eq, :])[0]
+                if len(i_phi) == 0:
+                    # add column to C with 1 entry
+                    new_column = np.zeros((nx + nz, 1))
+                    new_column[i_eq] = 1
+                    gnsf["C"] = np.hstack((gnsf["C"], new_column))
+                    gnsf["phi_expr"] = ca.vertcat(gnsf["phi_expr"], current_var)
+                else:
+                    i_phi = int(i_phi[0])
+                    phi_expr = ca.SX(gnsf["phi_expr"])
+                    phi_expr[i_phi] = phi_expr[i_phi] + current_var / gnsf["C"][i_eq, i_phi]
+                    gnsf["phi_expr"] = phi_expr
+            if print_info:
+                print(f"detected equation {i_eq} to correspond to variable {var_name}")
             I_nsf_eq = set.union(I_nsf_eq, {i_eq})
             # remove i_eq from unsorted_dyn
             unsorted_dyn.remove(i_eq)
@@ -1531,22 +1471,11 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
             break
         # remove new_nsf_components from candidates
         I_LOS_candidates = set.difference(I_LOS_candidates, new_nsf_components)
-    if not is_empty(Eq_map):
-        # [~, new_eq_order] = sort(Eq_map(1,:))
-        # I_nsf_eq = Eq_map(2, new_eq_order )
-        for count, m in enumerate(Eq_map):
-            m.append(count)
-        sorted(Eq_map, key=lambda x: x[1])
-        new_eq_order = [m[2] for m in Eq_map]
-        Eq_map = [Eq_map[i] for i in new_eq_order]
-        I_nsf_eq = [m[1] for m in Eq_map]
-
-    else:
-        I_nsf_eq = []
+    # order equations such that they match the order of the components
+    I_nsf_eq = [m[1] for m in sorted(Eq_map)]
 
     I_LOS_components = I_LOS_candidates
     I_LOS_eq = sorted(set.difference(set(range(nx + nz)), I_nsf_eq))
-    I_nsf_eq = sorted(I_nsf_eq)
 
     I_x1 = set.intersection(I_nsf_components, set(range(nx)))
     I_z1 = set.intersection(I_nsf_components, set(range(nx, nx + nz)))
@@ -1560,31 +1489,12 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
         print(f"I_x1 {I_x1}, I_x2 {I_x2}")
 
     ## permute x, xdot
-    if is_empty(I_x1):
-        x1 = []
-        x1dot = []
-    else:
-        x1 = x[list(I_x1)]
-        x1dot = xdot[list(I_x1)]
-    if is_empty(I_x2):
-        x2 = []
-        x2dot = []
-    else:
-        x2 = x[list(I_x2)]
-        x2dot = xdot[list(I_x2)]
-    if is_empty(I_z1):
-        z1 = []
-    else:
-        z1 = z(I_z1)
-    if is_empty(I_z2):
-        z2 = []
-    else:
-        z2 = z[list(I_z2)]
-
     I_x1 = sorted(I_x1)
     I_x2 = sorted(I_x2)
     I_z1 = sorted(I_z1)
     I_z2 = sorted(I_z2)
+    x1, x1dot, z1 = _select(x, I_x1), _select(xdot, I_x1), _select(z, I_z1)
+    x2, x2dot, z2 = _select(x, I_x2), _select(xdot, I_x2), _select(z, I_z2)
     gnsf["xdot"] = ca.vertcat(x1dot, x2dot)
     gnsf["x"] = ca.vertcat(x1, x2)
     gnsf["z"] = ca.vertcat(z1, z2)
@@ -1602,17 +1512,17 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
 
     ## rewrite I_LOS_eq as LOS
     if gnsf["n_out"] == 0:
-        C_phi = np.zeros(gnsf["nx"] + gnsf["nz"], 1)
+        C_phi = ca.SX(gnsf["nx"] + gnsf["nz"], 1)
     else:
         C_phi = C @ phi_old
     if gnsf["nx1"] == 0:
-        Ax1 = np.zeros(gnsf["nx"] + gnsf["nz"], 1)
+        Ax1 = ca.SX(gnsf["nx"] + gnsf["nz"], 1)
     else:
         Ax1 = A[:, sorted(I_x1)] @ x1
     if gnsf["nx1"] + gnsf["nz1"] == 0:
-        lhs_nsf = np.zeros(gnsf["nx"] + gnsf["nz"], 1)
+        lhs_nsf = ca.SX(gnsf["nx"] + gnsf["nz"], 1)
     else:
-        lhs_nsf = E[:, sorted(I_nsf_components)] @ ca.vertcat(x1, z1)
+        lhs_nsf = E[:, sorted(I_nsf_components)] @ ca.vertcat(x1dot, z1)
     n_LO = len(I_LOS_eq)
     B_LO = np.zeros((n_LO, gnsf["nu"]))
     A_LO = np.zeros((gnsf["nx2"] + gnsf["nz2"], gnsf["nx2"]))
@@ -1623,13 +1533,12 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     for eq in I_LOS_eq:
         i_LO = I_LOS_eq.index(eq)
         f_LO = ca.vertcat(f_LO, Ax1[eq] + C_phi[eq] - lhs_nsf[eq])
-        print(f"eq {eq} I_LOS_components {I_LOS_components}, i_LO {i_LO}, f_LO {f_LO}")
         E_LO[i_LO, :] = E[eq, sorted(I_LOS_components)]
         A_LO[i_LO, :] = A[eq, I_x2]
         c_LO[i_LO, :] = c[eq]
         B_LO[i_LO, :] = B[eq, :]
     if casadi_length(f_LO) == 0:
-        f_LO = ca.SX.zeros((gnsf["nx2"] + gnsf["nz2"], 1))
+        f_LO = ca.SX.zeros(gnsf["nx2"] + gnsf["nz2"], 1)
     f_LO = ca.simplify(f_LO)
     gnsf["A_LO"] = A_LO
     gnsf["E_LO"] = E_LO
@@ -1638,20 +1547,19 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     gnsf["f_lo_expr"] = f_LO
 
     ## remove I_LOS_eq from NSF type system
-    gnsf["A"] = gnsf["A"][np.ix_(sorted(I_nsf_eq), sorted(I_x1))]
-    gnsf["B"] = gnsf["B"][sorted(I_nsf_eq), :]
-    gnsf["C"] = gnsf["C"][sorted(I_nsf_eq), :]
-    gnsf["E"] = gnsf["E"][np.ix_(sorted(I_nsf_eq), sorted(I_nsf_components))]
-    gnsf["c"] = gnsf["c"][sorted(I_nsf_eq), :]
+    gnsf["A"] = gnsf["A"][np.ix_(I_nsf_eq, I_x1)]
+    gnsf["B"] = gnsf["B"][I_nsf_eq, :]
+    gnsf["C"] = gnsf["C"][I_nsf_eq, :]
+    gnsf["E"] = gnsf["E"][np.ix_(I_nsf_eq, sorted(I_nsf_components))]
+    gnsf["c"] = gnsf["c"][I_nsf_eq, :]
 
     ## reduce phi, C
     I_nonzero = []
     for ii in range(gnsf["C"].shape[1]):  # n_colums of C:
-        print(f"ii {ii}")
         if not all(gnsf["C"][:, ii] == 0):  # if column ~= 0
             I_nonzero.append(ii)
     gnsf["C"] = gnsf["C"][:, I_nonzero]
-    gnsf["phi_expr"] = gnsf["phi_expr"][I_nonzero]
+    gnsf["phi_expr"] = _select(gnsf["phi_expr"], I_nonzero)
 
     gnsf = determine_input_nonlinearity_function(gnsf)
 
-- 
2.43.0


From 3136ddb396b548a06b0be460404f3a18b3a76eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 044/117] fix: GNSF integrator: adjoint used uninitialized
 linear output system sensitivities

---
 acados/sim/sim_gnsf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 5143536..62ae4f9 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -2916,6 +2916,12 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
                     blasfeo_dtrsm_lunn(nK2, nu, 1.0, M2_LU, 0, 0, dK2_du, 0, 0, dK2_du, 0, 0);
                     out->info->LAtime += acados_toc(&la_timer);
                 }
+                else
+                {
+                    // linear output system is not influenced by x1 and vv
+                    blasfeo_dgese(nK2, nvv, 0.0, dK2_dvv, 0, 0);
+                    blasfeo_dgese(nK2, nx1, 0.0, dK2_dx1, 0, 0);
+                }
 
 
                 /*  SOLVE LINEAR SYSTEMS  */
-- 
2.43.0


From 0b95a87f130a501da25609aa0a2874474e768220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 045/117] fix: GNSF integrator: constant terms and algebraic
 variables of fully linear models were ignored

---
 acados/sim/sim_gnsf.c | 11 +++++++++--
 acados/sim/sim_gnsf.h |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 62ae4f9..dd632e8 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -1161,7 +1161,14 @@ int sim_gnsf_precompute(void *config_, sim_in *in, sim_out *out, void *opts_, vo
 
     // generate sensitivities
     mem->first_call = true;
-    if (model->fully_linear)
+    // the linear map x, u -> xn, z is only available if there is no affine part and the sensitivities are computed
+    mem->use_linear_map = model->fully_linear && opts->sens_forw && (nz == 0 || opts->sens_algebraic);
+    for (int ii = 0; ii < nxz2; ii++)
+    {
+        if (model->c_LO[ii] != 0.0)
+            mem->use_linear_map = false;
+    }
+    if (mem->use_linear_map)
     {
         // set identity seed
         for (int jj = 0; jj < nx * (nx + nu); jj++)
@@ -2343,7 +2350,7 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
     blasfeo_dvecpe(nx, ipiv_x, lambda_old, 0);
 
 
-    if (model->fully_linear && !mem->first_call)
+    if (mem->use_linear_map && !mem->first_call)
     {
         // xf = x_0 + S_forw_x * x0 + S_forw_u * u0;
         blasfeo_dgemv_n(nx, nx, 1.0, S_forw, 0, 0, x0_traj, 0, 0.0,
diff --git a/acados/sim/sim_gnsf.h b/acados/sim/sim_gnsf.h
index facf62f..328e529 100644
--- a/acados/sim/sim_gnsf.h
+++ b/acados/sim/sim_gnsf.h
@@ -243,6 +243,7 @@ typedef struct
 typedef struct
 {
     bool first_call;
+    bool use_linear_map; // indicates if simulation is done with precomputed linear map
 
     // simulation time for one step
     double dt;
-- 
2.43.0


From 593d39f0260f635143f406867886498ba117f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 046/117] fix: GNSF integrator: precomputation used
 uninitialized workspace for models with algebraic variables

---
 acados/sim/sim_gnsf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index dd632e8..b197cff 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -787,6 +787,7 @@ int sim_gnsf_precompute(void *config_, sim_in *in, sim_out *out, void *opts_, vo
     blasfeo_dgese(nK1, nK1, 0.0, &EE1, 0, 0);
     blasfeo_dgese(nZ1, nZ1, 0.0, &EE2, 0, 0);
     blasfeo_dgese(nyy, nK1, 0.0, &LLK, 0, 0);
+    blasfeo_dgese(nyy, nZ1, 0.0, &LLZ, 0, 0);
     blasfeo_dgese(nK2, nK2, 0.0, M2_LU, 0, 0);
 
     blasfeo_pack_dmat(nx1, nx1, model->E, nx1 + nz1, &E11, 0, 0);
-- 
2.43.0


From 78f01f7a9195e3bd3174e91572c25d3751bad5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 047/117] fix: GNSF integrator: wrong matrix was permuted in
 the precomputation for models with algebraic variables

---
 acados/sim/sim_gnsf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index b197cff..7bf22a6 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -952,7 +952,7 @@ int sim_gnsf_precompute(void *config_, sim_in *in, sim_out *out, void *opts_, vo
     blasfeo_dgead(nZ1, nx1, 1.0, &AA2, 0, 0, ZZx, 0, 0);  // ZZx = ZZx + AA2;
 
     // solve QQ1\ZZx and store result in ZZx;
-    blasfeo_drowpe(nZ1, ipivQQ1, ZZu);  // permute also rhs
+    blasfeo_drowpe(nZ1, ipivQQ1, ZZx);  // permute also rhs
     blasfeo_dtrsm_llnu(nZ1, nx1, 1.0, &QQ1, 0, 0, ZZx, 0, 0, ZZx, 0, 0);
     blasfeo_dtrsm_lunn(nZ1, nx1, 1.0, &QQ1, 0, 0, ZZx, 0, 0, ZZx, 0,
                        0);  // ZZx now contains QQ1\ZZx
-- 
2.43.0


From 04b6be17f34d7b158b56f9e695bce96958c30a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 048/117] fix: GNSF integrator: repeated precomputation
 accumulated into the linear output sensitivities

---
 acados/sim/sim_gnsf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 7bf22a6..d0f0d59 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -1024,6 +1024,7 @@ int sim_gnsf_precompute(void *config_, sim_in *in, sim_out *out, void *opts_, vo
         blasfeo_dtrsm_lunn(nK2, nu, 1.0, M2_LU, 0, 0, dK2_du, 0, 0, dK2_du, 0, 0);
 
         // precompute dx2f_dx2u
+        blasfeo_dgese(nx2, nx2 + nu, 0.0, dx2f_dx2u, 0, 0);
         for (int ii = 0; ii < nx2; ii++)
             blasfeo_dgein1(1.0, dx2f_dx2u, ii, ii);
 
-- 
2.43.0


From 29c925e8973ea31eabd050167593c8fbf0c20fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 049/117] fix: AcadosOcpSolver.set('p') with a wrong size ended
 the process

---
 .../acados_template/acados_template/acados_ocp_solver.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 0be8599..3dbad80 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -2025,6 +2025,9 @@ class AcadosOcpSolver:
 
         # treat parameters separately
         if field_ == 'p':
+            np_stage = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, stage_, field)
+            if value_.size != np_stage:
+                raise RuntimeError(f'AcadosOcpSolver.set(): mismatching dimension for field "p" at stage {stage_} with dimension {np_stage} (you have {value_.size})')
             value_data = cast(value_.ctypes.data, POINTER(c_double))
             assert getattr(self.shared_lib, f"{self.ocp.name}_acados_update_params")(self.capsule, stage, value_data, value_.shape[0])==0
         else:
-- 
2.43.0


From 717f6aed1ab0ee97182ea2b4b6eab637a2120b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 050/117] fix: AcadosOcpSolver.set wrote out of bounds for
 interval fields at the terminal stage

---
 .../acados_template/acados_template/acados_ocp_solver.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 3dbad80..f6b312d 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -2014,6 +2014,9 @@ class AcadosOcpSolver:
         elif stage_ < 0 or stage_ > self.N:
             raise ValueError(f'stage should be in [0, N], got {stage_}')
 
+        if stage_ == self.N and field_ in ['pi', 'xdot_guess', 'z_guess']:
+            raise ValueError(f"AcadosOcpSolver.set(): field '{field_}' does not exist at final stage {stage_}.")
+
         # cast value_ to avoid conversion issues
         if isinstance(value_, (float, int)):
             value_ = np.array([value_])
-- 
2.43.0


From 0de2e1f152076375df81d120ae274b226c2c557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 051/117] fix: set_params_sparse corrupted memory for negative
 indices and non-contiguous values

---
 .../acados_template/acados_template/acados_ocp_solver.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index f6b312d..b866835 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -2646,13 +2646,17 @@ class AcadosOcpSolver:
                  f' Got sizes idx {param_values_.shape[0]}, param_values {len(idx_values_)}.')
 
         p_dimension = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, stage_, "p".encode('utf-8'))
-        if any(idx_values_ >= p_dimension):
+        idx_values_ = np.asarray(idx_values_)
+        if np.any(idx_values_ >= p_dimension):
             raise ValueError(f'idx_values_ contains value >= np = {p_dimension} for stage {stage_}.')
+        if np.any(idx_values_ < 0):
+            raise ValueError(f'idx_values_ contains negative value for stage {stage_}.')
 
         stage = c_int(stage_)
         n_update = c_int(len(param_values_))
 
-        param_data = cast(param_values_.ctypes.data, POINTER(c_double))
+        c_param_values = np.ascontiguousarray(param_values_, dtype=np.float64)
+        param_data = cast(c_param_values.ctypes.data, POINTER(c_double))
         c_idx_values = np.ascontiguousarray(idx_values_, dtype=np.intc)
         idx_data = cast(c_idx_values.ctypes.data, POINTER(c_int))
 
-- 
2.43.0


From 23d235dd8c2aef6a4a06cc804308bd528300db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 052/117] fix: AcadosOcpSolver kept and returned references to
 the p_global values

---
 .../acados_template/acados_template/acados_ocp_solver.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index b866835..2bc696e 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -1239,7 +1239,7 @@ class AcadosOcpSolver:
         if field_ == 'p_global':
             if not self.__save_p_global:
                 raise ValueError(f'The field \'{field_}\' is not stored within the solver by default. Please set the option \'save_p_global=True\' when instantiating the solver.')
-            return self.__p_global_values
+            return self.__p_global_values.copy()
 
         field = field_.encode('utf-8')
 
@@ -2686,7 +2686,7 @@ class AcadosOcpSolver:
 
         status = getattr(self.shared_lib, f"{self.ocp.name}_acados_set_p_global_and_precompute_dependencies")(self.capsule, c_data, data_len)
         if self.__save_p_global:
-            self.__p_global_values = data_
+            self.__p_global_values = data.copy()
 
         return status
 
-- 
2.43.0


From 71f4d8dbdb887f4744a310acc6b3017a7a302ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 053/117] fix: cost/constraints set and get of an unavailable
 field ended the process

---
 .../acados_template/acados_ocp_solver.py      | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 2bc696e..73330f8 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -2074,6 +2074,35 @@ class AcadosOcpSolver:
         self.__acados_lib.ocp_nlp_out_set_values_to_zero(self.nlp_config, self.nlp_dims, self.sens_out)
 
 
+    def __check_cost_field(self, stage: int, field: str) -> None:
+        """Raises an error if the cost module at the given stage has no field of this name."""
+        cost, is_first, is_last = self.__get_stage_formulation('cost', stage)
+        cost_type = cost.cost_type_e if is_last else cost.cost_type_0 if is_first and cost.cost_type_0 is not None else cost.cost_type
+        fields = {'LINEAR_LS': ['yref', 'y_ref', 'W', 'Vx', 'Vu', 'Vz'], 'NONLINEAR_LS': ['yref', 'y_ref', 'W'],
+                  'CONVEX_OVER_NONLINEAR': ['yref', 'y_ref'], 'EXTERNAL': ['ext_cost_num_hess']}[cost_type]
+        fields = fields + ['zl', 'zu', 'Zl', 'Zu', 'scaling']
+        if field not in fields:
+            raise ValueError(f"AcadosOcpSolver: cost field '{field}' is not available at stage {stage} with cost type {cost_type}. Possible values are {fields}.")
+
+
+    def __check_constraints_field(self, stage: int, field: str) -> None:
+        """Raises an error if the constraint module at the given stage has no field of this name."""
+        constraints, is_first, is_last = self.__get_stage_formulation('constraints', stage)
+        constr_type = constraints.constr_type_e if is_last else constraints.constr_type_0 if is_first else constraints.constr_type
+        fields = ['lbx', 'ubx', 'lbu', 'ubu', 'lg', 'ug', 'C', 'D'] + (['uphi'] if constr_type == 'BGP' else ['lh', 'uh'])
+        if field not in fields:
+            raise ValueError(f"AcadosOcpSolver: constraints field '{field}' is not available at stage {stage} with constraint type {constr_type}. Possible values are {fields}.")
+
+
+    def __get_stage_formulation(self, module: str, stage: int):
+        """Returns cost or constraints of the formulation used at the given stage, and whether it is the first, the last stage."""
+        formulation = getattr(self.ocp, module)
+        if self.__problem_class == "MOCP":
+            phase = sum(1 for start in self.ocp.start_idx if start <= min(stage, self.N-1)) - 1
+            formulation = formulation[phase]
+        return formulation, stage == 0, stage == self.N
+
+
     def cost_get(self, stage_: int, field_: str) -> np.ndarray:
         """
         Get numerical data in the cost module of the solver.
@@ -2087,6 +2116,8 @@ class AcadosOcpSolver:
         elif stage_ < 0 or stage_ > self.N:
             raise ValueError(f'stage should be in [0, N], got {stage_}')
 
+        self.__check_cost_field(stage_, field_)
+
         field = field_.encode('utf-8')
         stage = c_int(stage_)
 
@@ -2131,6 +2162,8 @@ class AcadosOcpSolver:
         elif stage_ < 0 or stage_ > self.N:
             raise ValueError(f'stage should be in [0, N], got {stage_}')
 
+        self.__check_cost_field(stage_, field_)
+
         value_ = value_.astype(float)
         field = field_.encode('utf-8')
         stage = c_int(stage_)
@@ -2194,6 +2227,8 @@ class AcadosOcpSolver:
         elif stage_ < 0 or stage_ > self.N:
             raise ValueError(f'stage should be in [0, N], got {stage_}')
 
+        self.__check_constraints_field(stage_, field_)
+
         field = field_.encode('utf-8')
         stage = c_int(stage_)
 
@@ -2236,6 +2271,8 @@ class AcadosOcpSolver:
         elif stage_ < 0 or stage_ > self.N:
             raise ValueError(f'stage should be in [0, N], got {stage_}')
 
+        self.__check_constraints_field(stage_, field_)
+
         field = field_.encode('utf-8')
         stage = c_int(stage_)
 
-- 
2.43.0


From 7400fd4f188a1b75c496ebcb67185d77d4b90ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 054/117] fix: get_from_qp_in read out of bounds for invalid
 stages

---
 .../acados_template/acados_template/acados_ocp_solver.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 73330f8..a7abbf5 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -2351,9 +2351,9 @@ class AcadosOcpSolver:
         """
         if not isinstance(stage_, int):
             raise TypeError("stage should be int")
-        if stage_ > self.N:
-            raise ValueError("stage should be <= self.N")
-        if field_ in self.__qp_dynamics_fields and stage_ >= self.N:
+        if stage_ < 0 or stage_ > self.N:
+            raise ValueError("stage should be in [0, self.N]")
+        if field_ in self.__qp_dynamics_fields | self.__relaxed_qp_dynamics_fields and stage_ >= self.N:
             raise ValueError(f"dynamics field {field_} not available at terminal stage")
         if field_ not in self.__all_qp_fields | self.__all_relaxed_qp_fields:
             raise ValueError(f"field {field_} not supported.")
-- 
2.43.0


From 2347e80bdb95bdffe184d0dd4c43174e9cbef599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 055/117] fix: AcadosOcpSolver.reset with numerical values left
 stale p_global values

---
 .../acados_template/acados_template/acados_ocp_solver.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index a7abbf5..87c1273 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -291,7 +291,8 @@ class AcadosOcpSolver:
         # Store a reference to the OCP formulation instead of re-loading its data from json.
         self.__ocp = ocp
         self.__save_p_global = save_p_global
-        self.__p_global_values = ocp.p_global_values if save_p_global else np.array([])
+        self.__initial_p_global_values = np.array(ocp.p_global_values, dtype=np.float64) if save_p_global else np.array([])
+        self.__p_global_values = self.__initial_p_global_values.copy()
 
         if check_reuse_possible and (not generate or not build):
             # Check if existing code can be reused
@@ -669,6 +670,8 @@ class AcadosOcpSolver:
         if reset_x_to_x0_bar and not self.__has_x0:
             raise ValueError('reset_x_to_x0_bar can only be used if there is an initial state constraint!')
         getattr(self.shared_lib, f"{self.ocp.name}_acados_reset")(self.capsule, reset_qp_solver_mem, reset_numerical_values, reset_solver_options, reset_x_to_x0_bar)
+        if reset_numerical_values:
+            self.__p_global_values = self.__initial_p_global_values.copy()
 
 
     def set_new_time_steps(self, new_time_steps):
-- 
2.43.0


From 79c64d7b7b2b14474bc96f66726c345a1e4b2a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 056/117] fix: LIFTED_IRK: reset of the integrator memory kept
 the previous linearization and point

---
 acados/sim/sim_lifted_irk_integrator.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/acados/sim/sim_lifted_irk_integrator.c b/acados/sim/sim_lifted_irk_integrator.c
index 00bdc42..ef8fcf7 100644
--- a/acados/sim/sim_lifted_irk_integrator.c
+++ b/acados/sim/sim_lifted_irk_integrator.c
@@ -474,10 +474,16 @@ int sim_lifted_irk_memory_set_to_zero(void *config_, void * dims_, void *opts_,
 
     int status = ACADOS_SUCCESS;
 
-    int nx;
+    int nx, nu;
     config->dims_get(config_, dims_, "nx", &nx);
+    config->dims_get(config_, dims_, "nu", &nu);
     for (int i = 0; i < opts->num_steps; i++)
+    {
         blasfeo_dvecse(nx * opts->ns, 0.0, &mem->K[i], 0);
+        blasfeo_dgese(nx * opts->ns, nx + nu, 0.0, &mem->JKf[i], 0, 0);
+    }
+    blasfeo_dvecse(nx, 0.0, mem->x, 0);
+    blasfeo_dvecse(nu, 0.0, mem->u, 0);
 
     return status;
 }
-- 
2.43.0


From 5ca0a862e541cba501a28488753adfd051ebf379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 057/117] fix: OSQP: deleting a solver that never solved a QP
 crashed

---
 acados/ocp_qp/ocp_qp_osqp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acados/ocp_qp/ocp_qp_osqp.c b/acados/ocp_qp/ocp_qp_osqp.c
index f264acd..2ff26d3 100644
--- a/acados/ocp_qp/ocp_qp_osqp.c
+++ b/acados/ocp_qp/ocp_qp_osqp.c
@@ -1710,6 +1710,9 @@ static void fill_in_qp_out(const ocp_qp_in *in, ocp_qp_out *out, ocp_qp_osqp_mem
 void ocp_qp_osqp_terminate(void *config_, void *mem_, void *work_)
 {
     ocp_qp_osqp_memory *mem = (ocp_qp_osqp_memory *) mem_;
+    // the linear system solver is created in the first call
+    if (mem->first_run)
+        return;
     OSQPWorkspace *work = mem->osqp_work;
     work->linsys_solver->free(work->linsys_solver);
 }
-- 
2.43.0


From 407ddf357a56b00b1aaf478e0f4b3b895203b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 058/117] fix: globalization_fixed_step_length: reject values
 outside of [0, 1]

---
 .../acados_template/acados_template/acados_ocp_options.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_options.py b/interfaces/acados_template/acados_template/acados_ocp_options.py
index f8bada2..8756bcf 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_options.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_options.py
@@ -583,7 +583,7 @@ class AcadosOcpOptions:
 
     @globalization_fixed_step_length.setter
     def globalization_fixed_step_length(self, globalization_fixed_step_length):
-        if isinstance(globalization_fixed_step_length, float) and globalization_fixed_step_length >= 0 or globalization_fixed_step_length <= 1.0:
+        if isinstance(globalization_fixed_step_length, (float, int)) and 0 <= globalization_fixed_step_length <= 1.0:
             self.__globalization_fixed_step_length = globalization_fixed_step_length
         else:
             raise ValueError('Invalid globalization_fixed_step_length value. globalization_fixed_step_length must be a float in [0, 1].')
-- 
2.43.0


From b69428796cb204be0e1791205ad9097cfcbb87f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 059/117] fix: reject cost_discretization INTEGRATOR with
 integrators that do not implement it instead of exiting in C

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 65a65f7..e721fa7 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1190,6 +1190,8 @@ class AcadosOcp:
             if opts.cost_discretization == 'INTEGRATOR':
                 if any([not supports_cost_integration(cost) for cost in [cost.cost_type_0, cost.cost_type]]):
                     raise ValueError(f'cost_discretization == INTEGRATOR only works with cost in ["NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"] costs, got cost_type_0 {cost.cost_type_0}, cost_type {cost.cost_type}.')
+                if opts.integrator_type != "IRK":
+                    raise ValueError(f'cost_discretization == INTEGRATOR only works with integrator_type IRK, got {opts.integrator_type}.')
                 if opts.nlp_solver_type == "SQP_WITH_FEASIBLE_QP":
                     raise ValueError('cost_discretization == INTEGRATOR is not compatible with SQP_WITH_FEASIBLE_QP yet.')
 
-- 
2.43.0


From 75e7e1217f57540b0be737a5b90d12343ca32b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 060/117] fix: with_solution_sens_wrt_params: warn if the
 forward and adjoint options differ

---
 .../acados_template/acados_template/acados_code_gen_options.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_code_gen_options.py b/interfaces/acados_template/acados_template/acados_code_gen_options.py
index 925ff5a..2084880 100644
--- a/interfaces/acados_template/acados_template/acados_code_gen_options.py
+++ b/interfaces/acados_template/acados_template/acados_code_gen_options.py
@@ -261,7 +261,7 @@ class AcadosCodeGenOptions:
         NOTE: with_solution_sens_wrt_params_forw and with_solution_sens_wrt_params_adj should be used in the future.
         Setting with_solution_sens_wrt_params, sets both options to the same value.
         """
-        if self.__with_solution_sens_wrt_params_forw != self.__with_solution_sens_wrt_params_forw:
+        if self.__with_solution_sens_wrt_params_forw != self.__with_solution_sens_wrt_params_adj:
             warnings.warn(
                 f"with_solution_sens_wrt_params_forw and with_solution_sens_wrt_params_adj have different values, returning with_solution_sens_wrt_params_forw = {self.__with_solution_sens_wrt_params_forw}.",
                 Warning,
-- 
2.43.0


From 632130e06547e449c0ca79ce2d637d66af6faa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:44 +0000
Subject: [PATCH 061/117] fix: code reuse with a tolerance never accepted an
 unchanged formulation

---
 interfaces/acados_template/acados_template/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interfaces/acados_template/acados_template/utils.py b/interfaces/acados_template/acados_template/utils.py
index 5f1f178..f50cc88 100644
--- a/interfaces/acados_template/acados_template/utils.py
+++ b/interfaces/acados_template/acados_template/utils.py
@@ -648,6 +648,7 @@ OCP_COMPARE_IGNORED_FIELD_PATHS = [
     ('external_function_files_model',),
     ('external_function_files_ocp',),
     ('json_loaded',),
+    ('hash',),
     ('dims', 'n_global_data'),
 ]
 
@@ -746,6 +747,13 @@ def _compare_recursive(data_1, data_2, tol_code_reuse, mismatched_fields, path="
     else:
         # numpy arrays and CasADi DM objects for comparison
         try:
+            # empty entries are not loaded from json, None and empty arrays or lists are equivalent
+            empty_1 = data_1 is None or (isinstance(data_1, (list, np.ndarray, DM)) and is_empty(data_1))
+            empty_2 = data_2 is None or (isinstance(data_2, (list, np.ndarray, DM)) and is_empty(data_2))
+            if empty_1 or empty_2:
+                if empty_1 != empty_2:
+                    mismatched_fields.append(path)
+                return
             # Compare numeric arrays with tolerance
             if isinstance(data_1, (np.ndarray, DM)) or isinstance(data_2, (np.ndarray, DM)):
                 # cast DM
-- 
2.43.0


From 78d2700a0b4245b73234dabe5c25b0c7c7f68cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:44 +0000
Subject: [PATCH 062/117] fix: code reuse of multi-phase OCPs with p_global
 never accepted an unchanged formulation

---
 .../acados_template/acados_template/utils.py  | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/interfaces/acados_template/acados_template/utils.py b/interfaces/acados_template/acados_template/utils.py
index f50cc88..6699e82 100644
--- a/interfaces/acados_template/acados_template/utils.py
+++ b/interfaces/acados_template/acados_template/utils.py
@@ -650,6 +650,7 @@ OCP_COMPARE_IGNORED_FIELD_PATHS = [
     ('json_loaded',),
     ('hash',),
     ('dims', 'n_global_data'),
+    ('phases_dims', 'n_global_data'),
 ]
 
 def hash_class_instance(obj) -> str:
@@ -666,14 +667,7 @@ def hash_class_instance(obj) -> str:
 
     global OCP_COMPARE_IGNORED_FIELD_PATHS
     for field_path in OCP_COMPARE_IGNORED_FIELD_PATHS:
-        child = class_dict
-        *path, field_to_remove = field_path
-        for p in path:
-            child = child.get(p)
-            if child is None:
-                break
-        else:
-            child.pop(field_to_remove, None)
+        _remove_field_path(class_dict, field_path)
 
     json_str = json.dumps(class_dict, default=make_object_json_dumpable, sort_keys=True)
     hash_md5 = hashlib.md5(json_str.encode('utf-8')).hexdigest()
@@ -713,13 +707,15 @@ def compare_ocp_formulations(ocp_1, ocp_2, tol_code_reuse):
 
 def _remove_field_path(data, field_path):
     """Remove a nested field given by field_path (a sequence of keys) from data, in place."""
-    child = data
-    *path, field_to_remove = field_path
-    for p in path:
-        child = child.get(p)
-        if child is None:
-            return
-    child.pop(field_to_remove, None)
+    if isinstance(data, (list, tuple)):
+        # e.g. one entry per phase
+        for item in data:
+            _remove_field_path(item, field_path)
+    elif isinstance(data, dict):
+        if len(field_path) == 1:
+            data.pop(field_path[0], None)
+        else:
+            _remove_field_path(data.get(field_path[0]), field_path[1:])
 
 
 def _compare_recursive(data_1, data_2, tol_code_reuse, mismatched_fields, path=""):
-- 
2.43.0


From cd667253cc589ee3b1c174706fed9dbeffbe9a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:44 +0000
Subject: [PATCH 063/117] fix: AcadosOcpConstraints.from_dict: has_x0 was lost

---
 .../acados_template/acados_ocp_constraints.py                | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_constraints.py b/interfaces/acados_template/acados_template/acados_ocp_constraints.py
index 93c208b..ea0f9e7 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_constraints.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_constraints.py
@@ -1269,7 +1269,10 @@ class AcadosOcpConstraints:
             else:
                 try:
                     # check whether value is not the empty list
-                    if not (isinstance(value, list) and not value):
+                    if attr == 'has_x0':
+                        # not settable from outside
+                        constraints.__has_x0 = value
+                    elif not (isinstance(value, list) and not value):
                         setattr(constraints, attr, value)
                 except Exception as e:
                     Exception("Failed to load attribute {attr} from dictionary:\n" + repr(e))
-- 
2.43.0


From 5c81b0d8822808d18de69e15561f8519353e3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:44 +0000
Subject: [PATCH 064/117] fix: AcadosOcpOptions.from_dict: time_steps,
 shooting_nodes and cost_scaling were lost

---
 .../acados_template/acados_template/acados_ocp_options.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_options.py b/interfaces/acados_template/acados_template/acados_ocp_options.py
index 8756bcf..8eb5a2f 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_options.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_options.py
@@ -30,6 +30,7 @@
 
 import os
 import warnings, inspect
+import numpy as np
 
 from deprecated.sphinx import deprecated
 from .utils import check_if_nparray_and_flatten, use_int_or_cast_to_1d_nparray
@@ -2366,6 +2367,8 @@ class AcadosOcpOptions:
                 try:
                     # check whether value is not the empty list
                     if not (isinstance(value, list) and not value):
+                        if attr in ('time_steps', 'shooting_nodes', 'cost_scaling'):
+                            value = np.array(value, dtype=float)
                         setattr(options, attr, value)
                 except Exception as e:
                     ValueError("Failed to load attribute {attr} from dictionary:\n" + repr(e))
-- 
2.43.0


From 82a7450a672c5fe671470c128c89470ace8a53c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:25 +0000
Subject: [PATCH 065/117] fix: AcadosOcpCost.from_dict: formulations without
 residuals in the initial cost could not be used after loading

---
 .../acados_template/acados_template/acados_ocp_cost.py       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_cost.py b/interfaces/acados_template/acados_template/acados_ocp_cost.py
index e4b6afe..f6213f4 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_cost.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_cost.py
@@ -519,6 +519,11 @@ class AcadosOcpCost:
                     # check whether value is not the empty list
                     if not (isinstance(value, list) and not value):
                         setattr(cost, attr, value)
+                    elif attr in ('W_0', 'Vx_0', 'Vu_0', 'Vz_0'):
+                        # initial cost without residuals, the default is None
+                        setattr(cost, attr, np.zeros((0, 0)))
+                    elif attr == 'yref_0':
+                        setattr(cost, attr, np.array([]))
                 except Exception as e:
                     Exception("Failed to load attribute {attr} from dictionary:\n" + repr(e))
 
-- 
2.43.0


From 6ff7eec90c8e4b4c8ac834acb8debb3e6c2b4313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:25 +0000
Subject: [PATCH 066/117] fix: AcadosOcp.from_dict: formulations with a zoRO
 description could not be loaded

---
 .../acados_template/acados_ocp.py             |  4 ++++
 .../acados_template/zoro_description.py       | 20 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index e721fa7..3b5cd41 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2771,6 +2771,10 @@ class AcadosOcp:
                         setattr(ocp, 'simulink_opts', AcadosOcpSimulinkOptions.from_dict(val))
                     elif field == 'ros_opts':
                         setattr(ocp, 'ros_opts', AcadosOcpRosOptions.from_dict(val))
+            elif field == 'zoro_description':
+                val = dict.get(field)
+                if not is_none_or_empty_list(val):
+                    setattr(ocp, 'zoro_description', ZoroDescription.from_dict(val))
             else:
                 setattr(ocp, field, dict.get(field))
 
diff --git a/interfaces/acados_template/acados_template/zoro_description.py b/interfaces/acados_template/acados_template/zoro_description.py
index ac00e71..ce71e0b 100644
--- a/interfaces/acados_template/acados_template/zoro_description.py
+++ b/interfaces/acados_template/acados_template/zoro_description.py
@@ -26,7 +26,7 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.;
 
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, fields
 import numpy as np
 from .acados_dims import AcadosOcpDims
 from .acados_code_gen_options import AcadosCodeGenOptions
@@ -295,3 +295,21 @@ class ZoroDescription:
             i_component += 1
         self.data_size = data_size
         print("\n")
+
+
+    @classmethod
+    def from_dict(cls, zoro_dict: dict) -> 'ZoroDescription':
+        """
+        Load all fields from a given dictionary (obtained from loading a generated json).
+        """
+        description = cls()
+
+        for f in fields(cls):
+            value = zoro_dict.get(f.name)
+            if value is None:
+                continue
+            if f.type is np.ndarray:
+                value = np.array(value)
+            setattr(description, f.name, value)
+
+        return description
-- 
2.43.0


From 6f703a20647f3709ddc0773c349146d050a9906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 067/117] fix: AcadosCasadiOcpSolver: single shooting failed
 with parameters, discrete dynamics and more than one control, and dropped
 bounds on x

---
 .../acados_template/acados_casadi_ocp.py      | 20 +++++++++----------
 .../acados_casadi_ocp_solver.py               | 11 ++--------
 2 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index c903159..c85ebf8 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -111,6 +111,8 @@ class AcadosCasadiOcp:
             raise NotImplementedError("AcadosCasadiOcpSolver does not support slack variables (s)  for general linear and convex-over-nonlinear constraints (g, phi).")
         if dims.nz > 0:
             raise NotImplementedError("AcadosCasadiOcpSolver does not support algebraic variables (z) yet.")
+        if not multiple_shooting and (not constraints.has_x0 or dims.nbx > 0 or dims.nbx_e > 0):
+            raise NotImplementedError("AcadosCasadiOcpSolver with single shooting requires x0 and does not support bounds on x.")
         if with_casados:
             spec = importlib.util.find_spec("casados_integrator")
             if spec is None:
@@ -154,9 +156,7 @@ class AcadosCasadiOcp:
                                                   w_sym_list, lbw_list, ubw_list, w0_list,
                                                   x_guess, constraints, i, dims)
         else: # single_shooting
-            self._x_traj_fun = []
-            xtraj_nodes.append(x_guess)
-            self._x_traj_fun.append(x_guess)
+            xtraj_nodes.append(ca.DM(x_guess))
             for i in range(N_horizon+1):
                 if i < N_horizon:
                     self._create_symbolic_with_bound_and_append('u', ca_symbol, utraj_nodes,
@@ -245,14 +245,8 @@ class AcadosCasadiOcp:
                 if i < N_horizon:
                     utraj_node = utraj_nodes[i] if dims.nu > 0 else ca_symbol('dummy_u', 0, 1)
                     ptraj_node = ptraj_nodes[i][:dims.np] if dims.np > 0 else ca_symbol('dummy_p', 0, 1)
-                    x_current = xtraj_nodes[i]
-                    if solver_options.integrator_type == "DISCRETE":
-                        x_next = self.f_discr_fun(x_current, utraj_node, ptraj_node, model.p_global)
-                    elif solver_options.integrator_type == "ERK":
-                        param = ca.vertcat(utraj_node, ptraj_node, model.p_global)
-                        x_next = self.f_discr_fun(x_current, param, solver_options.time_steps[i])
-                    xtraj_nodes.append(x_next)
-                    self._x_traj_fun.append(self.f_discr_fun)
+                    param = ca.vertcat(ptraj_node, model.p_global, solver_options.time_steps[i])
+                    xtraj_nodes.append(self.__f_discr_fun(xtraj_nodes[i], utraj_node, param))
 
             # Nonlinear Constraints
             constraint_dict = self._get_constraint_node(i, N_horizon, xtraj_nodes, utraj_nodes, ptraj_nodes, model, constraints, dims)
@@ -379,6 +373,10 @@ class AcadosCasadiOcp:
             nlp_hess_l_custom = None
             hess_l = None
 
+        if not multiple_shooting:
+            # x trajectory as function of primal variables and parameters
+            self._x_traj_fun = ca.Function('x_traj_fun', [w, p_nlp], [ca.horzcat(*xtraj_nodes)])
+
         ### Create NLP ###
         nlp = {"x": w, "p": p_nlp, "g": ca.vertcat(*g), "f": nlp_cost}
         bounds = {"lbx": lbw, "ubx": ubw, "lbg": ca.vertcat(*lbg), "ubg": ca.vertcat(*ubg)}
diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
index 8973524..2253130 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
@@ -137,15 +137,8 @@ class AcadosCasadiOcpSolver:
         self.nlp_sol_lam_g = self.nlp_sol['lam_g'].full()
         self.nlp_sol_lam_w = self.nlp_sol['lam_x'].full()
         if not self.multiple_shooting:
-            self.nlp_sol_x = [self.x_traj_fun[0]]
-            for i in range(0, self.ocp.dims.N):
-                x_current = self.nlp_sol_x[i]
-                if self.ocp.solver_options.integrator_type == "DISCRETE":
-                    x_next = self.x_traj_fun[i+1](x_current, self.nlp_sol_w[i], self.ocp.parameter_values, self.ocp.p_global_values)
-                elif self.ocp.solver_options.integrator_type == "ERK":
-                    param = np.concatenate([self.nlp_sol_w[i], self.ocp.parameter_values, self.ocp.p_global_values])
-                    x_next = self.x_traj_fun[i+1](x_current, param, self.ocp.solver_options.time_steps[i])
-                self.nlp_sol_x.append(x_next.full())
+            x_traj = self.x_traj_fun(self.nlp_sol_w, self.p).full()
+            self.nlp_sol_x = [x_traj[:, i] for i in range(self.ocp.dims.N+1)]
 
         # statistics
         solver_stats = self.casadi_solver.stats()
-- 
2.43.0


From dd33e696b04fa09901eeb16d0d2cd4668bef8e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 068/117] fix: AcadosCasadiOcpSolver.cost_get always raised a
 TypeError

---
 .../acados_template/acados_casadi_ocp_solver.py     | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
index 2253130..009310b 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
@@ -449,19 +449,20 @@ class AcadosCasadiOcpSolver:
         self.p[index] = param_values_.flatten()
 
     def cost_get(self, stage_: int, field_: str) -> np.ndarray:
-        cost_dict = self.acados_casadi_ocp._get_cost_node(stage_)
+        cost = self.ocp.cost
+        suffix = '_0' if stage_ == 0 else '_e' if stage_ == self.ocp.solver_options.N_horizon else ''
         if field_ == 'yref':
             return self.p[self.index_map['yref_in_p_nlp'][stage_]].flatten()
         elif field_ == 'W':
-            return cost_dict['W_mat']
+            return getattr(cost, f'W{suffix}')
         elif field_ == 'Zl':
-            return cost_dict['Zl']
+            return getattr(cost, f'Zl{suffix}')
         elif field_ == 'Zu':
-            return cost_dict['Zu']
+            return getattr(cost, f'Zu{suffix}')
         elif field_ == 'zl':
-            return cost_dict['zl']
+            return getattr(cost, f'zl{suffix}')
         elif field_ == 'zu':
-            return cost_dict['zu']
+            return getattr(cost, f'zu{suffix}')
         else:
             raise NotImplementedError(f"Field '{field_}' is not yet implemented in cost_get().")
 
-- 
2.43.0


From 5a86ec4a37371faf802fedfe8a38495b54b23437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 069/117] fix: AcadosCasadiOcpSolver: flat multipliers of
 formulations with slacks could not be set

---
 .../acados_template/acados_casadi_ocp_solver.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
index 009310b..7b5329d 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
@@ -273,11 +273,11 @@ class AcadosCasadiOcpSolver:
             offset = 0
             for i in range(dims.N+1):
                 if i == 0:
-                    n_lam_i = 2 * (dims.nbx_0 + dims.nbu + dims.ng + dims.nh_0 + dims.nphi_0)
+                    n_lam_i = 2 * (dims.nbx_0 + dims.nbu + dims.ng + dims.nh_0 + dims.nphi_0 + dims.ns_0)
                 elif i < dims.N:
-                    n_lam_i = 2 * (dims.nbx + dims.nbu + dims.ng + dims.nh + dims.nphi)
+                    n_lam_i = 2 * (dims.nbx + dims.nbu + dims.ng + dims.nh + dims.nphi + dims.ns)
                 elif i == dims.N:
-                    n_lam_i = 2 * (dims.nbx_e + dims.ng_e + dims.nh_e + dims.nphi_e)
+                    n_lam_i = 2 * (dims.nbx_e + dims.ng_e + dims.nh_e + dims.nphi_e + dims.ns_e)
                 self.set(i, 'lam', value_[offset : offset + n_lam_i])
                 offset += n_lam_i
         elif field_ in ['sl', 'su']:
-- 
2.43.0


From 86d0d7a548b22de7c734d9ea055742d3b5b71f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 070/117] fix: AcadosCasadiOcp: lower bounds of the slacks were
 ignored

---
 .../acados_template/acados_template/acados_casadi_ocp.py  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index c85ebf8..d6fa78c 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -429,7 +429,6 @@ class AcadosCasadiOcp:
             self._index_map['u_in_w'].append(list(range(self.offset_w, self.offset_w + nu)))
             self.offset_w += nu
         elif _field == 'sl':
-            # TODO: specify different bounds for lsbu, lsbx, lsg, lsh ,lsphi
             lbsl, ubsl = self._set_bounds_indices('sl', i, constraints, dims)
             lbw_list.append(lbsl)
             ubw_list.append(ubsl)
@@ -490,6 +489,7 @@ class AcadosCasadiOcp:
             lbu = constraints.lbu
             ubu = constraints.ubu
             ns = dims.ns_0
+            lbsl, lbsu = constraints.lsh_0, constraints.ush_0
         elif i < dims.N:
             idxbx = constraints.idxbx
             idxbu = constraints.idxbu
@@ -498,11 +498,13 @@ class AcadosCasadiOcp:
             lbu = constraints.lbu
             ubu = constraints.ubu
             ns = dims.ns
+            lbsl, lbsu = constraints.lsh, constraints.ush
         elif i == dims.N:
             idxbx = constraints.idxbx_e
             lbx = constraints.lbx_e
             ubx = constraints.ubx_e
             ns = dims.ns_e
+            lbsl, lbsu = constraints.lsh_e, constraints.ush_e
 
         if _field == 'x':
             lb_default = -np.inf * ca.DM.ones((dims.nx, 1))
@@ -519,12 +521,12 @@ class AcadosCasadiOcp:
             self._index_map['lam_bu_in_lam_w'].append(list(self.offset_lam + idxbu))
             self.offset_lam += dims.nu
         elif _field == 'sl':
-            lb_default = 0 * ca.DM.ones((ns, 1))
+            lb_default = ca.DM(lbsl.reshape((ns, 1)))
             ub_default = np.inf * ca.DM.ones((ns, 1))
             self._index_map['lam_sl_h_in_lam_w'].append(list(self.offset_lam + np.arange(ns)))
             self.offset_lam += ns
         elif _field == 'su':
-            lb_default = 0 * ca.DM.ones((ns, 1))
+            lb_default = ca.DM(lbsu.reshape((ns, 1)))
             ub_default = np.inf * ca.DM.ones((ns, 1))
             self._index_map['lam_su_h_in_lam_w'].append(list(self.offset_lam + np.arange(ns)))
             self.offset_lam += ns
-- 
2.43.0


From 513ef34f5145a0cac517c07a50260ad84e058cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 071/117] fix: AcadosCasadiOcp: softening via idxs_rev and of
 initial convex-over-nonlinear constraints was dropped silently

---
 .../acados_template/acados_template/acados_casadi_ocp.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index d6fa78c..58c4ce9 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -107,8 +107,10 @@ class AcadosCasadiOcp:
         # check what is not supported yet
         if any([dims.nsbx, dims.nsbx_e, dims.nsbu]):
             raise NotImplementedError("AcadosCasadiOcpSolver does not support slack variables (s) for variables (x and u) yet.")
-        if any([dims.nsg, dims.nsg_e, dims.nsphi, dims.nsphi_e]):
+        if any([dims.nsg, dims.nsg_e, dims.nsphi_0, dims.nsphi, dims.nsphi_e]):
             raise NotImplementedError("AcadosCasadiOcpSolver does not support slack variables (s)  for general linear and convex-over-nonlinear constraints (g, phi).")
+        if (dims.ns_0, dims.ns, dims.ns_e) != (dims.nsh_0, dims.nsh, dims.nsh_e):
+            raise NotImplementedError("AcadosCasadiOcpSolver does not support the idxs_rev formulation of slacks yet.")
         if dims.nz > 0:
             raise NotImplementedError("AcadosCasadiOcpSolver does not support algebraic variables (z) yet.")
         if not multiple_shooting and (not constraints.has_x0 or dims.nbx > 0 or dims.nbx_e > 0):
-- 
2.43.0


From 5f007f506da076621f6e3a2ceca1598d71efb7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 072/117] fix: AcadosCasadiOcp: numbers of integration steps of
 the first stage were used on all stages

---
 .../acados_template/acados_casadi_ocp.py         | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index 58c4ce9..79b96db 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -197,13 +197,15 @@ class AcadosCasadiOcp:
         param = ca.vertcat(model.p, model.p_global, dt)
         if not with_casados:
             if solver_options.integrator_type == "DISCRETE":
-                self.__f_discr_fun = ca.Function('f_discr_fun', [model.x, model.u, param], [model.disc_dyn_expr])
+                f_discr_funs = [ca.Function('f_discr_fun', [model.x, model.u, param], [model.disc_dyn_expr])] * N_horizon
             elif solver_options.integrator_type == "ERK":
                 param_base = ca.vertcat(model.p, model.p_global)
                 u_p_combined = ca.vertcat(model.u, param_base)
                 ca_expl_ode = ca.Function('ca_expl_ode', [model.x, u_p_combined], [model.f_expl_expr])
-                rk_fun = ca.simpleRK(ca_expl_ode, solver_options.sim_method_num_steps[0], solver_options.sim_method_num_stages[0])
-                self.__f_discr_fun = ca.Function('f_discr_fun', [model.x, model.u, param], [rk_fun(model.x, u_p_combined, dt)])
+                f_discr_funs = []
+                for num_steps, num_stages in zip(solver_options.sim_method_num_steps, solver_options.sim_method_num_stages):
+                    rk_fun = ca.simpleRK(ca_expl_ode, num_steps, num_stages)
+                    f_discr_funs.append(ca.Function('f_discr_fun', [model.x, model.u, param], [rk_fun(model.x, u_p_combined, dt)]))
             else:
                 raise NotImplementedError(f"Integrator type {solver_options.integrator_type} not supported.")
         else:
@@ -220,7 +222,9 @@ class AcadosCasadiOcp:
                 self._casados_integrator = casados_integrator
             else:
                 raise NotImplementedError(f"Integrator type {solver_options.integrator_type} not supported.")
-            self.__f_discr_fun = ca.Function('f_discr_fun', [model.x, model.u, param], [x_next])
+            f_discr_funs = [ca.Function('f_discr_fun', [model.x, model.u, param], [x_next])] * N_horizon
+        # NOTE: the dynamics differ between stages if num_steps or num_stages do
+        self.__f_discr_fun = f_discr_funs[0] if N_horizon > 0 else None
 
         for i in range(N_horizon+1):
             # add dynamics constraints
@@ -229,7 +233,7 @@ class AcadosCasadiOcp:
                     utraj_node = utraj_nodes[i] if dims.nu > 0 else ca_symbol('dummy_u', 0, 1)
                     ptraj_node = ptraj_nodes[i][:dims.np] if dims.np > 0 else ca_symbol('dummy_p', 0, 1)
                     param = ca.vertcat(ptraj_node, model.p_global, solver_options.time_steps[i])
-                    dyn_equality = xtraj_nodes[i+1] - self.__f_discr_fun(xtraj_nodes[i], utraj_node, param)
+                    dyn_equality = xtraj_nodes[i+1] - f_discr_funs[i](xtraj_nodes[i], utraj_node, param)
 
                     self._append_constraints(i, 'dyn', g, lbg, ubg,
                                             g_expr = dyn_equality,
@@ -248,7 +252,7 @@ class AcadosCasadiOcp:
                     utraj_node = utraj_nodes[i] if dims.nu > 0 else ca_symbol('dummy_u', 0, 1)
                     ptraj_node = ptraj_nodes[i][:dims.np] if dims.np > 0 else ca_symbol('dummy_p', 0, 1)
                     param = ca.vertcat(ptraj_node, model.p_global, solver_options.time_steps[i])
-                    xtraj_nodes.append(self.__f_discr_fun(xtraj_nodes[i], utraj_node, param))
+                    xtraj_nodes.append(f_discr_funs[i](xtraj_nodes[i], utraj_node, param))
 
             # Nonlinear Constraints
             constraint_dict = self._get_constraint_node(i, N_horizon, xtraj_nodes, utraj_nodes, ptraj_nodes, model, constraints, dims)
-- 
2.43.0


From 46b62164db9f4f4c82b4a72e250b4018887a8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:21 +0000
Subject: [PATCH 073/117] fix: AcadosCasadiOcpSolver: bounds of softened
 nonlinear constraints could not be read and written

---
 .../acados_template/acados_casadi_ocp_solver.py    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
index 7b5329d..7101690 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
@@ -472,6 +472,12 @@ class AcadosCasadiOcpSolver:
         else:
             raise NotImplementedError(f"Field '{field_}' is not yet implemented in cost_set().")
 
+    def _get_h_indices(self, stage: int, slack: str) -> List[int]:
+        """
+        Indices of all nonlinear constraints h, including the softened ones, within g, in the order of h.
+        """
+        return sorted(self.index_map['lam_h_in_lam_g'][stage] + self.index_map[f'lam_gnl_{slack}_in_lam_g'][stage])
+
     def constraints_get(self, stage_: int, field_: str) -> np.ndarray:
         if field_ == 'lbx':
             return self.bounds['lbx'][self.index_map['lam_bx_in_lam_w'][stage_]]
@@ -486,9 +492,9 @@ class AcadosCasadiOcpSolver:
         elif field_ == 'ug':
             return self.bounds['ubg'][self.index_map['lam_g_in_lam_g'][stage_]]
         elif field_ == 'lh':
-            return self.bounds['lbg'][self.index_map['lam_h_in_lam_g'][stage_]]
+            return self.bounds['lbg'][self._get_h_indices(stage_, 'sl')]
         elif field_ == 'uh':
-            return self.bounds['ubg'][self.index_map['lam_h_in_lam_g'][stage_]]
+            return self.bounds['ubg'][self._get_h_indices(stage_, 'su')]
         elif field_ == 'lphi':
             return self.bounds['lbg'][self.index_map['lam_phi_in_lam_g'][stage_]]
         elif field_ == 'uphi':
@@ -510,9 +516,9 @@ class AcadosCasadiOcpSolver:
         elif field == 'ug':
             self.bounds['ubg'][self.index_map['lam_g_in_lam_g'][stage]] = value_.flatten()
         elif field == 'lh':
-            self.bounds['lbg'][self.index_map['lam_h_in_lam_g'][stage]] = value_.flatten()
+            self.bounds['lbg'][self._get_h_indices(stage, 'sl')] = value_.flatten()
         elif field == 'uh':
-            self.bounds['ubg'][self.index_map['lam_h_in_lam_g'][stage]] = value_.flatten()
+            self.bounds['ubg'][self._get_h_indices(stage, 'su')] = value_.flatten()
         elif field == 'lphi':
             self.bounds['lbg'][self.index_map['lam_phi_in_lam_g'][stage]] = value_.flatten()
         elif field == 'uphi':
-- 
2.43.0


From 18fa5ed7d824abca629bb7068cd3b01d3211e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:39 +0000
Subject: [PATCH 074/117] fix: AcadosCasadiOcp: Gauss-Newton Hessian was wrong
 for non-diagonal weights and ignored slack penalties

---
 .../acados_template/acados_casadi_ocp.py         | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index 79b96db..1728ff6 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -338,6 +338,7 @@ class AcadosCasadiOcp:
 
         ### Cost and Hessian ###
         nlp_cost = 0
+        nlp_penalty = 0
         residual_list = []
         for i in range(N_horizon+1):
             cost_dict = self._get_cost_node(i, N_horizon, xtraj_nodes, utraj_nodes, p_nlp, sl_nodes, su_nodes, ocp)
@@ -348,14 +349,15 @@ class AcadosCasadiOcp:
 
             if cost_dict['residual_expr'] is not None:
                 residual_fun_i = ca.Function(f'residual_fun_{i}', [model.x, model.u, cost_dict['p_for_model'], model.p_global], [cost_dict['residual_expr']])
-                residual_i = ca.sqrt(solver_options.cost_scaling[i]) * ca.sqrt(cost_dict['W_mat']) @ residual_fun_i(cost_dict['xtraj_node'], cost_dict['utraj_node'], cost_dict['ptraj_node'], model.p_global)
-                residual_list.append(residual_i)
+                residual_i = residual_fun_i(cost_dict['xtraj_node'], cost_dict['utraj_node'], cost_dict['ptraj_node'], model.p_global)
+                residual_list.append((residual_i, solver_options.cost_scaling[i] * cost_dict['W_mat']))
             if cost_dict['ns'] > 0:
                 penalty_expr_i = 0.5 * ca.mtimes(cost_dict['sl_node'].T, ca.mtimes(np.diag(cost_dict['Zl']), cost_dict['sl_node'])) + \
                     ca.mtimes(cost_dict['zl'].reshape(-1, 1).T, cost_dict['sl_node']) + \
                     0.5 * ca.mtimes(cost_dict['su_node'].T, ca.mtimes(np.diag(cost_dict['Zu']), cost_dict['su_node'])) + \
                     ca.mtimes(cost_dict['zu'].reshape(-1, 1).T, cost_dict['su_node'])
-                nlp_cost += solver_options.cost_scaling[i] * penalty_expr_i
+                nlp_penalty += solver_options.cost_scaling[i] * penalty_expr_i
+        nlp_cost += nlp_penalty
 
         if with_hessian:
             lam_f = ca_symbol('lam_f', 1, 1)
@@ -365,10 +367,10 @@ class AcadosCasadiOcp:
                 if  ocp.solver_options.hessian_approx == 'EXACT':
                     hess_l += lam_f * ca.hessian(nlp_cost, w)[0]
                 elif ocp.solver_options.hessian_approx == 'GAUSS_NEWTON':
-                    Gauss_Newton = 0
-                    for i in range(len(residual_list)):
-                        dr_dw = ca.jacobian(residual_list[i], w)
-                        Gauss_Newton += dr_dw.T @ dr_dw
+                    Gauss_Newton = ca.hessian(nlp_penalty, w)[0]
+                    for residual, W_mat in residual_list:
+                        dr_dw = ca.jacobian(residual, w)
+                        Gauss_Newton += dr_dw.T @ W_mat @ dr_dw
                     hess_l += lam_f * Gauss_Newton
             else:
                 raise NotImplementedError("Hessian approximation not implemented for this cost type.")
-- 
2.43.0


From 0905e946fd4a36a762f4888d6a1b5943ff524201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 075/117] fix: AcadosCasadiOcp: Hessian of
 convex-over-nonlinear constraints ignored the multipliers and the stage

---
 .../acados_template/acados_casadi_ocp.py               | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index 1728ff6..6044a22 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -330,11 +330,13 @@ class AcadosCasadiOcp:
                     lam_phi = ca_symbol(f'lam_phi_{i}', constraint_dict['nphi'], 1)
                     lam_g.append(lam_phi)
                     # always use CONL Hessian approximation here, disregarding inner second derivative
-                    outer_hess_r = ca.vertcat(*[ca.hessian(constraint_dict['con_phi_expr'][j], constraint_dict['con_r_in_phi'])[0] for j in range(constraint_dict['nphi'])])
-                    outer_hess_r = ca.substitute(outer_hess_r, constraint_dict['con_r_in_phi'], constraint_dict['con_r_expr'])
-                    r_in_nlp = ca.substitute(constraint_dict['con_r_expr'], model.x, xtraj_nodes[-1])
+                    con_r_fun = ca.Function('con_r_fun', [model.x, model.u, model.p, model.p_global], [constraint_dict['con_r_expr']])
+                    r_in_nlp = con_r_fun(xtraj_nodes[i], utraj_node, ptraj_node, model.p_global)
+                    lam_phi_expr = ca.dot(lam_phi, constraint_dict['con_phi_expr'])
+                    outer_hess_r = ca.hessian(lam_phi_expr, constraint_dict['con_r_in_phi'])[0]
+                    outer_hess_fun = ca.Function('outer_hess_fun', [constraint_dict['con_r_in_phi'], lam_phi, model.p, model.p_global], [outer_hess_r])
                     dr_dw = ca.jacobian(r_in_nlp, w)
-                    hess_l += dr_dw.T @ outer_hess_r @ dr_dw
+                    hess_l += dr_dw.T @ outer_hess_fun(r_in_nlp, lam_phi, ptraj_node, model.p_global) @ dr_dw
 
         ### Cost and Hessian ###
         nlp_cost = 0
-- 
2.43.0


From 82c27b47c3f567b8eb0141f1418043da9c060a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:19 +0000
Subject: [PATCH 076/117] fix: AcadosCasadiOcp: MX formulations without
 parameters and references could fail with a dimension mismatch

---
 interfaces/acados_template/acados_template/acados_casadi_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index 6044a22..4931861 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -577,7 +577,7 @@ class AcadosCasadiOcp:
         cost = ocp.cost
         p_index = self._index_map['p_in_p_nlp'][i]
         yref_index = self._index_map['yref_in_p_nlp'][i]
-        yref = p_nlp[yref_index]
+        yref = ca.reshape(p_nlp[yref_index], len(yref_index), 1)
         if i == 0:
             if cost.cost_type_0 == "NONLINEAR_LS" and not is_empty(ocp.model.cost_y_expr_0):
                 y = ocp.model.cost_y_expr_0
-- 
2.43.0


From 60226f6f182c8a7fe46e06ca37ebd9cdf1b02cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 077/117] fix: AcadosCasadiOcpQp: soft bounds ignored idxb and
 failed with shared slacks

---
 .../acados_template/acados_casadi_ocp_qp.py        | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
index 7a4b36e..88b34e2 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
@@ -170,9 +170,10 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsbu_rev,
             )
             if s_idx.size > 0:
-                expr = ui[soft_idx]
-                sl_k = sli[s_idx]
-                su_k = sui[s_idx]
+                idxbu = np.asarray(qp.idxb[i]).reshape(-1)[:nbu]
+                expr = ca.vertcat(*[ui[int(j)] for j in idxbu[soft_idx]])
+                sl_k = ca.vertcat(*[sli[int(j)] for j in s_idx])
+                su_k = ca.vertcat(*[sui[int(j)] for j in s_idx])
                 self._append_constraints(expr+sl_k, lbu_soft, np.full(lbu_soft.shape, np.inf), g_list, lbg_list, ubg_list, i, type='bu_soft_lower')
                 self._append_constraints(expr-su_k, np.full(ubu_soft.shape, -np.inf), ubu_soft, g_list, lbg_list, ubg_list, i, type='bu_soft_upper')
 
@@ -186,9 +187,10 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsxb_rev,
             )
             if s_idx.size > 0:
-                expr = xi[soft_idx]
-                sl_k = sli[s_idx]
-                su_k = sui[s_idx]
+                idxbx = np.asarray(qp.idxb[i]).reshape(-1)[nbu:nbu+nbx] - nu
+                expr = ca.vertcat(*[xi[int(j)] for j in idxbx[soft_idx]])
+                sl_k = ca.vertcat(*[sli[int(j)] for j in s_idx])
+                su_k = ca.vertcat(*[sui[int(j)] for j in s_idx])
                 self._append_constraints(expr+sl_k, lbx_soft, np.full(lbx_soft.shape, np.inf), g_list, lbg_list, ubg_list, i, type='bx_soft_lower')
                 self._append_constraints(expr-su_k, np.full(ubx_soft.shape, -np.inf), ubx_soft, g_list, lbg_list, ubg_list, i, type='bx_soft_upper')
 
-- 
2.43.0


From 8c69ba551ac0cf26327adb6ec8e7cee45d6bfadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 078/117] fix: AcadosCasadiOcpQp: multipliers of bounds ignored
 idxb

---
 .../acados_template/acados_template/acados_casadi_ocp_qp.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
index 88b34e2..be3f8e9 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
@@ -343,7 +343,7 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsx_rev,
                 bound_to_var_indices=x_state_indices,
             )
-            self._index_map['lam_bx_in_lam_w'].append(list(range(self.offset_lam, self.offset_lam + nbx)))
+            self._index_map['lam_bx_in_lam_w'].append([self.offset_lam + int(j) for j in x_state_indices])
             self.offset_lam += nx
 
         elif _field == 'u':
@@ -365,7 +365,7 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsu_rev,
                 bound_to_var_indices=u_state_indices,
             )
-            self._index_map['lam_bu_in_lam_w'].append(list(range(self.offset_lam, self.offset_lam + nbu)))
+            self._index_map['lam_bu_in_lam_w'].append([self.offset_lam + int(j) for j in u_state_indices])
             self.offset_lam += nu
 
         elif _field == 'sl':
-- 
2.43.0


From cd73f257b57de6ca736941384fc0dab6ed0eebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 079/117] fix: AcadosCasadiOcpQpSolver: multipliers of hard
 bounds were lost when other bounds are soft

---
 .../acados_casadi_ocp_qp_solver.py            | 62 +++++++++++--------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
index 25d74a8..0ae9705 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
@@ -179,6 +179,36 @@ class AcadosCasadiOcpQpSolver:
         else:
             raise NotImplementedError(f"get(): field '{field}' not implemented.")
 
+    def _soft_bounds(self, stage: int, name: str) -> np.ndarray:
+        """
+        Return for each bound on u (name 'bu') or x (name 'bx') whether it is soft.
+        """
+        dims = self.acados_ocp_qp.dims
+        nbu = dims.nbu[stage]
+        idxs_rev = self.acados_ocp_qp.idxs_rev[stage]
+        return (idxs_rev[:nbu] if name == 'bu' else idxs_rev[nbu:nbu + dims.nbx[stage]]) >= 0
+
+    def _get_lam_bounds(self, stage: int, name: str):
+        """
+        Return lower and upper multipliers of the hard and soft bounds on u (name 'bu') or x (name 'bx').
+        """
+        soft = self._soft_bounds(stage, name)
+        lam = self.qp_sol_lam_w[self.index_map[f'lam_{name}_in_lam_w'][stage]]
+        lb_lam = np.maximum(0.0, -lam)
+        ub_lam = np.maximum(0.0, lam)
+        lb_lam[soft] = -self.qp_sol_lam_g[self.index_map[f'lam_{name}_sl_in_lam_g'][stage]]
+        ub_lam[soft] = self.qp_sol_lam_g[self.index_map[f'lam_{name}_su_in_lam_g'][stage]]
+        return lb_lam, ub_lam
+
+    def _set_lam_bounds(self, stage: int, name: str, lb_lam: np.ndarray, ub_lam: np.ndarray):
+        """
+        Set lower and upper multipliers of the hard and soft bounds on u (name 'bu') or x (name 'bx').
+        """
+        soft = self._soft_bounds(stage, name)
+        self.lam_x0[np.array(self.index_map[f'lam_{name}_in_lam_w'][stage], dtype=int)[~soft]] = (ub_lam - lb_lam)[~soft]
+        self.lam_g0[self.index_map[f'lam_{name}_sl_in_lam_g'][stage]] = -lb_lam[soft]
+        self.lam_g0[self.index_map[f'lam_{name}_su_in_lam_g'][stage]] = ub_lam[soft]
+
     def _get_lam(self, stage: int) -> np.ndarray:
         """
         Return multipliers in acados convention:
@@ -188,22 +218,9 @@ class AcadosCasadiOcpQpSolver:
         lam_w = self.qp_sol_lam_w
         lam_g = self.qp_sol_lam_g
 
-        # --- hard/soft u-bound multipliers ---
-        if self.index_map['lam_bu_sl_in_lam_g'][stage] == []:
-            bu_lam = lam_w[self.index_map['lam_bu_in_lam_w'][stage]]
-            lbu_lam = np.maximum(0.0, -bu_lam)
-            ubu_lam = np.maximum(0.0,  bu_lam)
-        else:
-            lbu_lam = -lam_g[self.index_map['lam_bu_sl_in_lam_g'][stage]]
-            ubu_lam = lam_g[self.index_map['lam_bu_su_in_lam_g'][stage]]
-        # --- hard/soft x-bound multipliers ---
-        if self.index_map['lam_bx_sl_in_lam_g'][stage] == []:
-            bx_lam = lam_w[self.index_map['lam_bx_in_lam_w'][stage]]
-            lbx_lam = np.maximum(0.0, -bx_lam)
-            ubx_lam = np.maximum(0.0, bx_lam)
-        else:
-            lbx_lam = -lam_g[self.index_map['lam_bx_sl_in_lam_g'][stage]]
-            ubx_lam = lam_g[self.index_map['lam_bx_su_in_lam_g'][stage]]
+        # --- hard/soft bound multipliers ---
+        lbu_lam, ubu_lam = self._get_lam_bounds(stage, 'bu')
+        lbx_lam, ubx_lam = self._get_lam_bounds(stage, 'bx')
         # --- hard and soft constraint multipliers ---
         g_lam = lam_g[self.index_map['lam_g_in_lam_g'][stage]]
         if self.index_map['lam_g_sl_in_lam_g'][stage]:
@@ -305,17 +322,8 @@ class AcadosCasadiOcpQpSolver:
         ug_lam_hard = ubg_lam[gnl_indices]
         ug_lam_soft = ubg_lam[gnl_sl_indices]
 
-        if stage < self.acados_ocp_qp.N:
-            if self.index_map['lam_bu_sl_in_lam_g'][stage] == []:
-                self.lam_x0[self.index_map['lam_bu_in_lam_w'][stage]] = ubu_lam - lbu_lam
-            else:
-                self.lam_g0[self.index_map['lam_bu_sl_in_lam_g'][stage]] = -lbu_lam
-                self.lam_g0[self.index_map['lam_bu_su_in_lam_g'][stage]] = ubu_lam
-        if self.index_map['lam_bx_sl_in_lam_g'][stage] == []:
-            self.lam_x0[self.index_map['lam_bx_in_lam_w'][stage]] = ubx_lam - lbx_lam
-        else:
-            self.lam_g0[self.index_map['lam_bx_sl_in_lam_g'][stage]] = -lbx_lam
-            self.lam_g0[self.index_map['lam_bx_su_in_lam_g'][stage]] = ubx_lam
+        self._set_lam_bounds(stage, 'bu', lbu_lam, ubu_lam)
+        self._set_lam_bounds(stage, 'bx', lbx_lam, ubx_lam)
         self.lam_g0[self.index_map['lam_g_in_lam_g'][stage]] = lg_lam_hard - ug_lam_hard
         self.lam_g0[self.index_map['lam_g_sl_in_lam_g'][stage]] = -lg_lam_soft
         self.lam_g0[self.index_map['lam_g_su_in_lam_g'][stage]] = ug_lam_soft
-- 
2.43.0


From 2b614d2690075126d004bd3d459fc4a4ee7cf69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 080/117] fix: AcadosCasadiOcpQpSolver: multipliers of general
 constraints were set with the wrong sign

---
 .../acados_template/acados_casadi_ocp_qp_solver.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
index 0ae9705..5d891ae 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
@@ -324,7 +324,7 @@ class AcadosCasadiOcpQpSolver:
 
         self._set_lam_bounds(stage, 'bu', lbu_lam, ubu_lam)
         self._set_lam_bounds(stage, 'bx', lbx_lam, ubx_lam)
-        self.lam_g0[self.index_map['lam_g_in_lam_g'][stage]] = lg_lam_hard - ug_lam_hard
+        self.lam_g0[self.index_map['lam_g_in_lam_g'][stage]] = ug_lam_hard - lg_lam_hard
         self.lam_g0[self.index_map['lam_g_sl_in_lam_g'][stage]] = -lg_lam_soft
         self.lam_g0[self.index_map['lam_g_su_in_lam_g'][stage]] = ug_lam_soft
         # TODO: separate soft contributions into bu, bx, g for more accurate warm-starting
-- 
2.43.0


From 77cf50aa1c2eb78643f95a7a44075a1525f07015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 081/117] fix: AcadosCasadiOcpQpSolver: flat multipliers with
 soft general constraints were misaligned

---
 .../acados_template/acados_casadi_ocp_qp_solver.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
index 5d891ae..f6998e0 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
@@ -428,8 +428,9 @@ class AcadosCasadiOcpQpSolver:
                 nbu = dims.nbu[i]
                 nbx = dims.nbx[i]
                 ng_hard = len(self.index_map['lam_g_in_lam_g'][i])
+                nsg = len(self.index_map['lam_g_sl_in_lam_g'][i])
                 ns_i = dims.ns[i]
-                n_lam_i = 2 * (nbu + nbx + ng_hard + ns_i)
+                n_lam_i = 2 * (nbu + nbx + ng_hard + nsg + ns_i)
                 self.set(i, 'lam', v[offset:offset + n_lam_i]); offset += n_lam_i
         else:
             raise NotImplementedError(f"set_flat(): field '{field}' not implemented.")
\ No newline at end of file
-- 
2.43.0


From be0e4d56f70119ff2122cc91df06d7ad0870347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 082/117] fix: AcadosOcpQpSolver could not be created without
 options

---
 .../acados_template/acados_template/acados_ocp_qp_solver.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
index 9f4c3eb..0abb942 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
@@ -71,10 +71,10 @@ class AcadosOcpQpSolver:
         self.__solver_created = False
         self.__N = qp.N
         self.qp = qp
-        self.__qp_solver_name = opts.qp_solver
-        qp.make_consistent()
         if opts is None:
             opts = AcadosOcpQpOptions()
+        self.__qp_solver_name = opts.qp_solver
+        qp.make_consistent()
         opts.make_consistent(qp.N)
 
         # check compatibility of qp and opts
-- 
2.43.0


From df29a7446e3a7e196bd3ed3e6c779239bba6a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 083/117] fix: AcadosOcpQp: masks did not have the documented
 default 1.0

---
 interfaces/acados_template/acados_template/acados_ocp_qp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp.py b/interfaces/acados_template/acados_template/acados_ocp_qp.py
index 7bd1519..9321d7f 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp.py
@@ -297,10 +297,14 @@ class AcadosOcpQp:
 
         for i in range(self.N+1):
 
-            # replace None entries with empty numpy arrays
+            # replace None entries with empty numpy arrays, None masks with the default 1.0
             for field in self.all_fields:
                 if field in self.dynamics_fields and i == self.N:
                     continue  # skip dynamics fields at terminal stage
+                if field.endswith('_mask'):
+                    bound = getattr(self, field[:-len('_mask')])[i]
+                    if getattr(self, field)[i] is None and bound is not None:
+                        self.set(field, i, np.ones(bound.shape))
                 if getattr(self, field)[i] is None:
                     if field in self.vector_fields:
                         self.set(field, i, np.zeros((0,)))
-- 
2.43.0


From 5708380ca81a99bb56ec9971c83778d15bc75d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 084/117] fix: AcadosOcpQp: inconsistent dimensions and indices
 were passed on to C

---
 .../acados_template/acados_ocp_qp.py          | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp.py b/interfaces/acados_template/acados_template/acados_ocp_qp.py
index 9321d7f..fa9d2e4 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp.py
@@ -291,6 +291,13 @@ class AcadosOcpQp:
             return True
         return False
 
+    def __assert_matrix_shape(self, field: str, stage: int, rows: int, cols: int):
+        mat = getattr(self, field)[stage]
+        if rows == 0 or cols == 0:
+            assert mat.size == 0, f"Inconsistent dimensions in {field} matrix at stage {stage}: expected an empty matrix, got {mat.shape}."
+        else:
+            assert mat.shape == (rows, cols), f"Inconsistent dimensions in {field} matrix at stage {stage}: expected {(rows, cols)}, got {mat.shape}."
+
     def make_consistent(self, assert_dims: bool = True):
         # detect dims
         nx_next = None
@@ -320,15 +327,18 @@ class AcadosOcpQp:
             if assert_dims:
                 assert self.q[i].shape == (nx,), f"Inconsistent dimensions in q vector at stage {i}."
                 assert self.r[i].shape == (nu,), f"Inconsistent dimensions in r vector at stage {i}."
-                if nu > 0:
-                    assert self.S[i].shape == (nu, nx), f"Inconsistent dimensions in S matrix at stage {i}."
+                self.__assert_matrix_shape('Q', i, nx, nx)
+                self.__assert_matrix_shape('R', i, nu, nu)
+                self.__assert_matrix_shape('S', i, nu, nx)
 
             # dynamics
-            if assert_dims and i < self.N:
-                if nx_next is not None:
-                    assert nx == nx_next, f"Inconsistent dimensions between consecutive A matrices at stage {i}."
+            if assert_dims and nx_next is not None:
+                assert nx == nx_next, f"Inconsistent dimensions between consecutive A matrices at stage {i}."
 
+            if assert_dims and i < self.N:
                 nx_next = self.A[i].shape[0]
+                self.__assert_matrix_shape('A', i, nx_next, nx)
+                self.__assert_matrix_shape('B', i, nx_next, nu)
 
                 assert self.B[i].shape[0] == nx_next, "Inconsistent dimensions between A and B matrices."
                 assert self.b[i].shape[0] == nx_next, "Inconsistent dimensions between A and b matrices."
@@ -342,15 +352,20 @@ class AcadosOcpQp:
 
             if assert_dims:
                 assert len(self.idxb[i]) == self.__dims.nb[i], f"Inconsistent number of bound constraint indices at stage {i}."
-                assert self.C[i].shape[0] == self.__dims.ng[i], f"Inconsistent number of general constraints at stage {i}."
-                if i < self.N:
-                    assert self.D[i].shape[0] == self.__dims.ng[i], f"Inconsistent number of general constraints at stage {i}."
-                if self.__dims.ng[i] > 0:
-                    assert self.C[i].shape[1] == self.__dims.nx[i], f"Inconsistent number of states in general constraints at stage {i}."
-                    if i < self.N:
-                        assert self.D[i].shape[1] == self.__dims.nu[i], f"Inconsistent number of inputs in general constraints at stage {i}."
+                nbu, nbx = self.__dims.nbu[i], self.__dims.nbx[i]
+                if np.any(self.idxb[i][:nbu] < 0) or np.any(self.idxb[i][:nbu] >= nu) or \
+                   np.any(self.idxb[i][nbu:] < nu) or np.any(self.idxb[i][nbu:] >= nu + nx):
+                    raise ValueError(f"Bound constraint indices out of range at stage {i}: expected {nbu} indices of inputs, followed by {nbx} indices of states, got idxb = {self.idxb[i]}.")
+                assert len(self.ubx[i]) == nbx, f"Inconsistent dimensions of lbx and ubx at stage {i}."
+                assert len(self.ubu[i]) == nbu, f"Inconsistent dimensions of lbu and ubu at stage {i}."
+                assert len(self.ug[i]) == self.__dims.ng[i], f"Inconsistent dimensions of lg and ug at stage {i}."
+                assert len(self.lus[i]) == self.__dims.ns[i], f"Inconsistent dimensions of lls and lus at stage {i}."
+                self.__assert_matrix_shape('C', i, self.__dims.ng[i], nx)
+                self.__assert_matrix_shape('D', i, self.__dims.ng[i], nu)
 
                 assert len(self.idxs_rev[i]) == self.__dims.nb[i] + self.__dims.ng[i], f"Inconsistent number of slack variable indices at stage {i}."
+                if np.any(self.idxs_rev[i] < -1) or np.any(self.idxs_rev[i] >= self.__dims.ns[i]):
+                    raise ValueError(f"Slack variable indices out of range at stage {i}, got idxs_rev = {self.idxs_rev[i]}.")
 
                 # slack cost
                 assert self.zl[i].shape == (self.__dims.ns[i],), f"Inconsistent dimensions in zl vector at stage {i}."
-- 
2.43.0


From 73a9a61427a202261d17db79bc4bd3a0b4969037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:33 +0000
Subject: [PATCH 085/117] fix: QPs of horizon length 9, 99, ... dumped by C
 could not be loaded: width of the stage index

---
 interfaces/acados_c/ocp_nlp_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_c/ocp_nlp_interface.c b/interfaces/acados_c/ocp_nlp_interface.c
index f342da0..2a13226 100644
--- a/interfaces/acados_c/ocp_nlp_interface.c
+++ b/interfaces/acados_c/ocp_nlp_interface.c
@@ -2243,7 +2243,7 @@ void ocp_nlp_dump_last_qp_to_json(ocp_nlp_config *config, ocp_nlp_dims *dims, oc
     int size1 = 0, size2 = 0;
     int is_first = 1, is_int = 0;
     int num_fields = sizeof(_qp_fields) / sizeof(_qp_fields[0]);
-    int width = snprintf(NULL, 0, "%d", dims->N);
+    int width = snprintf(NULL, 0, "%d", dims->N+1);
     char key[MAX_STR_LEN];
 
     // go through fields of last QP and write to json
-- 
2.43.0


From 9169ba7cd85a0ebc00dfb92e8cb6a3f61d06889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:37 +0000
Subject: [PATCH 086/117] fix: AcadosOcpQp.check_licq: wrong indices of bounds,
 terminal stage ignored

---
 .../acados_template/acados_ocp_qp.py          | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp.py b/interfaces/acados_template/acados_template/acados_ocp_qp.py
index fa9d2e4..2bd2c42 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp.py
@@ -537,25 +537,26 @@ class AcadosOcpQp:
         horizon = self.N
 
         # for each stage, collect the gradients of the active constraints
-        for i in range(horizon):
+        for i in range(horizon+1):
             nx = self.dims.nx[i]
+            nx_next = self.dims.nx[i+1] if i < horizon else 0
             nu = self.dims.nu[i]
             ng = self.dims.ng[i]
             nbx = self.dims.nbx[i]
             nbu = self.dims.nbu[i]
 
-            # Collect active constraint gradients, constraint matrix should be nx+nu+nx at each stage
+            # Collect active constraint gradients, constraint matrix should be nx+nu+nx_next at each stage
             A_active = []
-            row_len = nx + nu + nx
+            row_len = nx + nu + nx_next
 
             # Dynamic constraints are always active with [A, B, -I] structure
             if i < horizon:
-                A_dyn = np.hstack([self.A[i], self.B[i], -np.eye(nx)])
+                A_dyn = np.hstack([self.A[i], self.B[i], -np.eye(nx_next)])
                 A_active.append(A_dyn)
 
             # Box constraints on states
             for j in range(nbx):
-                idx = self.idxb[i][j]
+                idx = self.idxb[i][nbu+j] - nu  # idxb refers to [u; x]
                 if np.isclose(iterate.x[i][idx], self.lbx[i][j]):
                     grad = np.zeros(row_len)
                     grad[idx] = 1.0
@@ -568,7 +569,7 @@ class AcadosOcpQp:
 
             # Box constraints on controls
             for j in range(nbu):
-                idx = j  # assuming inputs are indexed from 0 to nbu-1
+                idx = self.idxb[i][j]
                 if np.isclose(iterate.u[i][idx], self.lbu[i][j]):
                     grad = np.zeros(row_len)
                     grad[nx + idx] = 1.0
@@ -580,16 +581,21 @@ class AcadosOcpQp:
                     A_active.append(grad)
 
             # General constraints
+            D = self.D[i].reshape((ng, nu))
             for j in range(ng):
-                value = self.C[i]@iterate.x[i] + self.D[i]@iterate.u[i]
+                value = self.C[i]@iterate.x[i]
+                if nu > 0:
+                    value = value + D@iterate.u[i]
                 if np.isclose(value[j], self.lg[i][j]):
-                    grad = np.hstack([self.C[i][j, :], self.D[i][j, :], np.zeros(nx)])
+                    grad = np.hstack([self.C[i][j, :], D[j, :], np.zeros(nx_next)])
                     A_active.append(grad)
 
                 elif np.isclose(value[j], self.ug[i][j]):
-                    grad = -np.hstack([self.C[i][j, :], self.D[i][j, :], np.zeros(nx)])
+                    grad = -np.hstack([self.C[i][j, :], D[j, :], np.zeros(nx_next)])
                     A_active.append(grad)
 
+            if len(A_active) == 0:
+                continue
             A_active_matrix = np.vstack(A_active)
             rank = np.linalg.matrix_rank(A_active_matrix)
             if rank < A_active_matrix.shape[0]:
-- 
2.43.0


From 5c657bf290b26a718917b310d9e44e97b3d970d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:29 +0000
Subject: [PATCH 087/117] fix: external functions: COLMAJ_ARGS arguments mixed
 up rows and columns of non-square dense matrices

---
 acados/utils/external_function_generic.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acados/utils/external_function_generic.c b/acados/utils/external_function_generic.c
index 629f28d..9f80f4e 100644
--- a/acados/utils/external_function_generic.c
+++ b/acados/utils/external_function_generic.c
@@ -520,8 +520,8 @@ static void d_cvt_casadi_to_colmaj_args(double *in, int *sparsity_in, struct col
 
     if (is_dense)
     {
-        for (ii = 0; ii < ncol; ii++)
-            for (jj = 0; jj < nrow; jj++) A[ii + jj * lda] = in[ii + ncol * jj];
+        for (jj = 0; jj < ncol; jj++)
+            for (ii = 0; ii < nrow; ii++) A[ii + jj * lda] = in[ii + nrow * jj];
     }
     else
     {
@@ -562,8 +562,8 @@ static void d_cvt_colmaj_args_to_casadi(struct colmaj_args *in, double *out, int
 
     if (is_dense)
     {
-        for (ii = 0; ii < ncol; ii++)
-            for (jj = 0; jj < nrow; jj++) out[ii + ncol * jj] = A[ii + jj * lda];
+        for (jj = 0; jj < ncol; jj++)
+            for (ii = 0; ii < nrow; ii++) out[ii + nrow * jj] = A[ii + jj * lda];
     }
     else
     {
-- 
2.43.0


From 7537fabe68cddfb77f3f5daed93900de8147e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:13 +0000
Subject: [PATCH 088/117] fix: constraints depending on algebraic variables:
 their sensitivities were added to the wrong rows of the constraint Jacobian
 if there are general linear constraints

---
 acados/ocp_nlp/ocp_nlp_constraints_bgh.c | 4 ++--
 acados/ocp_nlp/ocp_nlp_constraints_bgp.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
index ab948bd..c1127ca 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
@@ -1400,7 +1400,7 @@ void ocp_nlp_constraints_bgh_update_qp_matrices(void *config_, void *dims_, void
             blasfeo_dgemm_nn(nu+nx, nh, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nh, 0, 0, 0.0,
                              &work->tmp_nv_nh, 0, 0, &work->tmp_nv_nh, 0, 0);
             // update DCt
-            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, ng, 0);
+            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, 0, ng);
         }
         else
         {
@@ -1436,7 +1436,7 @@ void ocp_nlp_constraints_bgh_update_qp_matrices(void *config_, void *dims_, void
             blasfeo_dgemm_nn(nu+nx, nh, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nh, 0, 0, 0.0,
                              &work->tmp_nv_nh, 0, 0, &work->tmp_nv_nh, 0, 0);
             // update DCt
-            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, ng, 0);
+            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, 0, ng);
         }
     }
 
diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
index de2ffe2..bdb1c96 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
@@ -1293,7 +1293,7 @@ void ocp_nlp_constraints_bgp_update_qp_matrices(void *config_, void *dims_, void
 
         // update DCt
         blasfeo_dgemm_nn(nu+nx, nphi, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nphi, 0, 0, 0.0, &work->tmp_nv_nphi, 0, 0, &work->tmp_nv_nphi, 0, 0);
-        blasfeo_dgead(nu+nx, nphi, 1.0, &work->tmp_nv_nphi, 0, 0, memory->DCt, ng, 0);
+        blasfeo_dgead(nu+nx, nphi, 1.0, &work->tmp_nv_nphi, 0, 0, memory->DCt, 0, ng);
         // update memory->fun
         blasfeo_dgemv_t(nu+nx, nphi, -1.0, &work->tmp_nv_nphi, 0, 0, memory->ux, 0, 1.0, &memory->fun, 0, &memory->fun, 0);
     }
-- 
2.43.0


From c32397c4cc1cd71795ceb0d54562940f16d2bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:12 +0000
Subject: [PATCH 089/117] fix: set_new_time_steps: integer and non-contiguous
 arrays were misread, later changes of the given array were ignored

---
 .../acados_template/acados_template/acados_ocp_solver.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 87c1273..26813d8 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -692,6 +692,9 @@ class AcadosOcpSolver:
         if not self.solver_created:
             raise RuntimeError('Solver was not yet created!')
 
+        # own contiguous copy of type double: passed to C and stored below
+        new_time_steps = np.array(new_time_steps, dtype=np.float64).reshape(-1)
+
         # check if time steps really changed in value
         if np.array_equal(self.ocp.solver_options.time_steps, new_time_steps):
             return
-- 
2.43.0


From 6e38c3340f7959de05af77c72efabb745240c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:12 +0000
Subject: [PATCH 090/117] fix: horizon lengths inconsistent with negative or
 not finite time steps were accepted

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 3b5cd41..89b7e01 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1033,7 +1033,7 @@ class AcadosOcp:
             opts.time_steps = time_steps
 
         tf = np.sum(opts.time_steps)
-        if abs(tf - opts.tf) / tf > 1e-13:
+        if not abs(tf - opts.tf) <= 1e-13 * min(abs(tf), abs(opts.tf)):
             raise ValueError(f'Inconsistent discretization: {opts.tf}'
                 f' = tf != sum(opts.time_steps) = {tf}.')
 
-- 
2.43.0


From 0c490264a9c91d2c27c85a0a5b7d3a34dde89f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 091/117] fix: set_new_time_steps without change of N: new time
 steps did not reach the integrators

---
 .../acados_template/c_templates_tera/acados_solver.in.c  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index bc1db35..58881bf 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -205,7 +205,8 @@ int {{ name }}_acados_update_time_steps({{ name }}_solver_capsule* capsule, int
         ocp_nlp_in_set(nlp_config, nlp_dims, nlp_in, i, "Ts", &new_time_steps[i]);
         ocp_nlp_cost_model_set(nlp_config, nlp_dims, nlp_in, i, "scaling", &new_time_steps[i]);
     }
-    return 0;
+    // pass time steps on to the dynamics modules and repeat precomputations that depend on them
+    return ocp_nlp_precompute(capsule->nlp_solver, nlp_in, capsule->nlp_out);
 {% endif %}
 }
 
@@ -1090,7 +1091,11 @@ void {{ name }}_acados_create_setup_nlp_in_numerical_values({{ name }}_solver_ca
     if (new_time_steps)
     {
         // NOTE: this sets scaling and time_steps
-        {{ name }}_acados_update_time_steps(capsule, N, new_time_steps);
+        for (int i = 0; i < N; i++)
+        {
+            ocp_nlp_in_set(nlp_config, nlp_dims, nlp_in, i, "Ts", &new_time_steps[i]);
+            ocp_nlp_cost_model_set(nlp_config, nlp_dims, nlp_in, i, "scaling", &new_time_steps[i]);
+        }
     }
     else
     {
-- 
2.43.0


From 445d4bf4d4023a00a11d3556e6a189194738e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 092/117] fix: option
 globalization_funnel_fraction_switching_condition was ignored by the
 generated solvers

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c  | 3 +++
 .../acados_template/c_templates_tera/acados_solver.in.c        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 9539ef1..254063b 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2455,6 +2455,9 @@ void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule)
     double globalization_funnel_kappa = {{ solver_options.globalization_funnel_kappa }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_kappa", &globalization_funnel_kappa);
 
+    double globalization_funnel_fraction_switching_condition = {{ solver_options.globalization_funnel_fraction_switching_condition }};
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_fraction_switching_condition", &globalization_funnel_fraction_switching_condition);
+
     double globalization_funnel_initial_penalty_parameter = {{ solver_options.globalization_funnel_initial_penalty_parameter }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_initial_penalty_parameter", &globalization_funnel_initial_penalty_parameter);
 
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 58881bf..c184fc9 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2545,6 +2545,9 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     double globalization_funnel_kappa = {{ solver_options.globalization_funnel_kappa }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_kappa", &globalization_funnel_kappa);
 
+    double globalization_funnel_fraction_switching_condition = {{ solver_options.globalization_funnel_fraction_switching_condition }};
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_fraction_switching_condition", &globalization_funnel_fraction_switching_condition);
+
     double globalization_funnel_initial_penalty_parameter = {{ solver_options.globalization_funnel_initial_penalty_parameter }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_initial_penalty_parameter", &globalization_funnel_initial_penalty_parameter);
 
-- 
2.43.0


From 46e437465faa4c2230878880bce9204591c6d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 093/117] fix: fixed_hess: the Hessian was not computed again
 by repeated precomputations, e.g. in update_qp_solver_cond_N

---
 acados/ocp_nlp/ocp_nlp_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index d708b51..7a2e459 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -3552,7 +3552,10 @@ int ocp_nlp_precompute_common(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_nl
     ocp_nlp_alias_memory_to_submodules(config, dims, in, out, opts, mem, work);
     if (opts->fixed_hess)
     {
+        // the Hessian is only computed here; switched off in the cost modules by a previous call of this function
         mem->compute_hess = 1;
+        for (ii=0; ii<=N; ii++)
+            config->cost[ii]->opts_set(config->cost[ii], opts->cost[ii], "compute_hess", &mem->compute_hess);
         ocp_nlp_approximate_qp_matrices(config, dims, in, out, opts, mem, work);
         mem->compute_hess = 0;
         for (ii=0; ii<=N; ii++)
-- 
2.43.0


From c4f023c3bf6eaaf94f123cccca00a258582a811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 094/117] fix: reset of the numerical values after
 set_new_time_steps: time steps did not reach the integrators, memory was
 overwritten if the horizon length had changed

---
 .../acados_template/acados_ocp_solver.py        |  5 +++++
 .../c_templates_tera/acados_solver.in.c         | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 26813d8..b8dc1d5 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -314,6 +314,7 @@ class AcadosOcpSolver:
         # store solver-relevant information directly from the OCP formulation object
         self.__problem_class = "OCP" if isinstance(ocp, AcadosOcp) else "MOCP"
         self.__N = ocp.solver_options.N_horizon
+        self.__initial_time_steps = np.array(ocp.solver_options.time_steps, dtype=np.float64)
 
         if self.__problem_class == "OCP":
             self.__has_x0 = ocp.constraints.has_x0
@@ -672,6 +673,10 @@ class AcadosOcpSolver:
         getattr(self.shared_lib, f"{self.ocp.name}_acados_reset")(self.capsule, reset_qp_solver_mem, reset_numerical_values, reset_solver_options, reset_x_to_x0_bar)
         if reset_numerical_values:
             self.__p_global_values = self.__initial_p_global_values.copy()
+            # time steps are only reset if the number of shooting intervals is the one of the OCP description
+            if self.__problem_class == "OCP" and self.__N == self.__initial_time_steps.size > 0:
+                self.ocp.solver_options.time_steps = self.__initial_time_steps.copy()
+                self.ocp.solver_options.Tsim = self.__initial_time_steps[0]
 
 
     def set_new_time_steps(self, new_time_steps):
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index c184fc9..91f7f13 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -1097,6 +1097,16 @@ void {{ name }}_acados_create_setup_nlp_in_numerical_values({{ name }}_solver_ca
             ocp_nlp_cost_model_set(nlp_config, nlp_dims, nlp_in, i, "scaling", &new_time_steps[i]);
         }
     }
+    else if (N != {{ solver_options.N_horizon }})
+    {
+        // number of shooting intervals differs from the OCP description: keep time_steps, scaling as set with new_time_steps
+        double scaling_e = 1.0;
+        for (int i = 0; i < N; i++)
+        {
+            ocp_nlp_cost_model_set(nlp_config, nlp_dims, nlp_in, i, "scaling", &nlp_in->Ts[i]);
+        }
+        ocp_nlp_cost_model_set(nlp_config, nlp_dims, nlp_in, N, "scaling", &scaling_e);
+    }
     else
     {
         // set time_steps
@@ -3132,6 +3142,13 @@ int {{ name }}_acados_reset({{ name }}_solver_capsule* capsule, int reset_qp_sol
 
         // reset numerical values in nlp_in
         {{ name }}_acados_create_setup_nlp_in_numerical_values(capsule, N, NULL);
+
+        // pass time steps on to the dynamics modules and repeat precomputations that depend on the numerical values
+        int status = ocp_nlp_precompute(nlp_solver, nlp_in, nlp_out);
+        if (status != ACADOS_SUCCESS)
+        {
+            return status;
+        }
     }
 
     if (reset_solver_options)
-- 
2.43.0


From 79a08fa1fe767ffd9afdffba3f22ec8d6caea4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 095/117] fix: zoRO template: use the terminal constraint
 Jacobians and index sets, place Riccati constraint rows correctly

---
 .../custom_update_function_zoro_template.in.c | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index bc6cc43..ffc7900 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -698,8 +698,8 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // lg
     {%- for it in zoro_description.idx_lg_t %}
-    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, it, 0, &custom_mem->dct_dux, ir, 0);
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, it, 0, &custom_mem->dct_dux, ir, nu);
+    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, nu);
     ir += 1;
     {%- endfor %}
     // lh
@@ -716,32 +716,32 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // ug
     {%- for it in zoro_description.idx_ug_t %}
-    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, it, 0, &custom_mem->dct_dux, ir, 0);
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, it, 0, &custom_mem->dct_dux, ir, nu);
+    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, nu);
     ir += 1;
     {%- endfor %}
 
     ir = 0;
     // lbx_e
     {%- for it in zoro_description.idx_lbx_e_t %}
-    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx[{{it}}]);
+    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx_e[{{it}}]);
     ir += 1;
     {%- endfor %}
     // lg_e
     {%- for it in zoro_description.idx_lg_e_t %}
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, it, 0, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, {{it}}, 0, &custom_mem->dcet_dx, ir, 0);
     ir += 1;
     {%- endfor %}
     // lh_e (just add offset)
     ir += {{zoro_description.nlh_e_t}};
     // ubx_e
     {%- for it in zoro_description.idx_ubx_e_t %}
-    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx[{{it}}]);
+    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx_e[{{it}}]);
     ir += 1;
     {%- endfor %}
     // ug_e
     {%- for it in zoro_description.idx_ug_e_t %}
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, it, 0, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, {{it}}, 0, &custom_mem->dcet_dx, ir, 0);
     ir += 1;
     {%- endfor %}
 
@@ -1058,8 +1058,8 @@ static void update_riccati_quad_matrices(ocp_nlp_solver *solver, ocp_nlp_memory
     // lh
 {%- for it in zoro_description.idx_lh_t %}
     // NOTE: the d_Cgh_mat is column-major, the first ng rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, 0, 0);
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, 0, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, 0);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, nu);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, nu);
     temp_nominal_val = custom_mem->d_ineq_val[ng + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+ii, nbu + nbx + ng + {{it}}));
@@ -1113,8 +1113,8 @@ static void update_riccati_quad_matrices(ocp_nlp_solver *solver, ocp_nlp_memory
 // uh
 {%- for it in zoro_description.idx_uh_t %}
     // NOTE: the d_Cgh_mat is column-major, the first ng rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, 0, 0);
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, 0, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, 0);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, nu);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, nu);
     temp_nominal_val = -custom_mem->d_ineq_val[ng + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+ii, nbu + nbx + ng + {{it}}));
@@ -1168,7 +1168,7 @@ static void update_riccati_quad_matrices_terminal(ocp_nlp_solver *solver, ocp_nl
 
 {%- if zoro_description.nlh_e_t + zoro_description.nuh_e_t > 0 %}
     // Get C_N
-    ocp_nlp_get_at_stage(solver, N, "C", custom_mem->d_Cgh_mat);
+    ocp_nlp_get_at_stage(solver, N, "C", custom_mem->d_Cgh_e_mat);
 {%- endif %}
 
 {%- if zoro_description.nlg_e_t + zoro_description.nlh_e_t > 0 %}
@@ -1186,8 +1186,8 @@ static void update_riccati_quad_matrices_terminal(ocp_nlp_solver *solver, ocp_nl
 // lh_e
 {%- for it in zoro_description.idx_lh_e_t %}
     // NOTE: the d_Cgh_mat is column-major, the first ng_e rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
     temp_nominal_val = custom_mem->d_ineq_e_val[ng_e + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+N, nbx_e + ng_e + {{it}}));
 {%- if zoro_description.feedback_optimization_mode == "RICCATI_BARRIER_1" %}
     blasfeo_dgesc(1, nx, custom_mem->tau / (temp_nominal_val * temp_nominal_val), &custom_mem->scaled_dcet_dx, ir, 0);
@@ -1227,8 +1227,8 @@ static void update_riccati_quad_matrices_terminal(ocp_nlp_solver *solver, ocp_nl
 // uh_e
 {%- for it in zoro_description.idx_uh_e_t %}
     // NOTE: the d_Cgh_mat is column-major, the first ng_e rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
     temp_nominal_val = - custom_mem->d_ineq_e_val[ng_e + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+N, nbx_e + ng_e + {{it}}));
 {%- if zoro_description.feedback_optimization_mode == "RICCATI_BARRIER_1" %}
     blasfeo_dgesc(1, nx, custom_mem->tau / (temp_nominal_val * temp_nominal_val), &custom_mem->scaled_dcet_dx, ir, 0);
@@ -1696,7 +1696,7 @@ static void uncertainty_propagate_and_update(ocp_nlp_solver *solver, ocp_nlp_in
 
 {%- if zoro_description.nlg_e_t + zoro_description.nug_e_t > 0 %}
     // Linear constraints: g
-    compute_gh_beta(K_mat, &custom_mem->Cg_mat,
+    compute_gh_beta(K_mat, &custom_mem->Cg_e_mat,
                     &custom_mem->dummy_Dgh_e_mat, &custom_mem->temp_CaDK_mat,
                     &custom_mem->temp_CaDKmP_mat, &custom_mem->temp_beta_mat,
                     &custom_mem->uncertainty_matrix_buffer[N], ng_e, nx, nu);
@@ -1726,9 +1726,9 @@ static void uncertainty_propagate_and_update(ocp_nlp_solver *solver, ocp_nlp_in
     // Get C_{k+1} and D_{k+1}
     ocp_nlp_get_at_stage(solver, N, "C", custom_mem->d_Cgh_e_mat);
     // NOTE: the d_Cgh_e_mat is column-major, the first ng_e rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(nh_e, nx, custom_mem->d_Cgh_e_mat+ng_e, ng_e+nh_e, &custom_mem->Ch_mat, 0, 0);
+    blasfeo_pack_dmat(nh_e, nx, custom_mem->d_Cgh_e_mat+ng_e, ng_e+nh_e, &custom_mem->Ch_e_mat, 0, 0);
 
-    compute_gh_beta(K_mat, &custom_mem->Ch_mat,
+    compute_gh_beta(K_mat, &custom_mem->Ch_e_mat,
                     &custom_mem->dummy_Dgh_e_mat, &custom_mem->temp_CaDK_mat,
                     &custom_mem->temp_CaDKmP_mat, &custom_mem->temp_beta_mat,
                     &custom_mem->uncertainty_matrix_buffer[N], nh_e, nx, nu);
-- 
2.43.0


From b552dd3d0402b82333527a5ce56e266d450a8173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 096/117] fix: zoRO template: combine W with the additive
 stagewise part correctly, also without runtime data

---
 .../custom_update_function_zoro_template.in.c    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index ffc7900..407050c 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -611,8 +611,7 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
 {%- endfor %}
 
-{%- if not zoro_description.input_W_diag %}
-    // NOTE: G, W are not changing -> precompute GWG
+    // NOTE: GWG only changes if W is updated in the custom update function
     // temp_GW_mat = unc_jac_G_mat * W_mat
     blasfeo_dgemm_nn(nx, nw, nw, 1.0, &custom_mem->unc_jac_G_mat, 0, 0,
                         &custom_mem->W_mat, 0, 0, 0.0,
@@ -621,7 +620,6 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     blasfeo_dgemm_nt(nx, nx, nw, 1.0, &custom_mem->temp_GW_mat, 0, 0,
                         &custom_mem->unc_jac_G_mat, 0, 0, 0.0,
                         &custom_mem->GWG_mat, 0, 0, &custom_mem->GWG_mat, 0, 0);
-{%- endif %}
 
 {%- if zoro_description.input_W_add_diag %}
     // NOTE: Initialize additive covariance matrix to 0.
@@ -884,6 +882,8 @@ static void reset_process_noise_matrix(custom_memory* custom_mem, ocp_nlp_dims *
 
 /**
  * @brief Computes the adjusted GWG based on the uncertainties given W + stagewise varying part.
+ *
+ * If data is NULL, the stagewise varying part is zero.
  */
 static void compute_GWG_stagewise_varying(ocp_nlp_solver* solver, custom_memory* custom_mem, double* data, const int current_stage)
 {
@@ -894,9 +894,13 @@ static void compute_GWG_stagewise_varying(ocp_nlp_solver* solver, custom_memory*
     const int nw = {{ zoro_description.nw }};
 
     // NOTE: update noise covariance terms for current stage
-    for (int i = 0; i < nw; ++i)
+    blasfeo_dgese(nw, nw, 0.0, &custom_mem->W_stage_mat, 0, 0);
+    if (data != NULL)
     {
-        blasfeo_dgein1(data[custom_mem->offset_W_add_diag + nw * current_stage + i], &custom_mem->W_stage_mat, i, i);
+        for (int i = 0; i < nw; ++i)
+        {
+            blasfeo_dgein1(data[custom_mem->offset_W_add_diag + nw * current_stage + i], &custom_mem->W_stage_mat, i, i);
+        }
     }
     //   blasfeo_print_exp_dmat(nw, nw, &custom_mem->W_stage_mat, 0, 0);
 
@@ -1833,7 +1837,7 @@ int custom_update_function({{ name }}_solver_capsule* capsule, double* data, int
     riccati_recursion(nlp_solver, nlp_mem, custom_mem);
     double time_riccati = acados_toc(&timer0);
 {%- endif %}
-    uncertainty_propagate_and_update(nlp_solver, nlp_in, nlp_out, custom_mem, data, data_len);
+    uncertainty_propagate_and_update(nlp_solver, nlp_in, nlp_out, custom_mem, streaming ? data : NULL, data_len);
 
 
 {%- if zoro_description.output_P_matrices %}
-- 
2.43.0


From 96003182b3a7819d02520f746dc5d87b188ec4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:03 +0000
Subject: [PATCH 097/117] fix: zoRO template: horizon of one interval

---
 .../custom_update_function_zoro_template.in.c | 52 ++++++++++++-------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index 407050c..8581a9f 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -553,49 +553,61 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     int nbx_e = {{ dims.nbx_e }};
 
     /* Get the state constraint bounds */
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "idxbx", custom_mem->idxbx);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "idxbx", custom_mem->idxbx_e);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbx", custom_mem->d_lbx);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubx", custom_mem->d_ubx);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lbx", custom_mem->d_lbx_e);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "ubx", custom_mem->d_ubx_e);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "idxbu", custom_mem->idxbu);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbu", custom_mem->d_lbu);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubu", custom_mem->d_ubu);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "idxbu", custom_mem->idxbu);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "lbu", custom_mem->d_lbu);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "ubu", custom_mem->d_ubu);
+    if (N > 1)
+    {
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "idxbx", custom_mem->idxbx);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbx", custom_mem->d_lbx);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubx", custom_mem->d_ubx);
+    }
     // Get the Jacobians and the bounds of the linear constraints
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lg", custom_mem->d_lg);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ug", custom_mem->d_ug);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lg", custom_mem->d_lg_e);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "ug", custom_mem->d_ug_e);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "C", custom_mem->d_Cg_mat);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "D", custom_mem->d_Dg_mat);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "C", custom_mem->d_Cg_e_mat);
+    if (N > 1)
+    {
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lg", custom_mem->d_lg);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ug", custom_mem->d_ug);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "C", custom_mem->d_Cg_mat);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "D", custom_mem->d_Dg_mat);
+    }
     blasfeo_pack_dmat(ng, nx, custom_mem->d_Cg_mat, ng, &custom_mem->Cg_mat, 0, 0);
     blasfeo_pack_dmat(ng, nu, custom_mem->d_Dg_mat, ng, &custom_mem->Dg_mat, 0, 0);
     blasfeo_pack_dmat(ng_e, nx, custom_mem->d_Cg_e_mat, ng_e, &custom_mem->Cg_e_mat, 0, 0);
     blasfeo_dgese(ngh_e_max, nu, 0., &custom_mem->dummy_Dgh_e_mat, 0, 0); //fill with zeros
     // NOTE: fixed lower and upper bounds of nonlinear constraints
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lh", custom_mem->d_lh);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "uh", custom_mem->d_uh);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lh", custom_mem->d_lh_e);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "uh", custom_mem->d_uh_e);
+    if (N > 1)
+    {
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lh", custom_mem->d_lh);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "uh", custom_mem->d_uh);
+    }
 
     /* Initilize tightened constraints*/
     // NOTE: tightened constraints are only initialized once
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbx", custom_mem->d_lbx_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubx", custom_mem->d_ubx_tightened);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lbx", custom_mem->d_lbx_e_tightened);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "ubx", custom_mem->d_ubx_e_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbu", custom_mem->d_lbu_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubu", custom_mem->d_ubu_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lg", custom_mem->d_lg_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ug", custom_mem->d_ug_tightened);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "lbu", custom_mem->d_lbu_tightened);
+    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 0, "ubu", custom_mem->d_ubu_tightened);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lg", custom_mem->d_lg_e_tightened);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "ug", custom_mem->d_ug_e_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lh", custom_mem->d_lh_tightened);
-    ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "uh", custom_mem->d_uh_tightened);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "lh", custom_mem->d_lh_e_tightened);
     ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, N, "uh", custom_mem->d_uh_e_tightened);
+    if (N > 1)
+    {
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lbx", custom_mem->d_lbx_tightened);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ubx", custom_mem->d_ubx_tightened);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lg", custom_mem->d_lg_tightened);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "ug", custom_mem->d_ug_tightened);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "lh", custom_mem->d_lh_tightened);
+        ocp_nlp_constraints_model_get(nlp_solver->config, nlp_dims, nlp_in, 1, "uh", custom_mem->d_uh_tightened);
+    }
 
     /* Initialize the W matrix */
     // blasfeo_dgese(nw, nw, 0., &custom_mem->W_mat, 0, 0);
-- 
2.43.0


From b7f0ee9fbe101c19043a0d2b2f8c32e0da650431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:03 +0000
Subject: [PATCH 098/117] fix: validate index sets and matrix shapes of
 ZoroDescription

---
 .../acados_template/zoro_description.py              | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/interfaces/acados_template/acados_template/zoro_description.py b/interfaces/acados_template/acados_template/zoro_description.py
index ce71e0b..326c1f9 100644
--- a/interfaces/acados_template/acados_template/zoro_description.py
+++ b/interfaces/acados_template/acados_template/zoro_description.py
@@ -184,6 +184,18 @@ class ZoroDescription:
         if self.unc_jac_G_mat is None:
             self.unc_jac_G_mat = np.eye(self.nw)
 
+        for name, shape in [('W_mat', (self.nw, self.nw)), ('unc_jac_G_mat', (dims.nx, self.nw)),
+                            ('P0_mat', (dims.nx, dims.nx)), ('fdbk_K_mat', (dims.nu, dims.nx))]:
+            if np.shape(getattr(self, name)) != shape:
+                raise Exception(f"{name} must have shape {shape}, got {np.shape(getattr(self, name))}.")
+
+        for name, n in [('bx', dims.nbx), ('bx_e', dims.nbx_e), ('bu', dims.nbu), ('g', dims.ng),
+                        ('g_e', dims.ng_e), ('h', dims.nh), ('h_e', dims.nh_e)]:
+            for idx_name in [f'idx_l{name}_t', f'idx_u{name}_t']:
+                idx = list(getattr(self, idx_name))
+                if any(i not in range(n) for i in idx) or len(set(idx)) != len(idx):
+                    raise Exception(f"{idx_name} must contain unique indices in [0, {n}), got {idx}.")
+
         self.nlbx_t = len(self.idx_lbx_t)
         self.nubx_t = len(self.idx_ubx_t)
         self.nlbx_e_t = len(self.idx_lbx_e_t)
-- 
2.43.0


From a046ed04b257061960298f9a58f4929497d7fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:39 +0000
Subject: [PATCH 099/117] fix: zoRO template: generated code did not compile
 with NOISE mode without Sigma_p input, or output_riccati_t with constant
 feedback

---
 .../custom_update_function_zoro_template.in.c                | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index 8581a9f..ab6e463 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -954,7 +954,9 @@ static void reset_Sigma_p_matrix(struct blasfeo_dmat* Sigma_p_mat, double *data)
     blasfeo_pack_dmat(np, np, data, np, Sigma_p_mat, 0, 0);
 {%- endif %}
 }
+{%- endif %}
 
+{%- if (code_gen_options.sens_forw_p) and (zoro_description.nonlinear_uncertainty_mode == "NOISE") %}
 /**
  * @brief Build the additive term for covariance propagation: temp_GSp_mat = GWG + S_p Sigma_p S_p^T.
  *
@@ -1843,11 +1845,12 @@ int custom_update_function({{ name }}_solver_capsule* capsule, double* data, int
     }
 {%- endif %}
 
+    double time_riccati = 0.0;
 {%- if zoro_description.feedback_optimization_mode != "CONSTANT_FEEDBACK" %}
     acados_timer timer0;
     acados_tic(&timer0);
     riccati_recursion(nlp_solver, nlp_mem, custom_mem);
-    double time_riccati = acados_toc(&timer0);
+    time_riccati = acados_toc(&timer0);
 {%- endif %}
     uncertainty_propagate_and_update(nlp_solver, nlp_in, nlp_out, custom_mem, streaming ? data : NULL, data_len);
 
-- 
2.43.0


From f251859db62253d861d8456a17cdfa1ad2e90cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:39 +0000
Subject: [PATCH 100/117] fix: solution sensitivities wrt p_global: sign of the
 Hessian contribution of h, terminal h without path h, terminal constraints in
 the value gradient

---
 acados/ocp_nlp/ocp_nlp_common.c                              | 5 +++++
 acados/ocp_nlp/ocp_nlp_constraints_bgh.c                     | 2 +-
 .../acados_template/c_templates_tera/acados_solver.in.h      | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index 7a2e459..226cd1f 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -4218,6 +4218,11 @@ void ocp_nlp_common_eval_lagr_grad_p(ocp_nlp_config *config, ocp_nlp_dims *dims,
                                     mem->cost[N], work->cost[N], &work->tmp_np_global);
         blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
 
+        // terminal constraints contribution
+        config->constraints[N]->compute_adj_p(config->constraints[N], dims->constraints[N], in->constraints[N], opts,
+                                mem->constraints[N], work->constraints[N], &work->tmp_np_global);
+        blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
+
         blasfeo_unpack_dvec(np_global, &mem->out_np_global, 0, grad_p, 1);
     }
     else
diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
index c1127ca..c46c75e 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
@@ -1826,7 +1826,7 @@ void ocp_nlp_constraints_bgh_compute_jac_hess_p(void *config_, void *dims_, void
                     ext_fun_type_in, ext_fun_in, ext_fun_type_out, ext_fun_out);
 
         // add constraint contribution to stationarity jacobian wrt p_global
-        blasfeo_dgead(nx+nu, np_global, -1.0, &work->jac_lag_p_global, 0, 0, memory->jac_lag_stat_p_global, 0, 0);
+        blasfeo_dgead(nx+nu, np_global, 1.0, &work->jac_lag_p_global, 0, 0, memory->jac_lag_stat_p_global, 0, 0);
     }
 }
 
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
index fff2fbd..346e605 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
@@ -276,7 +276,7 @@ typedef struct {{ name }}_solver_capsule
     external_function_external_param_casadi nl_constr_h_e_jac_p_hess_xu_p;
 {%- endif %}
 {% if code_gen_options.with_solution_sens_wrt_params_adj %}
-    external_function_external_param_casadi nl_constr_h_hess_ux_pdiff_adj_pdiff;
+    external_function_external_param_casadi nl_constr_h_e_hess_ux_pdiff_adj_pdiff;
 {%- endif %}
 {% if code_gen_options.with_value_sens_wrt_params %}
     external_function_external_param_casadi nl_constr_h_e_adj_p;
-- 
2.43.0


From a97e3468753e61d30c0764526b8384c831729ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:34 +0000
Subject: [PATCH 101/117] fix: number of slacks (ns, not 2*ns) in solution
 sensitivities

---
 .../acados_template/acados_ocp_batch_solver.py       |  4 ++--
 .../acados_template/acados_ocp_solver.py             | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
index 6a4ea1c..986cd92 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
@@ -434,12 +434,12 @@ class AcadosOcpBatchSolver():
 
             if return_sens_sl:
                 ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(
-                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "s".encode('utf-8'))
+                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "sl".encode('utf-8'))
                 sens_sl.append(np.zeros((n_batch, ns, ngrad), dtype=np.float64, order="C"))
 
             if return_sens_su:
                 ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(
-                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "s".encode('utf-8'))
+                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "sl".encode('utf-8'))
                 sens_su.append(np.zeros((n_batch, ns, ngrad), dtype=np.float64, order="C"))
 
             if s < N_horizon:
diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index b8dc1d5..d7a912f 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -793,7 +793,7 @@ class AcadosOcpSolver:
 
             nx = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "x".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
 
             lam = self.get(0, 'lam')
             nlam_non_slack = lam.shape[0]//2 - ns
@@ -802,7 +802,7 @@ class AcadosOcpSolver:
         elif with_respect_to == "initial_control":
             nu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "u".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
             lbu = self.get_from_qp_in(0, 'lbu')
             ubu = self.get_from_qp_in(0, 'ubu')
 
@@ -855,7 +855,7 @@ class AcadosOcpSolver:
             # lbu lbx lg lh lphi ubu ubx ug uh uphi
             nx = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "x".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
 
             nlam = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lam".encode('utf-8'))
             nlam_non_slack = nlam // 2 - ns
@@ -864,7 +864,7 @@ class AcadosOcpSolver:
 
         # elif with_respect_to == "initial_control":
         #     nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-        #     ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+        #     ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
 
         #     nlam = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lam".encode('utf-8'))
         #     nlam_non_slack = nlam // 2 - ns
@@ -984,11 +984,11 @@ class AcadosOcpSolver:
                 sens_lam.append(np.zeros((nlam, ngrad)))
 
             if return_sens_sl:
-                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "s".encode('utf-8'))
+                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "sl".encode('utf-8'))
                 sens_sl.append(np.zeros((ns, ngrad)))
 
             if return_sens_su:
-                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "s".encode('utf-8'))
+                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "sl".encode('utf-8'))
                 sens_su.append(np.zeros((ns, ngrad)))
 
             if s < self.N:
-- 
2.43.0


From a7b6caf517cc3d12ef82d145948db242233b55c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:29 +0000
Subject: [PATCH 102/117] fix: solution sensitivities: linear least-squares
 cost in adjoint sensitivities, sign for x0 bounds that are not eliminated,
 terminal stage in list or alone, preconditions checked for code_gen_options

---
 acados/ocp_nlp/ocp_nlp_common.c               |  2 +-
 acados/ocp_nlp/ocp_nlp_cost_ls.c              | 19 +++++++++++++++++--
 .../acados_template/acados_ocp.py             |  4 ++--
 .../acados_template/acados_ocp_solver.py      |  8 +++++---
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index 226cd1f..e41fb3b 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -4066,7 +4066,7 @@ void ocp_nlp_common_eval_param_sens(ocp_nlp_config *config, ocp_nlp_dims *dims,
         int tmp_nbu;
         config->constraints[0]->dims_get(config->constraints[0], dims->constraints[0], "nbu", &tmp_nbu);
         BLASFEO_DVECEL(qp_seed->seed_d+0, tmp_nbu+index) = 1.0;
-        BLASFEO_DVECEL(qp_seed->seed_d+0, tmp_nbu+index+nb[0]+ng[0]+ni_nl[0]) = 1.0;
+        BLASFEO_DVECEL(qp_seed->seed_d+0, tmp_nbu+index+nb[0]+ng[0]+ni_nl[0]) = -1.0;
     }
     else if (!strcmp("p_global", field))
     {
diff --git a/acados/ocp_nlp/ocp_nlp_cost_ls.c b/acados/ocp_nlp/ocp_nlp_cost_ls.c
index e2b5442..ce15d7f 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_ls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_ls.c
@@ -704,6 +704,18 @@ void ocp_nlp_cost_ls_memory_set_jac_lag_stat_p_global_ptr(struct blasfeo_dmat *j
 }
 
 
+void ocp_nlp_cost_ls_memory_set_adj_lag_p_global_ptr(struct blasfeo_dvec *adj_lag_p_global, void *memory_)
+{
+    // do nothing -- ls cost can not depend on p_global, as it is not parametric
+}
+
+
+void ocp_nlp_cost_ls_memory_set_seed_ux_ptr(struct blasfeo_dvec *seed_ux, void *memory_)
+{
+    // do nothing -- ls cost can not depend on p_global, as it is not parametric
+}
+
+
 
 ////////////////////////////////////////////////////////////////////////////////
 //                                 workspace                                  //
@@ -1116,8 +1128,9 @@ void ocp_nlp_cost_ls_compute_jac_p(void *config_, void *dims_, void *model_,
 void ocp_nlp_cost_ls_compute_adj_sol_sens_pdiff(void *config_, void *dims_, void *model_,
                                        void *opts_, void *memory_, void *work_)
 {
-    printf("ocp_nlp_cost_ls_compute_adj_sol_sens_pdiff: not implemented yet.\n");
-    exit(1);
+    // do nothing -- ls cost can not depend on p_global, as it is not parametric
+
+    return;
 }
 
 
@@ -1173,6 +1186,8 @@ void ocp_nlp_cost_ls_config_initialize_default(void *config_, int stage)
     config->memory_set_RSQrq_ptr = &ocp_nlp_cost_ls_memory_set_RSQrq_ptr;
     config->memory_set_Z_ptr = &ocp_nlp_cost_ls_memory_set_Z_ptr;
     config->memory_set_jac_lag_stat_p_global_ptr = &ocp_nlp_cost_ls_memory_set_jac_lag_stat_p_global_ptr;
+    config->memory_set_adj_lag_p_global_ptr = &ocp_nlp_cost_ls_memory_set_adj_lag_p_global_ptr;
+    config->memory_set_seed_ux_ptr = &ocp_nlp_cost_ls_memory_set_seed_ux_ptr;
     config->workspace_calculate_size = &ocp_nlp_cost_ls_workspace_calculate_size;
     config->get_external_fun_workspace_requirement = &ocp_nlp_cost_ls_get_external_fun_workspace_requirement;
     config->set_external_fun_workspaces = &ocp_nlp_cost_ls_set_external_fun_workspaces;
diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 89b7e01..934c06b 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1299,7 +1299,7 @@ class AcadosOcp:
             cost_types_to_check = [cost.cost_type_e]
             suffix = f", got cost_type_e {cost.cost_type_e}."
 
-        if opts.with_solution_sens_wrt_params:
+        if self.code_gen_options.with_solution_sens_wrt_params_forw or self.code_gen_options.with_solution_sens_wrt_params_adj:
             if dims.np_global == 0:
                 raise ValueError('with_solution_sens_wrt_params is only compatible if global parameters `p_global` are provided. Sensitivities wrt parameters have been refactored to use p_global instead of p in https://github.com/acados/acados/pull/1316. Got emty p_global.')
             if any([cost_type not in ["EXTERNAL", "LINEAR_LS"] for cost_type in cost_types_to_check]):
@@ -1312,7 +1312,7 @@ class AcadosOcp:
             if opts.qp_solver not in ['FULL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_HPIPM']:
                 raise NotImplementedError("Parametric sensitivities are only available with HPIPM as QP solver.")
 
-        if opts.with_value_sens_wrt_params:
+        if self.code_gen_options.with_value_sens_wrt_params:
             if dims.np_global == 0:
                 raise ValueError('with_value_sens_wrt_params is only compatible if global parameters `p_global` are provided. Sensitivities wrt parameters have been refactored to use p_global instead of p in https://github.com/acados/acados/pull/1316. Got emty p_global.')
             if any([cost_type not in ["EXTERNAL", "LINEAR_LS"] for cost_type in cost_types_to_check]):
diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index d7a912f..2397608 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -1009,6 +1009,7 @@ class AcadosOcpSolver:
             self.time_solution_sens_solve += self.get_stats("time_solution_sensitivities")
 
             # extract sensitivities
+            n_dyn = 0  # index for quantities that are not defined at the terminal stage
             for n, s in enumerate(stages_):
 
                 if return_sens_x:
@@ -1022,9 +1023,10 @@ class AcadosOcpSolver:
 
                 if s < self.N:
                     if return_sens_u:
-                        sens_u[n][:, k] = self.get(s, "sens_u")
+                        sens_u[n_dyn][:, k] = self.get(s, "sens_u")
                     if return_sens_pi:
-                        sens_pi[n][:, k] = self.get(s, "sens_pi")
+                        sens_pi[n_dyn][:, k] = self.get(s, "sens_pi")
+                    n_dyn += 1
 
         out = {}
 
@@ -1104,7 +1106,7 @@ class AcadosOcpSolver:
             # check seeds
             for seed, name, dim in [(seed_x, "seed_x", nx), (seed_u, "seed_u", nu)]:
                 for stage, seed_stage in seed:
-                    if not isinstance(stage, int) or stage < 0 or stage > self.N:
+                    if not isinstance(stage, int) or stage < 0 or stage > (self.N if name == "seed_x" else self.N - 1):
                         raise ValueError(f"AcadosOcpSolver.eval_adjoint_solution_sensitivity(): stage {stage} for {name} is not valid.")
                     if not isinstance(seed_stage, np.ndarray):
                         raise TypeError(f"{name} for stage {stage} should be np.ndarray, got {type(seed_stage)}")
-- 
2.43.0


From 1e4ea075ee4a4a04399b805780422eadfe04e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:07 +0000
Subject: [PATCH 103/117] fix: options passed to compute_adj_p of the
 constraints

---
 acados/ocp_nlp/ocp_nlp_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index e41fb3b..d4983bb 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -4207,7 +4207,7 @@ void ocp_nlp_common_eval_lagr_grad_p(ocp_nlp_config *config, ocp_nlp_dims *dims,
             blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
 
             // constraints contribution
-            config->constraints[i]->compute_adj_p(config->constraints[i], dims->constraints[i], in->constraints[i], opts,
+            config->constraints[i]->compute_adj_p(config->constraints[i], dims->constraints[i], in->constraints[i], opts->constraints[i],
                                     mem->constraints[i], work->constraints[i], &work->tmp_np_global);
 
             blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
@@ -4219,7 +4219,7 @@ void ocp_nlp_common_eval_lagr_grad_p(ocp_nlp_config *config, ocp_nlp_dims *dims,
         blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
 
         // terminal constraints contribution
-        config->constraints[N]->compute_adj_p(config->constraints[N], dims->constraints[N], in->constraints[N], opts,
+        config->constraints[N]->compute_adj_p(config->constraints[N], dims->constraints[N], in->constraints[N], opts->constraints[N],
                                 mem->constraints[N], work->constraints[N], &work->tmp_np_global);
         blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
 
-- 
2.43.0


From 9323151f6fd6f5d879a0e00e44e57e4ed99294ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 104/117] fix: CONVEXIFY: eigenvalue decomposition used a
 triangle of the Hessian that was not updated

---
 acados/ocp_nlp/ocp_nlp_reg_convexify.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_reg_convexify.c b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
index fd9a27e..2b4d0b4 100644
--- a/acados/ocp_nlp/ocp_nlp_reg_convexify.c
+++ b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
@@ -579,6 +579,8 @@ void ocp_nlp_reg_convexify_regularize(void *config, ocp_nlp_reg_dims *dims, void
         // printf("BAQ\n");
         // blasfeo_print_dmat(nx+nu, nx, &BAQ, 0, 0);
 
+        // make symmetric: only the lower triangle was updated, but the eigenvalue decomposition reads the full matrix
+        blasfeo_dtrtr_l(nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
         blasfeo_unpack_dmat(nu[ii], nu[ii], mem->RSQrq[ii], 0, 0, mem->R, nu[ii]);
         acados_eigen_decomposition(nu[ii], mem->R, mem->V, mem->d, mem->e);
 
@@ -691,6 +693,8 @@ void ocp_nlp_reg_convexify_regularize_lhs(void *config, ocp_nlp_reg_dims *dims,
 
         // blasfeo_drowex(nu[ii]+nx[ii], 1.0, mem->RSQrq[ii], nu[ii]+nx[ii], 0, mem->rq[ii], 0);
 
+        // make symmetric: only the lower triangle was updated, but the eigenvalue decomposition reads the full matrix
+        blasfeo_dtrtr_l(nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
         blasfeo_unpack_dmat(nu[ii], nu[ii], mem->RSQrq[ii], 0, 0, mem->R, nu[ii]);
         acados_eigen_decomposition(nu[ii], mem->R, mem->V, mem->d, mem->e);
 
@@ -782,6 +786,8 @@ void ocp_nlp_reg_convexify_regularize_rhs(void *config, ocp_nlp_reg_dims *dims,
 
         blasfeo_drowex(nu[ii]+nx[ii], 1.0, mem->RSQrq[ii], nu[ii]+nx[ii], 0, mem->rq[ii], 0);
 
+        // make symmetric: only the lower triangle was updated, but the eigenvalue decomposition reads the full matrix
+        blasfeo_dtrtr_l(nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
         blasfeo_unpack_dmat(nu[ii], nu[ii], mem->RSQrq[ii], 0, 0, mem->R, nu[ii]);
         acados_eigen_decomposition(nu[ii], mem->R, mem->V, mem->d, mem->e);
 
-- 
2.43.0


From 880b8a440c4479216c973c1b38b66268ce50991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 105/117] fix: funnel globalization: penalty mode not reset at
 the start of a solve, initial penalty parameter ignored

---
 acados/ocp_nlp/ocp_nlp_globalization_funnel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
index 2dfbbcf..52cb85e 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
@@ -600,8 +600,9 @@ void ocp_nlp_globalization_funnel_initialize_memory(void *config_, void *dims_,
     initialize_funnel_width(mem, opts, mem->l1_infeasibility);
     mem->funnel_iter_type = '-';
     initialize_funnel_penalty_parameter(mem, opts);
+    mem->funnel_penalty_mode = false;
     mem->alpha = 1.0;
-    mem->penalty_parameter = nlp_mem->objective_multiplier;
+    nlp_mem->objective_multiplier = mem->penalty_parameter;
 }
 
 void ocp_nlp_globalization_funnel_config_initialize_default(ocp_nlp_globalization_config *config)
-- 
2.43.0


From affae9796c8931075f02f3698ab3726358c53c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 106/117] fix: merit function slope in the line search: sign
 for lower bounds, column of general constraints

---
 acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
index 7a7e428..a3c295d 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
@@ -253,13 +253,13 @@ static double ocp_nlp_compute_merit_gradient(ocp_nlp_config *config, ocp_nlp_dim
                     if (j < nb[i])
                     {
                         // printf("lower idxb[%d] = %d dir %f, constraint_val %f, nb = %d\n", j, idxb[j], BLASFEO_DVECEL(mem->qp_out->ux, idxb[j]), constraint_val, nb[i]);
-                        merit_grad_ineq += weight * BLASFEO_DVECEL(mem->qp_out->ux+i, idxb[j]);
+                        merit_grad_ineq -= weight * BLASFEO_DVECEL(mem->qp_out->ux+i, idxb[j]);
                     }
                     else if (j < nb[i] + ng[i])
                     {
                         // merit_grad_ineq += weight * mem->qp_in->DCt_j * dux
-                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, j - nb[i], 0, &tmp_vec_nxu, 0);
-                        merit_grad_ineq += weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
+                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, 0, j - nb[i], &tmp_vec_nxu, 0);
+                        merit_grad_ineq -= weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
                         // printf("general linear constraint lower contribution = %e, val = %e\n", blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0), constraint_val);
                     }
                     else if (j < 2*nb[i] + ng[i])
@@ -269,7 +269,7 @@ static double ocp_nlp_compute_merit_gradient(ocp_nlp_config *config, ocp_nlp_dim
                     }
                     else if (j < 2*nb[i] + 2*ng[i])
                     {
-                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, j - 2*nb[i] - ng[i], 0, &tmp_vec_nxu, 0);
+                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, 0, j - 2*nb[i] - ng[i], &tmp_vec_nxu, 0);
                         merit_grad_ineq += weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
                         // printf("general linear constraint upper contribution = %e, val = %e\n", blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0), constraint_val);
                     }
-- 
2.43.0


From 977e80ede59384e1059b15617640bdb21f038b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 107/117] fix: second order correction: sign of the dynamics
 residuals and of the slack step, softened bounds

---
 acados/ocp_nlp/ocp_nlp_common.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index d4983bb..062425d 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -4274,8 +4274,7 @@ int ocp_nlp_perform_second_order_correction(ocp_nlp_config *config, ocp_nlp_dims
             // add - \nabla c_i(x_k)^T * p_k
             // c_i = f(x_k, u_k) - x_{k+1} (see dynamics module)
             blasfeo_dgemv_t(nx[ii]+nu[ii], nx[ii+1], -1.0, qp_in->BAbt+ii, 0, 0,
-                            qp_out->ux+ii, 0, -1.0, tmp_fun_vec, 0, qp_in->b+ii, 0);
-            // NOTE: not sure why it is - tmp_fun_vec here!
+                            qp_out->ux+ii, 0, 1.0, tmp_fun_vec, 0, qp_in->b+ii, 0);
             blasfeo_dvecad(nx[ii+1], 1.0, qp_out->ux+ii+1, nu[ii+1], qp_in->b+ii, 0);
         }
 
@@ -4301,17 +4300,17 @@ int ocp_nlp_perform_second_order_correction(ocp_nlp_config *config, ocp_nlp_dims
         // add slack contributions
         // d[nb:nb+ng] += slack[idx]
         // qp_in->idxs_rev
-        for (int j = 0; j < nb[ii]+ng[ii]; j++)
+        for (int j = nb[ii]; j < nb[ii]+ng[ii]; j++)
         {
             int slack_index = qp_in->idxs_rev[ii][j];
             if (slack_index >= 0)
             {
                 // add slack contribution for lower and upper constraint
                 // lower
-                BLASFEO_DVECEL(qp_in->d+ii, j) -=
+                BLASFEO_DVECEL(qp_in->d+ii, j) +=
                         BLASFEO_DVECEL(qp_out->ux+ii, slack_index+nx[ii]+nu[ii]);
                 // upper
-                BLASFEO_DVECEL(qp_in->d+ii, j+nb[ii]+ng[ii]) -=
+                BLASFEO_DVECEL(qp_in->d+ii, j+nb[ii]+ng[ii]) +=
                         BLASFEO_DVECEL(qp_out->ux+ii, slack_index+nx[ii]+nu[ii]+ns[ii]);
             }
         }
-- 
2.43.0


From eab5d09e4b6e51083954a180d30adddfdc46d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 108/117] fix: globalization_eps_sufficient_descent not passed
 to the funnel globalization

---
 .../c_templates_tera/acados_multi_solver.in.c               | 6 +++---
 .../acados_template/c_templates_tera/acados_solver.in.c     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 254063b..80043a5 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2425,6 +2425,9 @@ void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule)
 
     double globalization_alpha_reduction = {{ solver_options.globalization_alpha_reduction }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_alpha_reduction", &globalization_alpha_reduction);
+
+    double globalization_eps_sufficient_descent = {{ solver_options.globalization_eps_sufficient_descent }};
+    ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_eps_sufficient_descent", &globalization_eps_sufficient_descent);
 {%- endif %}
 
 
@@ -2437,9 +2440,6 @@ void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule)
 
     int globalization_use_SOC = {{ solver_options.globalization_use_SOC }};
     ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_use_SOC", &globalization_use_SOC);
-
-    double globalization_eps_sufficient_descent = {{ solver_options.globalization_eps_sufficient_descent }};
-    ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_eps_sufficient_descent", &globalization_eps_sufficient_descent);
 {%- elif solver_options.globalization == "FUNNEL_L1PEN_LINESEARCH" %}
     // ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization", "funnel_l1pen_linesearch");
 
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 91f7f13..19b792b 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2528,6 +2528,9 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
 
     double globalization_alpha_reduction = {{ solver_options.globalization_alpha_reduction }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_alpha_reduction", &globalization_alpha_reduction);
+
+    double globalization_eps_sufficient_descent = {{ solver_options.globalization_eps_sufficient_descent }};
+    ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_eps_sufficient_descent", &globalization_eps_sufficient_descent);
 {%- endif %}
 
 {# globalization specific options #}
@@ -2538,9 +2541,6 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
 
     int globalization_use_SOC = {{ solver_options.globalization_use_SOC }};
     ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_use_SOC", &globalization_use_SOC);
-
-    double globalization_eps_sufficient_descent = {{ solver_options.globalization_eps_sufficient_descent }};
-    ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_eps_sufficient_descent", &globalization_eps_sufficient_descent);
 {%- elif solver_options.globalization == "FUNNEL_L1PEN_LINESEARCH" %}
 
     double globalization_funnel_init_increase_factor = {{ solver_options.globalization_funnel_init_increase_factor }};
-- 
2.43.0


From 23707d60e6e50891e72240ba3bc6ae4df6bf5a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:46 +0000
Subject: [PATCH 109/117] fix: DDP: in-place rollout without feedback term,
 globalization_full_step_dual ignored, partial dual step from a stale iterate

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 1e31758..f8c3ba6 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -344,7 +344,9 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
     ocp_nlp_opts *opts = opts_;
     ocp_nlp_memory *mem = mem_;
     ocp_nlp_workspace *work = work_;
-    ocp_nlp_out *out_destination = out_destination_;
+    // NOTE: the rollout needs the current iterate, so it cannot be done in place
+    bool in_place = out_destination_ == out_;
+    ocp_nlp_out *out_destination = in_place ? work->tmp_nlp_out : out_destination_;
     ocp_nlp_ddp_memory *ddp_mem = solver_mem;
     /* computes trial iterate in tmp_nlp_out */
     int N = dims->N;
@@ -354,7 +356,6 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
     int *ni = dims->ni;
     int *nz = dims->nz;
 
-    ocp_nlp_globalization_opts *globalization_opts = opts->globalization;
     struct blasfeo_dvec *tmp_vec;
     ocp_qp_xcond_solver_config *xcond_solver_config = config->qp_solver;
 
@@ -403,7 +404,7 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
     for (i = 0; i < N+1; i++)
     {
         // update dual variables
-        if (globalization_opts->full_step_dual)
+        if (full_step_dual)
         {
             blasfeo_dveccp(2*ni[i], qp_out->lam+i, 0, out_destination->lam+i, 0);
             if (i < N)
@@ -414,12 +415,10 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
         else
         {
             // update duals with alpha step
-            blasfeo_dvecsc(2*ni[i], 1.0-alpha, out_destination->lam+i, 0);
-            blasfeo_daxpy(2*ni[i], alpha, qp_out->lam+i, 0, out_destination->lam+i, 0, out_destination->lam+i, 0);
+            blasfeo_daxpby(2*ni[i], 1.0-alpha, out->lam+i, 0, alpha, qp_out->lam+i, 0, out_destination->lam+i, 0);
             if (i < N)
             {
-                blasfeo_dvecsc(nx[i+1], 1.0-alpha, out_destination->pi+i, 0);
-                blasfeo_daxpy(nx[i+1], alpha, qp_out->pi+i, 0, out_destination->pi+i, 0, out_destination->pi+i, 0);
+                blasfeo_daxpby(nx[i+1], 1.0-alpha, out->pi+i, 0, alpha, qp_out->pi+i, 0, out_destination->pi+i, 0);
             }
         }
 
@@ -431,6 +430,9 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
                     qp_out->ux+i, 0, 1.0, mem->z_alg+i, 0, out_destination->z+i, 0);
         }
     }
+
+    if (in_place)
+        copy_ocp_nlp_out(dims, out_destination, out);
     return;
 }
 
-- 
2.43.0


From d2d01b7ece6de6de8254afe5991b15372fbb56e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:24 +0000
Subject: [PATCH 110/117] fix: data race on the stage dimension in parallel
 loops of SQP_WITH_FEASIBLE_QP

---
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index 6de1b63..9352ff3 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -916,7 +916,6 @@ static void setup_hessian_matrices_for_qps(ocp_nlp_config *config,
     int *nu = dims->nu;
     int *ns = dims->ns;
 
-    int nxu;
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
@@ -924,7 +923,7 @@ static void setup_hessian_matrices_for_qps(ocp_nlp_config *config,
     {
         /* Hessian matrices */
         // hess_QP = hess_cost + hess_constraints
-        nxu = nx[i]+nu[i];
+        int nxu = nx[i]+nu[i];
 
         if (opts->use_constraint_hessian_in_feas_qp)
         {
@@ -1382,7 +1381,6 @@ static void initial_setup_feasibility_qp_objective(ocp_nlp_config *config,
     int *ns = dims->ns;
     int *nns = mem->nns;
 
-    int nxu;
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
@@ -1390,7 +1388,7 @@ static void initial_setup_feasibility_qp_objective(ocp_nlp_config *config,
     {
         /* Hessian matrices */
         // hess_QP = hess_cost + hess_constraints
-        nxu = nx[i]+nu[i];
+        int nxu = nx[i]+nu[i];
 
         blasfeo_dgese(nxu, nxu, 0.0, relaxed_qp_in->RSQrq+i, 0, 0);
         if (!opts->use_constraint_hessian_in_feas_qp)
-- 
2.43.0


From 76a4b6715ed34ed6e032202ba331b32f6b971edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:24 +0000
Subject: [PATCH 111/117] fix: batch solve of a part of the batch overwrote the
 status of the other solvers

---
 .../acados_template/acados_ocp_batch_solver.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
index 986cd92..59a988b 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
@@ -201,7 +201,7 @@ class AcadosOcpBatchSolver():
         getattr(self.__shared_lib, f"{self.__name}_acados_batch_solve")(self.__ocp_solvers_pointer, self.__status_p, n_batch, self.__num_threads_in_batch_solve)
 
         # to be consistent with non-batched solve
-        for s, solver in zip(self.__status, self.ocp_solvers):
+        for s, solver in zip(self.__status[:n_batch], self.ocp_solvers):
             solver._status = s
 
 
@@ -220,7 +220,7 @@ class AcadosOcpBatchSolver():
         getattr(self.__shared_lib, f"{self.__name}_acados_batch_setup_qp_matrices_and_factorize")(self.__ocp_solvers_pointer, self.__status_p, n_batch, self.__num_threads_in_batch_solve)
 
         # to be consistent with non-batched solve
-        for s, solver in zip(self.__status, self.ocp_solvers):
+        for s, solver in zip(self.__status[:n_batch], self.ocp_solvers):
             solver._status = s
 
 
-- 
2.43.0


From f56033916225611c94267b4f814b5cbe2665d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:39 +0000
Subject: [PATCH 112/117] fix: SQP_RTI: repeated feedback phases wrote beyond
 the statistics array

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index d1169d4..e58e1ac 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -617,9 +617,10 @@ static void ocp_nlp_sqp_rti_feedback_step(ocp_nlp_config *config, ocp_nlp_dims *
         print_ocp_qp_out(nlp_mem->qp_out);
     }
 
-    // save statistics
-    mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-    mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+    // save statistics, NOTE: several feedback phases can follow one preparation phase
+    int stat_row = nlp_mem->iter < mem->stat_m ? nlp_mem->iter : mem->stat_m-1;
+    mem->stat[mem->stat_n * stat_row+0] = qp_status;
+    mem->stat[mem->stat_n * stat_row+1] = qp_iter;
 
     if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
     {
-- 
2.43.0


From 9fcb74b9b1f754627b209619871fc89a535182ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:34 +0000
Subject: [PATCH 113/117] fix: LIFTED_IRK: the time argument of the model
 functions was read out of bounds

---
 acados/sim/sim_lifted_irk_integrator.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/acados/sim/sim_lifted_irk_integrator.c b/acados/sim/sim_lifted_irk_integrator.c
index ef8fcf7..3356e0c 100644
--- a/acados/sim/sim_lifted_irk_integrator.c
+++ b/acados/sim/sim_lifted_irk_integrator.c
@@ -746,11 +746,14 @@ int sim_lifted_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *m
 
     struct blasfeo_dvec_args ext_fun_in_K;
 
-    ext_fun_arg_t ext_fun_type_in[4];
-    void *ext_fun_in[4];
+    double t_current;
+    ext_fun_arg_t ext_fun_type_in[5];
+    void *ext_fun_in[5];
     // TODO: fix this for z
     ext_fun_type_in[3] = COLMAJ;
     ext_fun_in[3] = u;
+    ext_fun_type_in[4] = COLMAJ;
+    ext_fun_in[4] = &t_current;  // current time
 
 
     struct blasfeo_dvec_args ext_fun_out_rG;
@@ -823,6 +826,8 @@ int sim_lifted_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *m
 
         for (ii = 0; ii < ns; ii++)  // ii-th row of tableau
         {
+            t_current = in->t0 + ss * step + opts->c_vec[ii] * step;
+
             // take x(n); copy a strvec into a strvec
             blasfeo_dveccp(nx, xn, 0, xt, 0);
 
-- 
2.43.0


From f5ea13a7defee042bc4f78808a772bbeb464b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:07 +0000
Subject: [PATCH 114/117] fix: option integrator_cost of the cost modules was
 read as int although a bool is passed

---
 acados/ocp_nlp/ocp_nlp_cost_conl.c | 2 +-
 acados/ocp_nlp/ocp_nlp_cost_nls.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_conl.c b/acados/ocp_nlp/ocp_nlp_cost_conl.c
index b805f3d..990c7fb 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_conl.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_conl.c
@@ -390,7 +390,7 @@ void ocp_nlp_cost_conl_opts_set(void *config_, void *opts_, const char *field, v
     }
     else if(!strcmp(field, "integrator_cost"))
     {
-        int *opt_val = (int *) value;
+        bool *opt_val = (bool *) value;
         opts->integrator_cost = *opt_val;
     }
     else if (!strcmp(field, "add_hess_contribution"))
diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index 200d0bd..21e1ef6 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -477,7 +477,7 @@ void ocp_nlp_cost_nls_opts_set(void *config_, void *opts_, const char *field, vo
     }
     else if(!strcmp(field, "integrator_cost"))
     {
-        int *opt_val = (int *) value;
+        bool *opt_val = (bool *) value;
         opts->integrator_cost = *opt_val;
     }
     else if(!strcmp(field, "with_solution_sens_wrt_params_forw"))
-- 
2.43.0


From c57952088a0162b08df67d9697a3fa05d52263a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:34 +0000
Subject: [PATCH 115/117] fix: AcadosSimSolver.get: C writes two dimensions
 into an array of one

---
 interfaces/acados_template/acados_template/acados_sim_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_sim_solver.py b/interfaces/acados_template/acados_template/acados_sim_solver.py
index 8bd191c..bba583f 100644
--- a/interfaces/acados_template/acados_template/acados_sim_solver.py
+++ b/interfaces/acados_template/acados_template/acados_sim_solver.py
@@ -390,7 +390,7 @@ class AcadosSimSolver:
 
         if field_ in self.gettable_vectors:
             # get dims
-            dims = np.zeros((1,), dtype=np.intc, order='F')
+            dims = np.zeros((2,), dtype=np.intc, order='F')
             dims_data = cast(dims.ctypes.data, POINTER(c_int))
 
             self.__acados_lib.sim_dims_get_from_attr(self.sim_config, self.sim_dims, field, dims_data)
-- 
2.43.0


From 79461e1b9ee9c9e3731bd984fac2c5c43591c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:00 +0000
Subject: [PATCH 116/117] fix: generated solver: memory of the sensitivity
 functions of h was not released

---
 .../acados_template/c_templates_tera/acados_solver.in.c  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 19b792b..ca46ac9 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -3918,6 +3918,15 @@ int {{ name }}_acados_free({{ name }}_solver_capsule* capsule)
   {%- if solver_options.hessian_approx == "EXACT" %}
     free(capsule->nl_constr_h_fun_jac_hess);
   {%- endif %}
+  {%- if code_gen_options.with_solution_sens_wrt_params_forw %}
+    free(capsule->nl_constr_h_jac_p_hess_xu_p);
+  {%- endif %}
+  {%- if code_gen_options.with_solution_sens_wrt_params_adj %}
+    free(capsule->nl_constr_h_hess_ux_pdiff_adj_pdiff);
+  {%- endif %}
+  {%- if code_gen_options.with_value_sens_wrt_params %}
+    free(capsule->nl_constr_h_adj_p);
+  {%- endif %}
 
 {%- elif constraints.constr_type == "BGP" and dims.nphi > 0 %}
     for (int i = 0; i < N-1; i++)
-- 
2.43.0


From eb4e8a9c1cc9a0c9472d184d4fd1e7c44ce69a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:52 +0000
Subject: [PATCH 117/117] fix: ocp_nlp_out_set_values_to_zero wrote a
 multiplier of the dynamics beyond the horizon

---
 interfaces/acados_c/ocp_nlp_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_c/ocp_nlp_interface.c b/interfaces/acados_c/ocp_nlp_interface.c
index 2a13226..0b8c4ba 100644
--- a/interfaces/acados_c/ocp_nlp_interface.c
+++ b/interfaces/acados_c/ocp_nlp_interface.c
@@ -686,7 +686,8 @@ void ocp_nlp_out_set_values_to_zero(ocp_nlp_config *config, ocp_nlp_dims *dims,
     {
         blasfeo_dvecse(dims->nv[i], 0.0, &out->ux[i], 0);
         blasfeo_dvecse(dims->nz[i], 0.0, &out->z[i], 0);
-        blasfeo_dvecse(dims->nx[i+1], 0.0, &out->pi[i], 0);
+        if (i < N)
+            blasfeo_dvecse(dims->nx[i+1], 0.0, &out->pi[i], 0);
         blasfeo_dvecse(2*dims->ni[i], 0.0, &out->lam[i], 0);
     }
 }
-- 
2.43.0

