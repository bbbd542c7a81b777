From e7ecc74984979a5e53e2e71ae48f4f40e401e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 01/55] fix: l1_gradient tests |x| (not sign(x)) against
 zero_tol

With exactly one entry within zero_tol of 0 but not equal to 0, both reported
one-sided gradients were sign(x).
---
 neural_network_lyapunov/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index da34766..892547f 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1437,19 +1437,19 @@ def l1_gradient(x: torch.Tensor,
 
     if not torch.any(torch.abs(x) <= zero_tol):
         return torch.sign(x).reshape((1, -1))
-    elif torch.sum(torch.abs(x) < zero_tol) == 1:
+    elif torch.sum(torch.abs(x) <= zero_tol) == 1:
         s = torch.sign(x)
         s_plus = s.clone()
-        s_plus[torch.abs(s_plus) <= zero_tol] = 1
+        s_plus[torch.abs(x) <= zero_tol] = 1
         s_minus = s.clone()
-        s_minus[torch.abs(s_minus) <= zero_tol] = -1
+        s_minus[torch.abs(x) <= zero_tol] = -1
         if subgradient_samples is None:
             return torch.vstack((s_plus, s_minus))
         else:
             s_list = [s_plus, s_minus]
             for i in range(subgradient_samples.size):
                 s_subgradient = s.clone()
-                s_subgradient[torch.abs(s_subgradient) <=
+                s_subgradient[torch.abs(x) <=
                               zero_tol] = subgradient_samples[i]
                 s_list.append(s_subgradient)
             return torch.vstack(s_list)
-- 
2.43.0


From 151ae32950b0be962d99e0fcc0e504170f779c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 02/55] fix: max_as_mixed_integer_constraint with exactly one
 non-maximal entry

squeeze() dropped the index dimension when a single x[i] could never be the
maximum, and the function raised TypeError.
---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 892547f..8972a31 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -104,7 +104,7 @@ def max_as_mixed_integer_constraint(
     non_maximal_idx = torch.nonzero(
         torch.any(x_up.unsqueeze(1).repeat(1, nx) -
                   x_lo.unsqueeze(1).T.repeat(nx, 1) < 0,
-                  dim=1)).squeeze().tolist()
+                  dim=1)).squeeze(1).tolist()
     if (len(non_maximal_idx) > 0):
         Aeq_binary_non_maximal = torch.zeros((len(non_maximal_idx), nx),
                                              dtype=dtype)
-- 
2.43.0


From d9b246806a7992b10e5ae8eec84cafe798498afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 03/55] fix: pad the binary bounds of concatenated constraints
 with the second block's size

---
 neural_network_lyapunov/gurobi_torch_mip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 038fc3e..5a1e30c 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -341,7 +341,7 @@ def concatenate_mixed_integer_constraints(
         ret.binary_up = take_minimum(cnstr1.binary_up, cnstr2.binary_up)
     else:
         num_binary1 = cnstr1.num_binary()
-        num_binary2 = cnstr1.num_binary()
+        num_binary2 = cnstr2.num_binary()
         ret.binary_lo = stack_bounds(cnstr1.binary_lo, cnstr2.binary_lo,
                                      num_binary1, num_binary2, False)
         ret.binary_up = stack_bounds(cnstr1.binary_up, cnstr2.binary_up,
-- 
2.43.0


From f091b1d5ddb768ecccb5cd4b539ce231bbc6495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 04/55] fix: transform_input no longer overwrites tensors
 shared with other constraints

---
 neural_network_lyapunov/gurobi_torch_mip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 5a1e30c..0ad20e2 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -137,14 +137,14 @@ class MixedIntegerConstraintsReturn:
             Aout_input * b + Cout.
         """
         if self.Ain_input is not None:
-            self.rhs_in -= self.Ain_input @ b
+            self.rhs_in = self.rhs_in - self.Ain_input @ b
             self.Ain_input = self.Ain_input @ A
         if self.Aeq_input is not None:
-            self.rhs_eq -= self.Aeq_input @ b
+            self.rhs_eq = self.rhs_eq - self.Aeq_input @ b
             self.Aeq_input = self.Aeq_input @ A
         if self.Aout_input is not None:
             if self.Cout is not None:
-                self.Cout += self.Aout_input @ b
+                self.Cout = self.Cout + self.Aout_input @ b
             else:
                 self.Cout = self.Aout_input @ b
             self.Aout_input = self.Aout_input @ A
-- 
2.43.0


From 7a4f9eaeb9f90b67ab593895ac752c52b946d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 05/55] fix: transform_input refuses blocks with input bounds
 instead of keeping stale bounds

---
 neural_network_lyapunov/gurobi_torch_mip.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 0ad20e2..41c23c4 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -136,6 +136,8 @@ class MixedIntegerConstraintsReturn:
         Aout_input * A * x + Aout_slack * s + Aout_binary * binary +
             Aout_input * b + Cout.
         """
+        assert (self.input_lo is None and self.input_up is None), \
+            "transform_input(): cannot handle non-empty input_lo or input_up"
         if self.Ain_input is not None:
             self.rhs_in = self.rhs_in - self.Ain_input @ b
             self.Ain_input = self.Ain_input @ A
@@ -148,9 +150,6 @@ class MixedIntegerConstraintsReturn:
             else:
                 self.Cout = self.Aout_input @ b
             self.Aout_input = self.Aout_input @ A
-        if self.input_lo is not None or self.input_up is not None:
-            assert ("transform_input(): cannot handle non-empty input_lo or " +
-                    "input_up")
 
 
 def concatenate_mixed_integer_constraints(
-- 
2.43.0


From 8a4b394bffc098129ece4c1808bef247f015bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 06/55] fix: addLConstr leaves the solver model untouched when
 it rejects the constraint

---
 neural_network_lyapunov/gurobi_torch_mip.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 41c23c4..f4a4541 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -502,10 +502,6 @@ class GurobiTorchMIP:
             assert (isinstance(coeff, torch.Tensor))
             expr += gurobipy.LinExpr(coeff.tolist(), var)
             num_vars += len(var)
-        constr = self.gurobi_model.addLConstr(expr,
-                                              sense=sense,
-                                              rhs=rhs_tensor,
-                                              name=name)
         # r_used_flag[i] records if r[i] has appeared in @p variables.
         r_used_flag = [False] * len(self.r)
         zeta_used_flag = [False] * len(self.zeta)
@@ -568,6 +564,11 @@ class GurobiTorchMIP:
                 else:
                     raise Exception("addLConstr: unknown variable " +
                                     var[i].VarName)
+        # Only touch the model after all variables are known to be valid.
+        constr = self.gurobi_model.addLConstr(expr,
+                                              sense=sense,
+                                              rhs=rhs_tensor,
+                                              name=name)
         if sense == gurobipy.GRB.EQUAL:
             if num_cont_vars > 0:
                 self.Aeq_r_row.extend(new_Aeq_r_row[:num_cont_vars])
-- 
2.43.0


From aad1987c5faf03fed6d52bc166db5710ebc38411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 07/55] fix: addMConstr and setObjective reject unknown
 variables instead of dropping them

---
 neural_network_lyapunov/gurobi_torch_mip.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index f4a4541..1d3093b 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -612,6 +612,10 @@ class GurobiTorchMIP:
         assert (all([len(Ai.shape) == 2 for Ai in A]))
         A_flat = torch.cat(A, dim=1)
         x_flat = [v for xi in x for v in xi]
+        for v in x_flat:
+            if v not in self.r_indices.keys() and \
+                    v not in self.zeta_indices.keys():
+                raise Exception("addMConstr: unknown variable " + v.VarName)
         constr = self.gurobi_model.addMConstr(A_flat.detach().numpy(),
                                               x_flat,
                                               sense=sense,
@@ -1098,6 +1102,9 @@ class GurobiTorchMILP(GurobiTorchMIP):
                                         var[i].VarName + " is duplicated.")
                     zeta_used_flag[zeta_index] = True
                     self.c_zeta[zeta_index] = coeff[i]
+                else:
+                    raise Exception("setObjective: unknown variable " +
+                                    var[i].VarName)
         if isinstance(constant, float):
             self.c_constant = torch.tensor(constant, dtype=self.dtype)
         elif isinstance(constant, torch.Tensor):
@@ -1222,6 +1229,9 @@ class GurobiTorchMIQP(GurobiTorchMIP):
                                         " is duplicated in linear cost.")
                     lin_zeta_used_flag[zeta_index] = True
                     self.c_zeta[zeta_index] = coeff[i]
+                else:
+                    raise Exception("setObjective: unknown variable " +
+                                    var[i].VarName)
         for coeff, (var_left, var_right) in zip(quad_coeffs, quad_variables):
             assert (isinstance(coeff, torch.Tensor))
             assert (coeff.shape == (len(var_left), len(var_right)))
-- 
2.43.0


From c342d31c410b972e62388d18dddeb0158e7114cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 08/55] fix: MIQP objective from problem data accounts for the
 continuous-binary cross terms

---
 neural_network_lyapunov/gurobi_torch_mip.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 1d3093b..02130e3 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -1315,16 +1315,16 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         If we fix the binary variable ζ, and take out the active linear
         constraints as A_act * r = b_act, then the optimal solution and cost of
         the QP can be computed from the KKT condition
-        [2*Qᵣ, A_actᵀ] * [r] = [ -cᵣ ]
+        [2*Qᵣ, A_actᵀ] * [r] = [ -cᵣ - Q_rzeta*ζ ]
         [ A_act,   0 ]   [λ]   [b_act]
         where λ is the dual variable. We could compare the pair of primal/dual
         variable (r, λ) as
-        [r] = [2*Qᵣ, A_actᵀ]⁻¹ * [ -cᵣ ]
+        [r] = [2*Qᵣ, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta*ζ ]
         [λ]   [ A_act,   0 ]     [b_act]
         since the matrix is not invertible (it is psd but not positive
         definite), so we add a small identity matrix to make sure it is
         invertible
-        [r] = [2*Qᵣ + εI, A_actᵀ]⁻¹ * [ -cᵣ ]
+        [r] = [2*Qᵣ + εI, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta*ζ ]
         [λ]   [ A_act,       εI ]     [b_act]
         We can then compute the optimal cost
         rᵀQᵣr + ζᵀ*Q_zeta*ζ + rᵀ*Q_rzeta*ζ+cᵣᵀr+c_zetaᵀζ + c_constant as a
@@ -1346,7 +1346,8 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         M[len(self.r):, len(self.r):] =\
             penalty * torch.eye(len(b_act), dtype=self.dtype)
 
-        primal_dual = torch.inverse(M) @ torch.cat((-self.c_r, b_act), axis=0)
+        primal_dual = torch.inverse(M) @ torch.cat(
+            (-self.c_r - self.Q_rzeta @ zeta_sol, b_act), axis=0)
         r = primal_dual[:len(self.r)]
         return r @ (self.Q_r @ r) + zeta_sol @ (self.Q_zeta @ zeta_sol) +\
             r @ (self.Q_rzeta @ zeta_sol) + self.c_r @ r +\
-- 
2.43.0


From 5e8a46774da65eb5c1810f798e1d0717e96f4c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 09/55] fix: MIQP objective from problem data handles a
 non-symmetric quadratic cost matrix

---
 neural_network_lyapunov/gurobi_torch_mip.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 02130e3..518f8a3 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -1315,16 +1315,16 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         If we fix the binary variable ζ, and take out the active linear
         constraints as A_act * r = b_act, then the optimal solution and cost of
         the QP can be computed from the KKT condition
-        [2*Qᵣ, A_actᵀ] * [r] = [ -cᵣ - Q_rzeta*ζ ]
+        [Qᵣ + Qᵣᵀ, A_actᵀ] * [r] = [ -cᵣ - Q_rzeta*ζ ]
         [ A_act,   0 ]   [λ]   [b_act]
         where λ is the dual variable. We could compare the pair of primal/dual
         variable (r, λ) as
-        [r] = [2*Qᵣ, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta*ζ ]
+        [r] = [Qᵣ + Qᵣᵀ, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta*ζ ]
         [λ]   [ A_act,   0 ]     [b_act]
         since the matrix is not invertible (it is psd but not positive
         definite), so we add a small identity matrix to make sure it is
         invertible
-        [r] = [2*Qᵣ + εI, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta*ζ ]
+        [r] = [Qᵣ + Qᵣᵀ + εI, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta*ζ ]
         [λ]   [ A_act,       εI ]     [b_act]
         We can then compute the optimal cost
         rᵀQᵣr + ζᵀ*Q_zeta*ζ + rᵀ*Q_rzeta*ζ+cᵣᵀr+c_zetaᵀζ + c_constant as a
@@ -1340,7 +1340,8 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         M = torch.zeros((len(self.r) + len(b_act), len(self.r) + len(b_act)),
                         dtype=self.dtype)
         M[:len(self.r), :len(self.r)] =\
-            2 * self.Q_r + penalty * torch.eye(len(self.r), dtype=self.dtype)
+            self.Q_r + self.Q_r.T +\
+            penalty * torch.eye(len(self.r), dtype=self.dtype)
         M[:len(self.r), len(self.r):] = A_act.T
         M[len(self.r):, :len(self.r)] = A_act
         M[len(self.r):, len(self.r):] =\
-- 
2.43.0


From aaa8f44b656cf9271132466589c7ab472ccaab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 10/55] fix: discrete-time cost-to-go sampling skips
 trajectories that leave the domain

---
 neural_network_lyapunov/hybrid_linear_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index d4f63d5..8907ad3 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -698,7 +698,10 @@ def compute_discrete_time_system_cost_to_go(system,
                 mode = j
                 x_steps[i + 1] = system.A[j] @ x_steps[i] + system.g[j]
                 break
-        assert (mode is not None)
+        if mode is None:
+            raise AutonomousHybridLinearSystem.StepForwardException(
+                "compute_discrete_time_system_cost_to_go(): the state is " +
+                "not in any mode.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
         total_cost += cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
-- 
2.43.0


From 5ce36e906f483515dc0b6ffec3f30394ebe52f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 11/55] fix: partition_state_input_space keeps the cell
 boundaries in double precision

---
 neural_network_lyapunov/hybrid_linear_system.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index 8907ad3..81737a0 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -912,14 +912,14 @@ def partition_state_input_space(x_lo, x_up, u_lo, u_up, num_breaks_x,
     states_u_up = torch.Tensor(0, u_dim).type(dtype)
     for k in range(indices_cart_product.shape[0]):
         indices = indices_cart_product[k, :]
-        sample = torch.Tensor([
+        sample = torch.tensor([
             grid_samples[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        ], dtype=dtype)
         x_sample = sample[:x_dim]
         u_sample = sample[x_dim:x_dim + u_dim]
-        sample_limits = torch.Tensor([
+        sample_limits = torch.tensor([
             grid_limits[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        ], dtype=dtype)
         sample_lo = sample_limits[:, 0]
         sample_up = sample_limits[:, 1]
         x_sample_lo = sample_lo[:x_dim] - x_delta_scaled
-- 
2.43.0


From 98a0c4bd382308536bfdc09804b21e42d473bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 12/55] fix: discrete-time cost-to-go no longer accumulates
 into the tensor returned by the cost function

---
 neural_network_lyapunov/hybrid_linear_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index 81737a0..27a12b3 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -703,7 +703,7 @@ def compute_discrete_time_system_cost_to_go(system,
                 "compute_discrete_time_system_cost_to_go(): the state is " +
                 "not in any mode.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
-        total_cost += cost_steps[i + 1]
+        total_cost = total_cost + cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
     x_steps = torch.stack(x_steps[:terminal_step + 1], axis=1)
     costs = torch.stack([
-- 
2.43.0


From cc688b1a09d98d0a55560efcb35a1e570f3fee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 13/55] fix: LineSearchGD tests Armijo's rule with the step
 size that was tried

---
 neural_network_lyapunov/line_search_gd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/line_search_gd.py b/neural_network_lyapunov/line_search_gd.py
index 2b92b80..0b1df16 100644
--- a/neural_network_lyapunov/line_search_gd.py
+++ b/neural_network_lyapunov/line_search_gd.py
@@ -118,7 +118,7 @@ class LineSearchGD(Optimizer):
         while alpha > min_step_size_decrease:
             loss = self.directional_evaluate(closure, p,
                                              (alpha - alpha_prev) * t, d_p)
-            if loss <= loss0 + t * increment and \
+            if loss <= loss0 + alpha * t * increment and \
                     loss <= loss0 - min_improvement:
                 return loss
             alpha_prev = alpha
-- 
2.43.0


From 4afae61ba3acef326435e66d09def6d1a2c7c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 14/55] fix: LineSearchGD moves each parameter with the
 learning rate of its own group

---
 neural_network_lyapunov/line_search_gd.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/line_search_gd.py b/neural_network_lyapunov/line_search_gd.py
index 0b1df16..98fb02e 100644
--- a/neural_network_lyapunov/line_search_gd.py
+++ b/neural_network_lyapunov/line_search_gd.py
@@ -99,7 +99,7 @@ class LineSearchGD(Optimizer):
 
     def directional_evaluate(self, closure, p, t, d_p):
         for i in range(len(p)):
-            self.add_grad(p[i], t, d_p[i])
+            self.add_grad(p[i], t[i], d_p[i])
         loss = closure()
         return loss
 
@@ -111,14 +111,15 @@ class LineSearchGD(Optimizer):
             min_improvement = group['min_improvement']
 
         increment = loss_minimal_decrement * torch.sum(
-            torch.stack([torch.sum(p[i].grad * d_p[i])
+            torch.stack([t[i] * torch.sum(p[i].grad * d_p[i])
                          for i in range(len(p))]))
         alpha_prev = 0
         alpha = 1
         while alpha > min_step_size_decrease:
             loss = self.directional_evaluate(closure, p,
-                                             (alpha - alpha_prev) * t, d_p)
-            if loss <= loss0 + alpha * t * increment and \
+                                             [(alpha - alpha_prev) * ti
+                                              for ti in t], d_p)
+            if loss <= loss0 + alpha * increment and \
                     loss <= loss0 - min_improvement:
                 return loss
             alpha_prev = alpha
@@ -135,6 +136,7 @@ class LineSearchGD(Optimizer):
         """
         assert (isinstance(loss0, float))
         p_all = []
+        step_size_all = []
         dp_all = []
         for group in self.param_groups:
             weight_decay = group['weight_decay']
@@ -162,5 +164,6 @@ class LineSearchGD(Optimizer):
                     else:
                         d_p = buf
                 p_all.append(p)
+                step_size_all.append(lr)
                 dp_all.append(-d_p.clone())
-        return self.line_search(loss0, closure, p_all, lr, dp_all)
+        return self.line_search(loss0, closure, p_all, step_size_all, dp_all)
-- 
2.43.0


From 27fddcd665b4543608a05f52ffba19bbdd9c7381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 15/55] fix: sign of the velocity cross term in the vertical
 dynamics of the pole

---
 neural_network_lyapunov/examples/pole/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/examples/pole/pole.py b/neural_network_lyapunov/examples/pole/pole.py
index 7c07dbe..79c19a7 100644
--- a/neural_network_lyapunov/examples/pole/pole.py
+++ b/neural_network_lyapunov/examples/pole/pole.py
@@ -61,7 +61,7 @@ class Pole:
                 0, 0,
                 (self.m_ee + self.m_sphere) * self.gravity - self.m_sphere *
                 (xd_AB**2 * (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                 (self.length**2 - x_AB**2) / z_AB**3 -
+                 (self.length**2 - x_AB**2) / z_AB**3 +
                  2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3),
                 -self.m_sphere * self.gravity * x_AB / z_AB +
                 self.m_sphere * x_AB *
@@ -97,7 +97,7 @@ class Pole:
                     self.m_ee) * self.gravity - self.m_sphere * (
                         xd_AB**2 *
                         (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                        (self.length**2 - x_AB**2) / z_AB**3 -
+                        (self.length**2 - x_AB**2) / z_AB**3 +
                         2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3)
             C[3] = -self.m_sphere * self.gravity * x_AB / z_AB + \
                 self.m_sphere * x_AB * (
-- 
2.43.0


From be4d0d34a60b43e3b89662efc2a73c12979ab76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 16/55] fix: AccelerationCar.dynamics stacks scalars for
 tensors instead of concatenating them

---
 neural_network_lyapunov/examples/car/acceleration_car.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index 0e3fd64..cfe5f69 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -30,7 +30,7 @@ class AccelerationCar:
             pos_dot = np.array([np.cos(theta) * vel, np.sin(theta) * vel])
             return np.array([pos_dot[0], pos_dot[1], u[0], u[1]])
         elif isinstance(x, torch.Tensor):
-            return torch.cat(
+            return torch.stack(
                 (torch.cos(theta) * vel, torch.sin(theta) * vel, u[0], u[1]))
 
     def next_pose(self, x, u, dt):
-- 
2.43.0


From f022f5b7be091f6b13b3d3b416d692cbdaf11db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 17/55] fix: PybulletSampleGenerator reads the state of every
 joint, not only of the first one

---
 neural_network_lyapunov/pybullet_data_generation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 6b1be58..0c68386 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -225,8 +225,8 @@ class PybulletSampleGenerator:
             pb.stepSimulation()
         if self.joint_space:
             state = pb.getJointStates(self.robot_id, list(range(len(q0))))
-            q1 = state[0][:len(q0)]
-            v1 = state[0][len(q0):len(q0) + len(v0)]
+            q1 = [joint_state[0] for joint_state in state]
+            v1 = [joint_state[1] for joint_state in state]
             q1 = torch.tensor(q1, dtype=self.dtype)
             v1 = torch.tensor(v1, dtype=self.dtype)
             x1 = torch.cat((q1, v1))
-- 
2.43.0


From ab31235b72657d495e3a2b8d2180a8f18a84bd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 18/55] fix: show_sample clamps the next image to [0, 1] like
 the first one

---
 neural_network_lyapunov/pybullet_data_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 0c68386..ac004cb 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -19,7 +19,7 @@ def show_sample(X_sample, X_next_sample=None, clamp=False):
     if clamp:
         X_sample = torch.clamp(X_sample, 0, 1)
         if X_next_sample is not None:
-            X_next_sample = torch.clamp(X_next_sample)
+            X_next_sample = torch.clamp(X_next_sample, 0, 1)
     if X_sample.shape[0] == 6:
         num_channels = 3
         cmap = None
-- 
2.43.0


From a0fea67f1cbe48d4dc9351aade74d204b0ee6432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 19/55] fix: generate_sample no longer loses a simulation step
 to floating point

---
 neural_network_lyapunov/pybullet_data_generation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index ac004cb..da23ead 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -193,7 +193,8 @@ class PybulletSampleGenerator:
         assert (isinstance(x0, torch.Tensor))
         assert (len(x0) == self.x_dim)
         pb.restoreState(self.state_id)
-        num_step = int(dt * (.5 / self.timestep))
+        # Guard against dt * 120 landing just below an integer.
+        num_step = int(dt * (.5 / self.timestep) + 1E-6)
         X = np.zeros((6, self.image_width, self.image_height), dtype=np.uint8)
         X_next = np.zeros((3, self.image_width, self.image_height),
                           dtype=np.uint8)
-- 
2.43.0


From a7be43aa66ba9821890feb9f08c33e1381a7cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 20/55] fix: each PybulletSampleGenerator talks to its own
 simulation

---
 .../pybullet_data_generation.py                   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index da23ead..1f0a0d7 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -1,6 +1,7 @@
 import torch
 import numpy as np
-import pybullet as pb
+import pybullet
+from pybullet_utils import bullet_client
 import matplotlib.pyplot as plt
 from torch.utils.data import TensorDataset, DataLoader
 
@@ -132,10 +133,11 @@ class PybulletSampleGenerator:
         @param gui: boolean to show the gui or not
         """
         self.dtype = dtype
-        if gui:
-            self.physics_client = pb.connect(pb.GUI)
-        else:
-            self.physics_client = pb.connect(pb.DIRECT)
+        # Every call goes to the simulation of this generator; pybullet would
+        # otherwise use the first one that was connected.
+        pb = self.pb = bullet_client.BulletClient(
+            pybullet.GUI if gui else pybullet.DIRECT)
+        self.physics_client = pb._client
         pb.setGravity(0, 0, -9.8)
         self.timestep = 1. / 240.
         pb.setTimeStep(self.timestep)
@@ -174,7 +176,7 @@ class PybulletSampleGenerator:
         self.state_id = pb.saveState()
 
     def __del__(self):
-        pb.disconnect(self.physics_client)
+        self.pb.disconnect()
 
     def generate_sample(self, x0, dt):
         """
@@ -192,6 +194,7 @@ class PybulletSampleGenerator:
         """
         assert (isinstance(x0, torch.Tensor))
         assert (len(x0) == self.x_dim)
+        pb = self.pb
         pb.restoreState(self.state_id)
         # Guard against dt * 120 landing just below an integer.
         num_step = int(dt * (.5 / self.timestep) + 1E-6)
-- 
2.43.0


From df9ffeb9ba9d51fbbc402491ffd31a5548c4e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 21/55] fix: generate_obstacles draws scalars for the obstacle
 positions and sizes

---
 neural_network_lyapunov/examples/car/utils_simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/examples/car/utils_simulation.py b/neural_network_lyapunov/examples/car/utils_simulation.py
index 1427ab7..3bf92be 100644
--- a/neural_network_lyapunov/examples/car/utils_simulation.py
+++ b/neural_network_lyapunov/examples/car/utils_simulation.py
@@ -154,16 +154,16 @@ def generate_obstacles(p, heightObs, robotRadius):
 
         posObs_obs = np.array([None] * 3)
         posObs_obs[0] = x_lim[0] + \
-            (x_lim[1] - x_lim[0]) * np.random.random_sample(1)
+            (x_lim[1] - x_lim[0]) * np.random.random_sample()
         posObs_obs[1] = 2.0 + y_lim[0] + \
             (y_lim[1] - y_lim[0] - 2.0) * \
-            np.random.random_sample(1)  # Push up a bit
+            np.random.random_sample()  # Push up a bit
         posObs_obs[2] = 0  # set z at ground level
         posObs[obs] = posObs_obs  # .tolist()
         orientObs[obs] = [0, 0, 0, 1]
         colIdxs[obs] = p.createCollisionShape(
             p.GEOM_CYLINDER,
-            radius=(0.25 - 0.1) * np.random.random_sample(1) + 0.1,
+            radius=(0.25 - 0.1) * np.random.random_sample() + 0.1,
             height=heightObs)
 
     # Create bounding objects
-- 
2.43.0


From da8b475ae5bb60e8c3b36da97ed6c18277dec4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 22/55] fix: SearchRwithSPDOptions.extract_params uses the
 attributes the class has

---
 neural_network_lyapunov/r_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/r_options.py b/neural_network_lyapunov/r_options.py
index fcb3d7c..a2f7ff4 100644
--- a/neural_network_lyapunov/r_options.py
+++ b/neural_network_lyapunov/r_options.py
@@ -111,8 +111,8 @@ class SearchRwithSPDOptions(ROptions):
     def extract_params(self):
         return {
             "R_size": self.R_size,
-            "R_epsilon": self.R_epsilon,
-            "R_variables": self.R_variables()
+            "R_epsilon": self.epsilon,
+            "R_variables": self.variables()
         }
 
 
-- 
2.43.0


From dfa2aa803b444786cb928d0ee8f0fdc6f30a7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 23/55] fix: R options keep their own copy of the values they
 are given

---
 neural_network_lyapunov/r_options.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/r_options.py b/neural_network_lyapunov/r_options.py
index a2f7ff4..91fa7f0 100644
--- a/neural_network_lyapunov/r_options.py
+++ b/neural_network_lyapunov/r_options.py
@@ -75,7 +75,7 @@ class SearchRwithSPDOptions(ROptions):
     def set_variable_value_directly(self, variable_val: np.ndarray):
         assert (isinstance(variable_val, np.ndarray))
         assert (variable_val.shape == self._variables.shape)
-        self._variables = torch.from_numpy(variable_val)
+        self._variables = torch.from_numpy(variable_val).clone()
         self._variables.requires_grad = True
 
     def R(self):
@@ -178,7 +178,7 @@ class SearchRwithSVDOptions(ROptions):
     def set_variable_value_directly(self, variable_val: np.ndarray):
         assert (isinstance(variable_val, np.ndarray))
         assert (variable_val.shape == (np.min(self.R_size), ))
-        self._variables = torch.from_numpy(variable_val)
+        self._variables = torch.from_numpy(variable_val).clone()
         self._variables.requires_grad = True
 
     def R(self):
@@ -232,13 +232,13 @@ class SearchRfreeOptions(ROptions):
     def set_variable_value(self, R_val: np.ndarray):
         assert (isinstance(R_val, np.ndarray))
         assert (R_val.shape == self.R_size)
-        self._variables = torch.from_numpy(R_val)
+        self._variables = torch.from_numpy(R_val).clone()
         self._variables.requires_grad = True
 
     def set_variable_value_directly(self, variable_val: np.ndarray):
         assert (isinstance(variable_val, np.ndarray))
         assert (variable_val.shape == self.R_size)
-        self._variables = torch.from_numpy(variable_val)
+        self._variables = torch.from_numpy(variable_val).clone()
         self._variables.requires_grad = True
 
     def R(self):
-- 
2.43.0


From ca566b36795f6c6a708e5b0d16ed1abfa72a0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 24/55] fix: update_relu_params copies the parameters instead
 of sharing their memory

---
 neural_network_lyapunov/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 8972a31..f489cf7 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1004,13 +1004,13 @@ def update_relu_params(relu, params: torch.Tensor):
         if isinstance(layer, torch.nn.Linear):
             layer.weight.data = params[params_count:params_count +
                                        layer.in_features *
-                                       layer.out_features].reshape(
+                                       layer.out_features].clone().reshape(
                                            (layer.out_features,
                                             layer.in_features))
             params_count += layer.in_features * layer.out_features
             if layer.bias is not None:
                 layer.bias.data = params[params_count:params_count +
-                                         layer.out_features]
+                                         layer.out_features].clone()
                 params_count += layer.out_features
 
 
-- 
2.43.0


From 7edd46fb4a441e1f4088daf7b275346eaf71d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 25/55] fix: linear_program_cost handles more than one active
 inequality

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index f489cf7..88e838b 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -888,7 +888,7 @@ def linear_program_cost(c, d, A_in, b_in, A_eq, b_eq):
     b_act = torch.empty((num_act, ), dtype=torch.float64)
     A_act[:num_eq, :] = A_eq
     b_act[:num_eq] = b_eq
-    active_in_indices = np.nonzero(active_in_flag)
+    active_in_indices = np.nonzero(active_in_flag)[0]
     for i in range(num_act - num_eq):
         A_act[i + num_eq] = A_in[active_in_indices[i]]
         b_act[i + num_eq] = b_in[active_in_indices[i]]
-- 
2.43.0


From 25814542f50639542d6d979aef550849a9564a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 26/55] fix: uniform_sample_on_box_boundary no longer indexes
 past the last dimension

---
 neural_network_lyapunov/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 88e838b..bf12b7b 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1345,8 +1345,9 @@ def uniform_sample_on_box_boundary(lo: torch.Tensor, hi: torch.Tensor,
     x_dim = lo.numel()
     boundary_face_rand = torch.rand((num_samples, )) * 2 - 1
     for i in range(num_samples):
-        boundary_face_index = int(
-            (torch.abs(boundary_face_rand[i]) * x_dim).item())
+        # boundary_face_rand[i] can be exactly -1.
+        boundary_face_index = min(
+            int((torch.abs(boundary_face_rand[i]) * x_dim).item()), x_dim - 1)
         samples_in_box[i, boundary_face_index] = lo[
             boundary_face_index] if boundary_face_rand[i] < 0 else hi[
                 boundary_face_index]
-- 
2.43.0


From 4d08c1ebd445d40e819901ded70a8df616f2640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:40 +0000
Subject: [PATCH 27/55] fix: SearchRwithSVDOptions keeps U and V when
 set_variable_value refuses a matrix

---
 neural_network_lyapunov/r_options.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/r_options.py b/neural_network_lyapunov/r_options.py
index 91fa7f0..46936d2 100644
--- a/neural_network_lyapunov/r_options.py
+++ b/neural_network_lyapunov/r_options.py
@@ -169,8 +169,9 @@ class SearchRwithSVDOptions(ROptions):
     def set_variable_value(self, R_val: np.ndarray):
         assert (isinstance(R_val, np.ndarray))
         assert (R_val.shape == self.R_size)
-        self.U, Sigma, self.V = np.linalg.svd(R_val)
+        U, Sigma, V = np.linalg.svd(R_val)
         assert (np.all(Sigma >= self.a))
+        self.U, self.V = U, V
         variable_val = np.sqrt(Sigma - self.a)
         self._variables = torch.from_numpy(variable_val)
         self._variables.requires_grad = True
-- 
2.43.0


From e3604605da31a0a5012b05c54d2440348b38ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 28/55] fix: SimplePWLLyapunov.add_continuity_constraint
 accepts any number of common vertices

---
 neural_network_lyapunov/simple_pwl_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/simple_pwl_lyapunov.py b/neural_network_lyapunov/simple_pwl_lyapunov.py
index f38258d..239cf29 100644
--- a/neural_network_lyapunov/simple_pwl_lyapunov.py
+++ b/neural_network_lyapunov/simple_pwl_lyapunov.py
@@ -147,7 +147,7 @@ class SimplePWLLyapunov:
         self.constraints.append(
             common_vertices @ (self.c[:, mode_i] - self.c[:, mode_j]) +
             (self.d[mode_i] - self.d[mode_j]) *
-            np.ones(common_vertices.shape[1]) == 0)
+            np.ones(common_vertices.shape[0]) == 0)
 
     def solve(self, weight):
         """
-- 
2.43.0


From a4d4261ba1ab05c2e9e2e4ebbebc1b2012456ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 29/55] Revert "fix: generate_obstacles draws scalars for the
 obstacle positions and sizes"

This reverts commit df9ffeb9ba9d51fbbc402491ffd31a5548c4e606.
---
 neural_network_lyapunov/examples/car/utils_simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/examples/car/utils_simulation.py b/neural_network_lyapunov/examples/car/utils_simulation.py
index 3bf92be..1427ab7 100644
--- a/neural_network_lyapunov/examples/car/utils_simulation.py
+++ b/neural_network_lyapunov/examples/car/utils_simulation.py
@@ -154,16 +154,16 @@ def generate_obstacles(p, heightObs, robotRadius):
 
         posObs_obs = np.array([None] * 3)
         posObs_obs[0] = x_lim[0] + \
-            (x_lim[1] - x_lim[0]) * np.random.random_sample()
+            (x_lim[1] - x_lim[0]) * np.random.random_sample(1)
         posObs_obs[1] = 2.0 + y_lim[0] + \
             (y_lim[1] - y_lim[0] - 2.0) * \
-            np.random.random_sample()  # Push up a bit
+            np.random.random_sample(1)  # Push up a bit
         posObs_obs[2] = 0  # set z at ground level
         posObs[obs] = posObs_obs  # .tolist()
         orientObs[obs] = [0, 0, 0, 1]
         colIdxs[obs] = p.createCollisionShape(
             p.GEOM_CYLINDER,
-            radius=(0.25 - 0.1) * np.random.random_sample() + 0.1,
+            radius=(0.25 - 0.1) * np.random.random_sample(1) + 0.1,
             height=heightObs)
 
     # Create bounding objects
-- 
2.43.0


From 798deaa7c7a0dffcdbb97c2af1ed1ccca6df1822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 30/55] Revert "fix: AccelerationCar.dynamics stacks scalars
 for tensors instead of concatenating them"

This reverts commit be4d0d34a60b43e3b89662efc2a73c12979ab76f.
---
 neural_network_lyapunov/examples/car/acceleration_car.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index cfe5f69..0e3fd64 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -30,7 +30,7 @@ class AccelerationCar:
             pos_dot = np.array([np.cos(theta) * vel, np.sin(theta) * vel])
             return np.array([pos_dot[0], pos_dot[1], u[0], u[1]])
         elif isinstance(x, torch.Tensor):
-            return torch.stack(
+            return torch.cat(
                 (torch.cos(theta) * vel, torch.sin(theta) * vel, u[0], u[1]))
 
     def next_pose(self, x, u, dt):
-- 
2.43.0


From b3d8c2502a9ec4d178b6c2574ae76c48b87eb480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 31/55] Revert "fix: sign of the velocity cross term in the
 vertical dynamics of the pole"

This reverts commit 27fddcd665b4543608a05f52ffba19bbdd9c7381.
---
 neural_network_lyapunov/examples/pole/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/examples/pole/pole.py b/neural_network_lyapunov/examples/pole/pole.py
index 79c19a7..7c07dbe 100644
--- a/neural_network_lyapunov/examples/pole/pole.py
+++ b/neural_network_lyapunov/examples/pole/pole.py
@@ -61,7 +61,7 @@ class Pole:
                 0, 0,
                 (self.m_ee + self.m_sphere) * self.gravity - self.m_sphere *
                 (xd_AB**2 * (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                 (self.length**2 - x_AB**2) / z_AB**3 +
+                 (self.length**2 - x_AB**2) / z_AB**3 -
                  2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3),
                 -self.m_sphere * self.gravity * x_AB / z_AB +
                 self.m_sphere * x_AB *
@@ -97,7 +97,7 @@ class Pole:
                     self.m_ee) * self.gravity - self.m_sphere * (
                         xd_AB**2 *
                         (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                        (self.length**2 - x_AB**2) / z_AB**3 +
+                        (self.length**2 - x_AB**2) / z_AB**3 -
                         2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3)
             C[3] = -self.m_sphere * self.gravity * x_AB / z_AB + \
                 self.m_sphere * x_AB * (
-- 
2.43.0


From 9faad11eff49986bf714cdea8d455ddbe6250496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 32/55] fix: project_gradient no longer divides by zero when a
 gradient vanishes

---
 neural_network_lyapunov/train_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_utils.py b/neural_network_lyapunov/train_utils.py
index 9a54b5b..c7fbaae 100644
--- a/neural_network_lyapunov/train_utils.py
+++ b/neural_network_lyapunov/train_utils.py
@@ -53,7 +53,7 @@ def project_gradient(network, loss1, loss2, mode, retain_graph=False):
     loss2.backward(retain_graph=retain_graph)
     n2 = torch.cat([p.grad.reshape((-1, )) for p in network.parameters()])
     with torch.no_grad():
-        if n1 @ n2 > 0:
+        if n1 @ n2 >= 0:
             grad = n1 + n2
             need_projection = False
         else:
-- 
2.43.0


From ef5784196b4d6da30fb0caad09ce7dc838fa9ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 33/55] fix: SecondOrderControlAffineSystem pads the input
 block of G with x_dim columns

---
 neural_network_lyapunov/control_affine_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/control_affine_system.py b/neural_network_lyapunov/control_affine_system.py
index 79382d9..5354582 100644
--- a/neural_network_lyapunov/control_affine_system.py
+++ b/neural_network_lyapunov/control_affine_system.py
@@ -215,7 +215,7 @@ class SecondOrderControlAffineSystem(ControlPiecewiseAffineSystem):
                     field]
         if mip_cnstr_b_flat.Aout_input is not None:
             ret.mip_cnstr_G.Aout_input = torch.vstack(
-                (torch.zeros((self.nq * self.u_dim, self.nq),
+                (torch.zeros((self.nq * self.u_dim, self.x_dim),
                              dtype=self.dtype), mip_cnstr_b_flat.Aout_input))
         if mip_cnstr_b_flat.Aout_slack is not None:
             ret.mip_cnstr_G.Aout_slack = torch.vstack((torch.zeros(
-- 
2.43.0


From d4ab70308eab678eebeeb62359603a066f2e8423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 34/55] fix: Lyapunov MILPs crash when the network ends in a
 single ReLU unit

add_lyap_relu_output_constraint squeezed the output coefficients of the
network, so a last hidden layer with one unit gave a 0-dimensional tensor
that setObjective/addLConstr can not take.
---
 neural_network_lyapunov/lyapunov.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index e4b480f..6484d44 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -86,7 +86,8 @@ class LyapunovHybridLinearSystem:
         relu_z, relu_beta = milp.add_mixed_integer_linear_constraints(
             mip_constr_return, x, None, slack_name, binary_var_name,
             "milp_relu_ineq", "milp_relu_eq", "", binary_var_type)
-        return (relu_z, relu_beta, mip_constr_return.Aout_slack.squeeze(),
+        return (relu_z, relu_beta,
+                mip_constr_return.Aout_slack.reshape((-1, )),
                 mip_constr_return.Cout.squeeze(), mip_constr_return)
 
     def add_state_error_l1_constraint(self,
@@ -213,7 +214,7 @@ class LyapunovHybridLinearSystem:
         # = a_out * z + b_out - ϕ(x*) + λ * s
         relu_at_equilibrium = self.lyapunov_relu.forward(x_equilibrium)
         V_coeff = [
-            a_out.squeeze(0), V_lambda * torch.ones(
+            a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=self.system.dtype)
         ]
         V_vars = [z, s]
@@ -294,7 +295,7 @@ class LyapunovHybridLinearSystem:
         # Now set the objective as -ϕ(x) + ϕ(x*) + (ε-λ)*|R(x−x*)|₁
         # = -a_out * z - b_out +  ϕ(x*) + (ε-λ) * s
         milp.setObjective([
-            -a_out.squeeze(), (V_epsilon - V_lambda) * torch.ones(
+            -a_out, (V_epsilon - V_lambda) * torch.ones(
                 (len(s), ), dtype=dtype)
         ], [z, s],
                           constant=-b_out + relu_at_equilibrium.squeeze(),
@@ -473,7 +474,7 @@ class LyapunovHybridLinearSystem:
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
@@ -1252,7 +1253,7 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
-- 
2.43.0


From 2c96336d4f50d1a375934e5ad3bafac9a517eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 35/55] fix: pass binary_var_type to the Lyapunov network in
 the continuous-time derivative MILP

With BINARYRELAX the network of V(x) stayed integer while the rest of the
program was relaxed, and the assertion on the variable types failed.
---
 neural_network_lyapunov/continuous_time_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 992ccb3..451a16e 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -99,7 +99,7 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
         # Adds the mixed-integer constraints to compute V(x).
         relu_slack, relu_binary, relu_a_out, relu_b_out,\
             relu_output_mip_cnstr_ret = self.add_lyap_relu_output_constraint(
-                milp, x)
+                milp, x, binary_var_type=binary_var_type)
 
         l1_slack, l1_binary = self.add_state_error_l1_constraint(
             milp,
-- 
2.43.0


From b6164f2bf56c8712aa06eab6520fa6b9b6771433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 36/55] fix: LyapunovContinuousTimeSystem.lyapunov_derivative
 crashes with R=None

---
 neural_network_lyapunov/lyapunov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index 6484d44..69c1875 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -497,6 +497,7 @@ class LyapunovHybridLinearSystem:
         gradient.
         """
         assert (x.shape == (self.system.x_dim, ))
+        R = _get_R(R, self.system.x_dim, x_equilibrium.device)
         dphidx = utils.relu_network_gradient(self.lyapunov_relu,
                                              x,
                                              zero_tol=zero_tol).squeeze(1)
-- 
2.43.0


From fee36e7cabed36f4b80dec98cead333c0862f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 37/55] fix:
 LyapunovContinuousTimeHybridSystem.lyapunov_derivative crashes for
 one-dimensional states

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 451a16e..2701f79 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -390,8 +390,8 @@ class LyapunovContinuousTimeHybridSystem(lyapunov.LyapunovHybridLinearSystem):
         for i in range(len(dReLU_dx_all)):
             for j in range(len(state_error_grad)):
                 dV_dx[i * len(state_error_grad) + j] = \
-                    dReLU_dx_all[i].squeeze() + \
-                    V_lambda * state_error_grad[j].squeeze()
+                    dReLU_dx_all[i].reshape((-1, )) + \
+                    V_lambda * state_error_grad[j]
         Vdot_all = [None] * (len(dV_dx) * len(xdot_all))
         for i in range(len(dV_dx)):
             for j in range(len(xdot_all)):
-- 
2.43.0


From 63959ea9b4b5560a0a0f28ff20301005f8ce0c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 38/55] fix: add_mixed_integer_linear_constraints rejects
 existing relaxed binary variables

A BINARYRELAX variable has the gurobi type CONTINUOUS, so the assertion that
compares v.vtype with BINARYRELAX could never hold.
---
 neural_network_lyapunov/gurobi_torch_mip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 518f8a3..8b282f4 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -777,7 +777,10 @@ class GurobiTorchMIP:
                     (isinstance(v, gurobipy.Var) for v in binary_var_name)):
                 binary = binary_var_name
                 assert (len(binary) == binary_size)
-                assert (all((v.vtype == binary_var_type for v in binary)))
+                # BINARYRELAX is registered in gurobi as continuous variables.
+                gurobi_vtype = gurobipy.GRB.CONTINUOUS if \
+                    binary_var_type == BINARYRELAX else binary_var_type
+                assert (all((v.vtype == gurobi_vtype for v in binary)))
         else:
             binary = []
 
-- 
2.43.0


From 69b5d0fb0c8e688aef0d5d3fc6f288289991a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 39/55] fix: region-of-attraction MILP misses successors in the
 corners outside the box

---
 neural_network_lyapunov/lyapunov.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index 69c1875..7a6ec16 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -1180,9 +1180,11 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # x_lo_larger <= x <= x_up_larger.
         # This region could be written as the union of boxes
         # box i: x_up(i) <= x(i) <= x_up_larger(i)
-        #        x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #        x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # box x_dim + i: x_lo_larger(i) <= x(i) <= x_lo(i)
-        #                       x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #                x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
+        # Note that x(j), j≠ i, ranges over the larger interval, so that the
+        # corners (where several x(j) are out of the box) are also covered.
         # If we denote the bounds for the i'th box as
         # x_box_lo_i <= x <= x_box_up_i
         # We need to introduce 2 * x_dim binary variables ζ to determine in
@@ -1206,14 +1208,11 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
                                       lb=-gurobipy.GRB.INFINITY,
                                       vtype=gurobipy.GRB.CONTINUOUS,
                                       name=f"t_slack[{i}]")
-            x_box_lo_i = torch.from_numpy(self.system.x_lo_all).clone()
-            x_box_up_i = torch.from_numpy(self.system.x_up_all).clone()
+            x_box_lo_i = torch.as_tensor(x_lo_larger, dtype=dtype).clone()
+            x_box_up_i = torch.as_tensor(x_up_larger, dtype=dtype).clone()
             if i < self.system.x_dim:
                 x_box_lo_i[i] = self.system.x_up_all[i]
-                x_box_up_i[i] = x_up_larger[i]
             else:
-                x_box_lo_i[i - self.system.x_dim] = \
-                    x_lo_larger[i-self.system.x_dim]
                 x_box_up_i[i-self.system.x_dim] = \
                     self.system.x_lo_all[i-self.system.x_dim]
             # Now add the constraint
-- 
2.43.0


From ca363270af21e34b19a72a76edc72125f84e52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 40/55] fix: continuous-time hybrid derivative sample loss
 ignores the sample weights

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 2701f79..86bc99e 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -1260,5 +1260,9 @@ class LyapunovContinuousTimeHybridSystem(lyapunov.LyapunovHybridLinearSystem):
                    torch.norm(state_samples - x_equilibrium, p=1, dim=1))
         else:
             raise Exception("Unknown eps_type")
-        return torch.nn.HingeEmbeddingLoss(margin=margin)(-val,
-                                                          torch.tensor(-1))
+        loss = torch.nn.HingeEmbeddingLoss(margin=margin, reduction="none")(
+            -val, torch.tensor(-1))
+        if weight is None:
+            return torch.mean(loss)
+        assert (weight.shape == (num_samples, ))
+        return torch.mean(weight * loss)
-- 
2.43.0


From fc8b65dd5f3779b6ee6dcc272c12a9abdbc40662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 41/55] fix: solve_barrier_derivative_mip crashes when there is
 no adversarial state

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 788c9af..e3a8907 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -583,7 +583,11 @@ class Trainer:
                 mip_adversarial.append(
                     torch.tensor([v.xn for v in barrier_deriv_return.x],
                                  dtype=dtype))
-        mip_adversarial = torch.stack(mip_adversarial)
+        if len(mip_adversarial) > 0:
+            mip_adversarial = torch.stack(mip_adversarial)
+        else:
+            mip_adversarial = torch.empty(
+                (0, self.barrier_system.system.x_dim), dtype=dtype)
         return barrier_deriv_return.milp, barrier_deriv_mip_obj,\
             mip_adversarial
 
-- 
2.43.0


From 4c34bd24e85e4155ed934d3b2d6b792f46242416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 42/55] fix: restoring the best training parameters detaches R
 from the optimizer

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index e3a8907..bf0b22b 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1116,7 +1116,8 @@ class Trainer:
         params["lyap_relu_params"] = copy.deepcopy(
             self.lyapunov_hybrid_system.lyapunov_relu.state_dict())
         if not self.R_options.fixed_R:
-            params["R_params"] = self.R_options._variables.clone()
+            params["R_params"] = \
+                self.R_options._variables.detach().clone()
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             params["controller_params"] = copy.deepcopy(
@@ -1131,7 +1132,10 @@ class Trainer:
         self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
             params["lyap_relu_params"])
         if not self.R_options.fixed_R:
-            self.R_options._variables = params["R_params"].clone()
+            # Copy in place, so that the optimizers keep updating the variables
+            # used by R.
+            with torch.no_grad():
+                self.R_options._variables.copy_(params["R_params"])
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             self.lyapunov_hybrid_system.system.controller_network.\
-- 
2.43.0


From fd4b0cf93a01f836c440109b822349a30d3da64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 43/55] fix: train_lyapunov_on_samples does not restore the R
 of the best epoch

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index bf0b22b..0e39e50 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1068,20 +1068,10 @@ class Trainer:
                   f"{test_loss.item()}")
             if test_loss.item() < best_loss:
                 best_loss = test_loss.item()
-                best_lyapunov_relu = copy.deepcopy(
-                    self.lyapunov_hybrid_system.lyapunov_relu)
-                if isinstance(self.lyapunov_hybrid_system.system,
-                              feedback_system.FeedbackSystem):
-                    best_controller_relu = copy.deepcopy(
-                        self.lyapunov_hybrid_system.system.controller_network)
+                best_training_params = self._get_current_training_params()
 
         print(f"best loss {best_loss}")
-        self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
-            best_lyapunov_relu.state_dict())
-        if isinstance(self.lyapunov_hybrid_system.system,
-                      feedback_system.FeedbackSystem):
-            self.lyapunov_hybrid_system.system.controller_network.\
-                load_state_dict(best_controller_relu.state_dict())
+        self._set_training_params(best_training_params)
 
     class AdversarialTrainingOptions:
         def __init__(self):
-- 
2.43.0


From 40015743f26e60973a8e8e0990387370c9bcade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 44/55] fix: wrong repetition count when the adversarial states
 form two clusters

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 0e39e50..415fdb9 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1474,7 +1474,7 @@ def _cluster_adversarial_states(adversarial_states, cluster_radius):
             1)[states_distance_squared > cluster_radius**2] + 1
         repeatition = new_adversarial_state_index[1:] - \
             new_adversarial_state_index[:-1]
-        if repeatition.shape == (0, ):
+        if new_adversarial_state_index.shape == (0, ):
             repeatition = torch.tensor([adversarial_states.shape[0]])
         else:
             repeatition = torch.cat(
-- 
2.43.0


From 1bf427521fd65af1b285798af81513800aa91376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 45/55] fix: warm start of the derivative MILP crashes at a
 state on the boundary of the modes

---
 neural_network_lyapunov/lyapunov.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index 7a6ec16..827413f 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -726,9 +726,16 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
 
         # warmstart the binary variables
         if x_warmstart is not None:
-            relu_to_optimization.set_activation_warmstart(
-                self.lyapunov_relu, beta_next,
-                self.system.step_forward(x_warmstart))
+            try:
+                x_next_warmstart = self.system.step_forward(x_warmstart)
+            except hybrid_linear_system.AutonomousHybridLinearSystem.\
+                    StepForwardException:
+                # x_warmstart (for example a previous MILP solution) can be
+                # out of all the modes by the feasibility tolerance.
+                x_next_warmstart = None
+            if x_next_warmstart is not None:
+                relu_to_optimization.set_activation_warmstart(
+                    self.lyapunov_relu, beta_next, x_next_warmstart)
 
         s_dim = R.shape[0]
 
-- 
2.43.0


From 3138dcd05e8245e0d8112552258354c3d315fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 46/55] fix: training an autonomous ReLU system backpropagates
 twice through the same successor states

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 415fdb9..b214386 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -905,7 +905,7 @@ class Trainer:
                     derivative_state_samples[i])
                 for i in range(derivative_state_samples.shape[0])
             ],
-                                                        dim=0)
+                                                        dim=0).detach()
         else:
             derivative_state_samples_next = torch.empty_like(state_samples_all)
         iter_count = 0
@@ -950,8 +950,9 @@ class Trainer:
                 total_loss_return.lyap_loss.positivity_state_samples
             derivative_state_samples = \
                 total_loss_return.lyap_loss.derivative_state_samples
-            derivative_state_samples_next = \
-                total_loss_return.lyap_loss.derivative_state_samples_next
+            # The next iteration uses these samples in another graph.
+            derivative_state_samples_next = total_loss_return.lyap_loss.\
+                derivative_state_samples_next.detach()
 
             if self.enable_wandb:
                 wandb.log({
-- 
2.43.0


From da8fc98999c7acec6f48faa1f5d691a99d243d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 47/55] fix: adversarial_samples crashes when a derivative
 condition has no counterexample

---
 neural_network_lyapunov/dynamics_learning.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 0ea8ba9..364ba6f 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -149,17 +149,17 @@ class DynamicsLearning:
             lyap_der_mip.gurobi_model.optimize(
                 utils.get_gurobi_terminate_if_callback())
         num_sol = lyap_der_mip.gurobi_model.solCount
-        z_adv_der = []
+        z_adv_der_lo = []
         for i in range(num_sol):
             lyap_der_mip.gurobi_model.setParam(
                 gurobipy.GRB.Param.SolutionNumber, i)
             obj = lyap_der_mip.gurobi_model.PoolObjVal
             if obj > 0:
-                z_adv_der.append(
+                z_adv_der_lo.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
-        if len(z_adv_der) > 0:
-            z_adv_der_lo = torch.cat(z_adv_der, dim=0)
+        if len(z_adv_der_lo) > 0:
+            z_adv_der_lo = torch.cat(z_adv_der_lo, dim=0)
 
         lyap_der_mip_ = self.lyap.lyapunov_derivative_as_milp(
             self.lyap.system.x_equilibrium,
@@ -177,17 +177,17 @@ class DynamicsLearning:
             lyap_der_mip.gurobi_model.optimize(
                 utils.get_gurobi_terminate_if_callback())
         num_sol = lyap_der_mip.gurobi_model.solCount
-        z_adv_der = []
+        z_adv_der_up = []
         for i in range(num_sol):
             lyap_der_mip.gurobi_model.setParam(
                 gurobipy.GRB.Param.SolutionNumber, i)
             obj = lyap_der_mip.gurobi_model.PoolObjVal
             if obj > 0:
-                z_adv_der.append(
+                z_adv_der_up.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
-        if len(z_adv_der) > 0:
-            z_adv_der_up = torch.cat(z_adv_der, dim=0)
+        if len(z_adv_der_up) > 0:
+            z_adv_der_up = torch.cat(z_adv_der_up, dim=0)
 
         return z_adv_pos, z_adv_der_lo, z_adv_der_up
 
-- 
2.43.0


From 3c1f4a86c77174233a5f917cacbed478a53704af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 48/55] fix: rollout_validation returns the sum of the roll-out
 losses, not the mean

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 364ba6f..88a1bb9 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -380,7 +380,7 @@ class DynamicsLearning:
                 rollout_expected = rollout_expected.to(device)
                 validation_loss += self.rollout_loss(rollout_expected)
         self.all_to_device('cpu')
-        validation_loss = validation_loss.to('cpu')
+        validation_loss = validation_loss.to('cpu') / len(rollouts)
         return validation_loss
 
     def log(self, name, value):
-- 
2.43.0


From 9f018d72c046585dcd85b1fbb3ce0b2c62e77d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 49/55] fix: latent roll-out crashes for a one-dimensional
 latent space

---
 neural_network_lyapunov/dynamics_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 88a1bb9..065f741 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -835,7 +835,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         V_traj = []
         z_traj.append(self.encoder(x_init.unsqueeze(0))[0])
         V_traj.append(
-            self.lyap.lyapunov_value(z_traj[-1].squeeze(),
+            self.lyap.lyapunov_value(z_traj[-1].squeeze(0),
                                      self.lyap.system.x_equilibrium,
                                      self.opt.V_lambda,
                                      R=self.opt.R).item())
@@ -847,7 +847,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
                     z_traj.append(z)
                     V_traj.append(
                         self.lyap.lyapunov_value(
-                            z.squeeze(),
+                            z.squeeze(0),
                             self.lyap.system.x_equilibrium,
                             self.opt.V_lambda,
                             R=self.opt.R).item())
@@ -862,7 +862,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
                     z_traj.append(z_next)
                     V_traj.append(
                         self.lyap.lyapunov_value(
-                            z_next.squeeze(),
+                            z_next.squeeze(0),
                             self.lyap.system.x_equilibrium,
                             self.opt.V_lambda,
                             R=self.opt.R).item())
-- 
2.43.0


From ebeb0f32a7ba89e809513ddf3239b6f1c99ea805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 50/55] fix: the L2 reconstruction loss only counts the first
 sample of the batch

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 065f741..c5be7ce 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -778,7 +778,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         if self.opt.use_bce:
             loss = self.bce_loss(x_decoded, x)
         else:
-            loss = (x - x_decoded).pow(2).mean(dim=[1, 2, 3])[0]
+            loss = (x - x_decoded).pow(2).mean()
         return loss
 
     def dynamics_loss(self, x, x_next):
-- 
2.43.0


From 61142272b506edc05b99cbf9a89513b7bf63df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 51/55] fix: validation crashes when one batch has no sample in
 the stable box

---
 neural_network_lyapunov/dynamics_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index c5be7ce..87c33eb 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -336,11 +336,11 @@ class DynamicsLearning:
         x = x_all[torch.all(x_all <= x_up.to(x_all.device), dim=1), :]
         x = x[torch.all(x >= x_lo.to(x_all.device), dim=1), :]
         if x.shape[0] == 0:
-            sample_pos_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_pos_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
-            sample_der_lo_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_der_lo_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
-            sample_der_up_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_der_up_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
             return sample_pos_loss, sample_der_lo_loss, sample_der_up_loss
         x_next = self.lyap.system.step_forward(x)
-- 
2.43.0


From 2a8ebebf43085d2edf049ce19f6cdbcad892b913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 52/55] fix: rollout_loss swaps prediction and target of the
 binary cross entropy

---
 neural_network_lyapunov/dynamics_learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 87c33eb..6361f9b 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -883,8 +883,8 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
             rollout_expected.shape[0] - 2,
             decode_intermediate=decode_intermediate)
         if self.opt.use_bce:
-            loss = self.bce_loss_none(rollout_expected,
-                                      rollout_pred).mean(dim=[1, 2, 3])
+            loss = self.bce_loss_none(rollout_pred,
+                                      rollout_expected).mean(dim=[1, 2, 3])
         else:
             loss = (rollout_expected - rollout_pred).pow(2).mean(dim=[1, 2, 3])
         return loss
-- 
2.43.0


From d6fcf553d16b994dfde0b00dba0ae4bcec210b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 53/55] fix: a refused objective leaves the MIP's recorded
 objective unchanged

---
 neural_network_lyapunov/gurobi_torch_mip.py | 74 ++++++++++++---------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 8b282f4..e3b1aeb 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -1083,11 +1083,10 @@ class GurobiTorchMILP(GurobiTorchMIP):
         assert (len(coeffs) == len(variables))
         assert (sense == gurobipy.GRB.MAXIMIZE
                 or sense == gurobipy.GRB.MINIMIZE)
-        self.sense = sense
         r_used_flag = [False] * len(self.r)
         zeta_used_flag = [False] * len(self.zeta)
-        self.c_r = torch.zeros((len(self.r), ), dtype=self.dtype)
-        self.c_zeta = torch.zeros((len(self.zeta), ), dtype=self.dtype)
+        c_r = torch.zeros((len(self.r), ), dtype=self.dtype)
+        c_zeta = torch.zeros((len(self.zeta), ), dtype=self.dtype)
         for coeff, var in zip(coeffs, variables):
             assert (isinstance(coeff, torch.Tensor))
             for i in range(len(var)):
@@ -1097,29 +1096,34 @@ class GurobiTorchMILP(GurobiTorchMIP):
                         raise Exception("setObjective: variable " +
                                         var[i].VarName + " is duplicated.")
                     r_used_flag[r_index] = True
-                    self.c_r[r_index] = coeff[i]
+                    c_r[r_index] = coeff[i]
                 elif var[i] in self.zeta_indices.keys():
                     zeta_index = self.zeta_indices[var[i]]
                     if zeta_used_flag[zeta_index]:
                         raise Exception("setObjective: variable " +
                                         var[i].VarName + " is duplicated.")
                     zeta_used_flag[zeta_index] = True
-                    self.c_zeta[zeta_index] = coeff[i]
+                    c_zeta[zeta_index] = coeff[i]
                 else:
                     raise Exception("setObjective: unknown variable " +
                                     var[i].VarName)
         if isinstance(constant, float):
-            self.c_constant = torch.tensor(constant, dtype=self.dtype)
+            c_constant = torch.tensor(constant, dtype=self.dtype)
         elif isinstance(constant, torch.Tensor):
             assert (len(constant.shape) == 0)
-            self.c_constant = constant
+            c_constant = constant
         else:
             raise Exception("setObjective: constant must be either a float" +
                             " or a torch tensor.")
         self.gurobi_model.setObjective(
-            gurobipy.LinExpr(self.c_r, self.r) +
-            gurobipy.LinExpr(self.c_zeta, self.zeta) + self.c_constant,
+            gurobipy.LinExpr(c_r, self.r) +
+            gurobipy.LinExpr(c_zeta, self.zeta) + c_constant,
             sense=sense)
+        # Only record the objective after it is known to be valid.
+        self.sense = sense
+        self.c_r = c_r
+        self.c_zeta = c_zeta
+        self.c_constant = c_constant
 
     def compute_objective_from_mip_data(self,
                                         active_ineq_row_indices,
@@ -1198,7 +1202,6 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         assert (len(quad_coeffs) == len(quad_variables))
         assert (sense == gurobipy.GRB.MAXIMIZE
                 or sense == gurobipy.GRB.MINIMIZE)
-        self.sense = sense
         lin_r_used_flag = [False] * len(self.r)
         lin_zeta_used_flag = [False] * len(self.zeta)
         quad_r_used_flag = [[False] * len(self.r) for j in range(len(self.r))]
@@ -1206,13 +1209,12 @@ class GurobiTorchMIQP(GurobiTorchMIP):
                                for j in range(len(self.zeta))]
         quad_rzeta_used_flag = [[False] * len(self.zeta)
                                 for j in range(len(self.r))]
-        self.c_r = torch.zeros((len(self.r), ), dtype=self.dtype)
-        self.c_zeta = torch.zeros((len(self.zeta), ), dtype=self.dtype)
-        self.Q_r = torch.zeros((len(self.r), len(self.r)), dtype=self.dtype)
-        self.Q_zeta = torch.zeros((len(self.zeta), len(self.zeta)),
-                                  dtype=self.dtype)
-        self.Q_rzeta = torch.zeros((len(self.r), len(self.zeta)),
-                                   dtype=self.dtype)
+        c_r = torch.zeros((len(self.r), ), dtype=self.dtype)
+        c_zeta = torch.zeros((len(self.zeta), ), dtype=self.dtype)
+        Q_r = torch.zeros((len(self.r), len(self.r)), dtype=self.dtype)
+        Q_zeta = torch.zeros((len(self.zeta), len(self.zeta)),
+                             dtype=self.dtype)
+        Q_rzeta = torch.zeros((len(self.r), len(self.zeta)), dtype=self.dtype)
         for coeff, var in zip(lin_coeffs, lin_variables):
             assert (isinstance(coeff, torch.Tensor))
             for i in range(len(var)):
@@ -1223,7 +1225,7 @@ class GurobiTorchMIQP(GurobiTorchMIP):
                                         var[i].VarName +
                                         " is duplicated in linear cost.")
                     lin_r_used_flag[r_index] = True
-                    self.c_r[r_index] = coeff[i]
+                    c_r[r_index] = coeff[i]
                 elif var[i] in self.zeta_indices.keys():
                     zeta_index = self.zeta_indices[var[i]]
                     if lin_zeta_used_flag[zeta_index]:
@@ -1231,7 +1233,7 @@ class GurobiTorchMIQP(GurobiTorchMIP):
                                         var[i].VarName +
                                         " is duplicated in linear cost.")
                     lin_zeta_used_flag[zeta_index] = True
-                    self.c_zeta[zeta_index] = coeff[i]
+                    c_zeta[zeta_index] = coeff[i]
                 else:
                     raise Exception("setObjective: unknown variable " +
                                     var[i].VarName)
@@ -1251,7 +1253,7 @@ class GurobiTorchMIQP(GurobiTorchMIP):
                                             var_right[j].VarName +
                                             ") is duplicated in quad cost.")
                         quad_r_used_flag[r_index_l][r_index_r] = True
-                        self.Q_r[r_index_l, r_index_r] = coeff[i, j]
+                        Q_r[r_index_l, r_index_r] = coeff[i, j]
                     elif var_left[i] in self.zeta_indices.keys()\
                             and var_right[j] in self.zeta_indices.keys():
                         # in Q_zeta
@@ -1263,7 +1265,7 @@ class GurobiTorchMIQP(GurobiTorchMIP):
                                             var_right[j].VarName +
                                             ") is duplicated in quad cost.")
                         quad_zeta_used_flag[zeta_index_l][zeta_index_r] = True
-                        self.Q_zeta[zeta_index_l, zeta_index_r] = coeff[i, j]
+                        Q_zeta[zeta_index_l, zeta_index_r] = coeff[i, j]
                     else:
                         # in Q_rzeta
                         if var_left[i] in self.r_indices.keys():
@@ -1280,34 +1282,42 @@ class GurobiTorchMIQP(GurobiTorchMIP):
                                             var_right[j].VarName +
                                             ") is duplicated in quad cost.")
                         quad_rzeta_used_flag[r_index_l][zeta_index_r] = True
-                        self.Q_rzeta[r_index_l, zeta_index_r] = coeff[i, j]
+                        Q_rzeta[r_index_l, zeta_index_r] = coeff[i, j]
         if isinstance(constant, float):
-            self.c_constant = torch.tensor(constant, dtype=self.dtype)
+            c_constant = torch.tensor(constant, dtype=self.dtype)
         elif isinstance(constant, torch.Tensor):
             assert (len(constant.shape) == 0)
-            self.c_constant = constant
+            c_constant = constant
         else:
             raise Exception("setObjective: constant must be either a float" +
                             " or a torch tensor.")
         quad_obj = gurobipy.QuadExpr()
         for i in range(len(self.r)):
             for j in range(len(self.r)):
-                if self.Q_r[i, j] != 0:
-                    quad_obj.add(self.r[i] * self.r[j], self.Q_r[i, j].item())
+                if Q_r[i, j] != 0:
+                    quad_obj.add(self.r[i] * self.r[j], Q_r[i, j].item())
         for i in range(len(self.zeta)):
             for j in range(len(self.zeta)):
-                if self.Q_zeta[i, j] != 0:
+                if Q_zeta[i, j] != 0:
                     quad_obj.add(self.zeta[i] * self.zeta[j],
-                                 self.Q_zeta[i, j].item())
+                                 Q_zeta[i, j].item())
         for i in range(len(self.r)):
             for j in range(len(self.zeta)):
-                if self.Q_rzeta[i, j] != 0:
+                if Q_rzeta[i, j] != 0:
                     quad_obj.add(self.r[i] * self.zeta[j],
-                                 self.Q_rzeta[i, j].item())
+                                 Q_rzeta[i, j].item())
         self.gurobi_model.setObjective(
-            quad_obj + gurobipy.LinExpr(self.c_r, self.r) +
-            gurobipy.LinExpr(self.c_zeta, self.zeta) + self.c_constant,
+            quad_obj + gurobipy.LinExpr(c_r, self.r) +
+            gurobipy.LinExpr(c_zeta, self.zeta) + c_constant,
             sense=sense)
+        # Only record the objective after it is known to be valid.
+        self.sense = sense
+        self.Q_r = Q_r
+        self.Q_zeta = Q_zeta
+        self.Q_rzeta = Q_rzeta
+        self.c_r = c_r
+        self.c_zeta = c_zeta
+        self.c_constant = c_constant
 
     def compute_objective_from_mip_data(self,
                                         active_ineq_row_indices,
-- 
2.43.0


From 19c463fff62e178aae54aad223330c47806bcd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:27 +0000
Subject: [PATCH 54/55] fix: strengthening cuts keep the gradient of the
 network parameters

strengthen_mip_at_point took weight.data and bias.data, so whenever a cut was
active at the optimum, the loss recomputed from the strengthened program missed
the share of that unit in the gradient.
---
 neural_network_lyapunov/relu_to_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/relu_to_optimization.py b/neural_network_lyapunov/relu_to_optimization.py
index f0e6f24..155172b 100644
--- a/neural_network_lyapunov/relu_to_optimization.py
+++ b/neural_network_lyapunov/relu_to_optimization.py
@@ -325,8 +325,8 @@ class ReLUFreePattern:
             for j in range(len(self.relu_unit_index[relu_layer_count])):
                 beta_hat = relu_activations[
                     self.relu_unit_index[relu_layer_count][j]]
-                w = linear_layer.weight.data[j]
-                b = linear_layer.bias.data[
+                w = linear_layer.weight[j]
+                b = linear_layer.bias[
                     j] if linear_layer.bias is not None else torch.tensor(
                         0, dtype=self.dtype)
                 index_set = mip_utils.find_index_set_to_strengthen(
-- 
2.43.0


From aa516b04305f4771acb60bdec218de00475dc93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:47 +0000
Subject: [PATCH 55/55] fix: linear approximation of the SLIP map assigned
 arrays of size one to matrix entries, which numpy refuses

---
 neural_network_lyapunov/slip_hybrid_linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/slip_hybrid_linear_system.py b/neural_network_lyapunov/slip_hybrid_linear_system.py
index 3ca0eb6..e3a39b0 100644
--- a/neural_network_lyapunov/slip_hybrid_linear_system.py
+++ b/neural_network_lyapunov/slip_hybrid_linear_system.py
@@ -82,9 +82,9 @@ class SlipHybridLinearSystem:
         # Now approximate the constraint that at liftoff, the vertical velocity
         # should be positive.
         P[1, :3] = -dx_post_lo_dx_apex[3, :]
-        P[1, 3] = -dx_post_lo_dleg_angle[3]
+        P[1, 3] = -dx_post_lo_dleg_angle[3, 0]
         q[1, 0] = x_post_lo[3] - dx_post_lo_dx_apex[3, :].dot(apex_state) -\
-            dx_post_lo_dleg_angle[3] * leg_angle
+            dx_post_lo_dleg_angle[3, 0] * leg_angle
         # Now approximate the constraint that the touchdown point is on the
         # stepping stone left ≤ x⁻_TD[0] + l₀sinθ ≤ right
         constraint_count = 2
-- 
2.43.0

