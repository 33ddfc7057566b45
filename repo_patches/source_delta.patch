From 480c3c043c7b331f77fb8ceda75741b109229fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:35 +0000
Subject: [PATCH 01/71] fix: an upper-bound constraint (x <= c) was stored as a
 lower bound by include_constraint

---
 yaocptool/optimization/abstract_optimization_problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 712479c..87169f8 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -1,6 +1,6 @@
 from typing import Any, Dict, List, Optional, TypedDict, Union
 
-from casadi import DM, MX, Function, depends_on, inf, is_equal, repmat, vertcat
+from casadi import DM, MX, Function, depends_on, inf, repmat, vertcat
 
 from yaocptool import is_equality, is_inequality
 
@@ -357,9 +357,11 @@ class AbstractOptimizationProblem(object):
         if depends_on(expr.dep(0), vertcat(self.x, self.p)):
             dep_term = expr.dep(0)
             indep_term = expr.dep(1)
+            indep_is_rhs = True
         else:
             dep_term = expr.dep(1)
             indep_term = expr.dep(0)
+            indep_is_rhs = False
 
         if indep_term.is_constant():
             indep_term_dm = indep_term.to_DM()
@@ -372,7 +374,7 @@ class AbstractOptimizationProblem(object):
                 # by default all inequalities are treated as 'less than' or 'less or equal', e.g.: x<=1 or 1<=x
                 # if the term on the rhs term is the non-symbolic term, then it is a 'x<=1' inequality,
                 # where the independent term is the upper bound
-                if is_equal(indep_term_dm, expr.dep(1)):
+                if indep_is_rhs:
                     self.include_inequality(dep_term, ub=indep_term_dm)
                 # otherwise, it is a '1<=x' inequality, where the independent term is the lower bound
                 else:
-- 
2.43.0


From 4cdc5b1b854fd071a12b779c4a93cd32f6fffbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:53 +0000
Subject: [PATCH 02/71] fix: strict inequalities (x < c) were not recognised by
 is_inequality

---
 yaocptool/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index 45f1a5d..dce5e9e 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -240,7 +240,7 @@ def is_inequality(expr: Union[SX, MX]):
     :return: True if 'expr' is an inequality, False otherwise
     :rtype: bool
     """
-    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op == OP_LT)
+    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op() == OP_LT)
 
 
 def is_equality(expr: Union[SX, MX]):
-- 
2.43.0


From 6b674cbfca63259d719d513a1cff79fe1f658b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:57 +0000
Subject: [PATCH 03/71] fix: a problem changed after its solver was created
 kept being solved in its old form

---
 yaocptool/optimization/abstract_optimization_problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 87169f8..701dd5e 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -170,6 +170,7 @@ class AbstractOptimizationProblem(object):
         self.x = vertcat(self.x, variable)
         self.x_lb = vertcat(self.x_lb, lb)
         self.x_ub = vertcat(self.x_ub, ub)
+        self._solver = None
 
     def create_parameter(self, name: str, size: int = 1) -> MX:
         """
@@ -191,6 +192,7 @@ class AbstractOptimizationProblem(object):
         :param MX|SX par: parameter to be included
         """
         self.p = vertcat(self.p, par)
+        self._solver = None
 
     def set_objective(self, expr: Union[MX, List[MX], float, int]):
         """
@@ -209,6 +211,7 @@ class AbstractOptimizationProblem(object):
                 "Given objective has shape = {}".format(expr.shape)
             )
         self.f = expr
+        self._solver = None
 
     def include_inequality(
         self,
@@ -286,6 +289,7 @@ class AbstractOptimizationProblem(object):
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, lb)
         self.g_ub = vertcat(self.g_ub, ub)
+        self._solver = None
 
     def include_equality(self, expr: MX, rhs: Optional[Union[DM, float]] = None):
         """Include a equality with the following form
@@ -328,6 +332,7 @@ class AbstractOptimizationProblem(object):
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, rhs)
         self.g_ub = vertcat(self.g_ub, rhs)
+        self._solver = None
 
     def include_constraint(self, expr: MX):
         """Includes an inequality or inequality to the optimization problem,
-- 
2.43.0


From 3137be2893651b1a0fef51ac2347cb7316a9ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:01 +0000
Subject: [PATCH 04/71] fix: problems created with default options shared, and
 could change, the library's default solver options

---
 yaocptool/optimization/nonlinear_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/optimization/nonlinear_problem.py b/yaocptool/optimization/nonlinear_problem.py
index d359ee0..de36af1 100644
--- a/yaocptool/optimization/nonlinear_problem.py
+++ b/yaocptool/optimization/nonlinear_problem.py
@@ -23,7 +23,7 @@ class NonlinearOptimizationProblem(AbstractOptimizationProblem):
         """
         super(NonlinearOptimizationProblem, self).__init__(**kwargs)
         if self.solver_options == {}:
-            self.solver_options = SOLVER_OPTIONS["nlpsol_options"]
+            self.solver_options = dict(SOLVER_OPTIONS["nlpsol_options"])
 
     def _create_solver(self) -> Function:
         problem_dict = self.get_problem_dict()
-- 
2.43.0


From 033c6d888cb3e72192e6d5e1010ce26d6e07efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:44 +0000
Subject: [PATCH 05/71] fix: an out of range or negative index given to
 remove_variables_from_vector_by_indices was silently ignored

---
 yaocptool/util/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index dce5e9e..3e97383 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -108,7 +108,7 @@ def remove_variables_from_vector_by_indices(
     """
     if indices:
         numel = vector.numel()
-        if max(indices) > numel:
+        if max(indices) >= numel:
             raise ValueError(
                 "Found indices out of bounds. Index violating: {}, indices: {}".format(
                     max(indices), indices
@@ -120,6 +120,7 @@ def remove_variables_from_vector_by_indices(
                     min(indices), indices
                 )
             )
+        indices = [ind + numel if ind < 0 else ind for ind in indices]
 
     remaining_ind = [ind for ind in range(vector.numel()) if ind not in indices]
     vector = vector[remaining_ind]
-- 
2.43.0


From 0b143f09c7127cf63eebbc544837d496a0cb551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:57 +0000
Subject: [PATCH 06/71] fix: removing a state left its initial condition symbol
 in the model

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index c746088..122f88c 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -7,7 +7,11 @@ from casadi import SX, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
-from yaocptool.util.util import remove_variables_from_vector
+from yaocptool.util.util import (
+    find_variables_indices_in_vector,
+    remove_variables_from_vector,
+    remove_variables_from_vector_by_indices,
+)
 
 
 class ContinuousStateMixin(BaseMixin):
@@ -72,7 +76,9 @@ class ContinuousStateMixin(BaseMixin):
         return x_0
 
     def remove_state(self, var: SX):
+        to_remove = find_variables_indices_in_vector(var, self.x)
         self.x = remove_variables_from_vector(var, self.x)
+        self.x_0 = remove_variables_from_vector_by_indices(to_remove, self.x_0)
 
         for x_i in var.nz:
             del self._ode[x_i]
-- 
2.43.0


From d1957b08c11933ed0e085211812d274586ec1b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:01 +0000
Subject: [PATCH 07/71] fix: including a state that is already in the model
 raised after changing the model

---
 .../modelling/mixins/continuous_states_mixin.py     | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index 122f88c..eb473a0 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -60,17 +60,20 @@ class ContinuousStateMixin(BaseMixin):
     def include_state(
         self, var: SX, ode: Optional[SX] = None, x_0: Optional[SX] = None
     ) -> SX:
+        # crate entry for included state
+        new_ode = dict(self._ode)
+        for x_i in var.nz:
+            if x_i in new_ode:
+                raise ValueError(f'State "{x_i}" already in this model')
+            new_ode[x_i] = None
+        self._ode = new_ode
+
         self.x = vertcat(self.x, var)
 
         if x_0 is None:
             x_0 = vertcat(*[SX.sym(var_i.name()) for var_i in var.nz])
         self.x_0 = vertcat(self.x_0, x_0)
 
-        # crate entry for included state
-        for x_i in var.nz:
-            if x_i in self._ode:
-                raise ValueError(f'State "{x_i}" already in this model')
-            self._ode[x_i] = None
         if ode is not None:
             self.include_equations(ode=ode, x=var)
         return x_0
-- 
2.43.0


From 3a8f9cf7f9fa65083cf4936ad1832a5d40f726f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:05 +0000
Subject: [PATCH 08/71] fix: removing or connecting a control that is not free
 raised after changing part of the model

---
 yaocptool/modelling/mixins/control_mixin.py | 8 +++++---
 yaocptool/modelling/ocp.py                  | 4 ++--
 yaocptool/modelling/system_model.py         | 4 ++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/yaocptool/modelling/mixins/control_mixin.py b/yaocptool/modelling/mixins/control_mixin.py
index 572a72d..26a1500 100644
--- a/yaocptool/modelling/mixins/control_mixin.py
+++ b/yaocptool/modelling/mixins/control_mixin.py
@@ -56,11 +56,13 @@ class ControlMixin(BaseMixin):
         self.u_par = vertcat(self.u_par, var)
 
     def remove_control(self, var: SX):
-        self.u_expr = remove_variables_from_vector_by_indices(
+        u_expr = remove_variables_from_vector_by_indices(
             find_variables_indices_in_vector(var, self.u), self.u_expr
         )
-        self.u = remove_variables_from_vector(var, self.u)
-        self.u_par = remove_variables_from_vector(var, self.u_par)
+        u = remove_variables_from_vector(var, self.u)
+        u_par = remove_variables_from_vector(var, self.u_par)
+
+        self.u_expr, self.u, self.u_par = u_expr, u, u_par
 
     def replace_variable(self, original: SX, replacement: SX):
         if original.numel() != replacement.numel():
diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index c8eeb37..00df499 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -600,6 +600,8 @@ class OptimalControlProblem(object):
     def remove_control(self, var: SX):
         to_remove = find_variables_indices_in_vector(var, self.model.u)
 
+        self.model.remove_control(var)
+
         self.u_max = remove_variables_from_vector_by_indices(to_remove, self.u_max)
         self.u_min = remove_variables_from_vector_by_indices(to_remove, self.u_min)
         self.delta_u_max = remove_variables_from_vector_by_indices(
@@ -614,8 +616,6 @@ class OptimalControlProblem(object):
                 to_remove, self.u_guess
             )
 
-        self.model.remove_control(var)
-
     def replace_variable(
         self, original: Union[SX, List[SX]], replacement: Union[SX, List[SX]]
     ):
diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 8fe0dc8..c62eac8 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -418,14 +418,14 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             u.numel() == y.numel()
         ), f'Size of "u" and "y" "are not the same, u={u.numel()} and y={y.numel()}'
 
+        self.remove_control(u)
+
         if replace:
             self.replace_variable(u, y)
         else:
             self.include_equations(alg=[u - y])
             self.include_algebraic(u)
 
-        self.remove_control(u)
-
     @staticmethod
     def put_values_in_all_sym_format(
         t: Any = None,
-- 
2.43.0


From 3cd433cd9f11bd5c702e526996c1a4ad492106d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:10 +0000
Subject: [PATCH 09/71] fix: replacing an empty vector of variables raised
 instead of doing nothing

---
 yaocptool/modelling/mixins/algebraic_mixin.py | 3 ++-
 yaocptool/modelling/mixins/control_mixin.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/algebraic_mixin.py b/yaocptool/modelling/mixins/algebraic_mixin.py
index 48cfdb8..a45bbe0 100644
--- a/yaocptool/modelling/mixins/algebraic_mixin.py
+++ b/yaocptool/modelling/mixins/algebraic_mixin.py
@@ -101,7 +101,8 @@ class AlgebraicMixin(BaseMixin):
         if callable(getattr(super(), "replace_variable", None)):
             super().replace_variable(original, replacement)
 
-        self.alg = substitute(self.alg, original, replacement)
+        if original.numel() > 0:
+            self.alg = substitute(self.alg, original, replacement)
 
     def include_equations(self, *args: SX, **kwargs: Union[SX, List[SX]]):
         """
diff --git a/yaocptool/modelling/mixins/control_mixin.py b/yaocptool/modelling/mixins/control_mixin.py
index 26a1500..7ed69ca 100644
--- a/yaocptool/modelling/mixins/control_mixin.py
+++ b/yaocptool/modelling/mixins/control_mixin.py
@@ -77,7 +77,8 @@ class ControlMixin(BaseMixin):
             super().replace_variable(original, replacement)
 
         #  self.u_par = substitute(self.u_par, original, replacement)
-        self.u_expr = substitute(self.u_expr, original, replacement)
+        if original.numel() > 0:
+            self.u_expr = substitute(self.u_expr, original, replacement)
 
     def parametrize_control(self, u: SX, expr: SX, u_par: Optional[SX] = None):
         """
-- 
2.43.0


From 86e3c3262c46d5c66f4182615d1642c347c9bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:41 +0000
Subject: [PATCH 10/71] fix: a rejected control parametrization still marked
 the control as parametrized

---
 yaocptool/modelling/mixins/control_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/control_mixin.py b/yaocptool/modelling/mixins/control_mixin.py
index 7ed69ca..43babd2 100644
--- a/yaocptool/modelling/mixins/control_mixin.py
+++ b/yaocptool/modelling/mixins/control_mixin.py
@@ -98,11 +98,11 @@ class ControlMixin(BaseMixin):
         for u_i in u.nz:
             if self.control_is_parametrized(u_i):
                 raise ValueError(f'The control "{u_i}" is already parametrized.')
-            # to get have a new memory address
-            self._parametrized_controls = self._parametrized_controls + [u_i]
 
         # Remove u from u_par if they are going to be parametrized
         self.u_par = remove_variables_from_vector(u, self.u_par)
+        # to get have a new memory address
+        self._parametrized_controls = self._parametrized_controls + list(u.nz)
         if u_par is not None:
             self.u_par = vertcat(self.u_par, u_par)
 
-- 
2.43.0


From da6ed22105535852c7165520cf95645760b30e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:14 +0000
Subject: [PATCH 11/71] fix: including a model with parametrized controls or
 without all its equations lost or rejected them

---
 yaocptool/modelling/system_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index c62eac8..2332ef0 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -378,12 +378,20 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             # include variables
             self.include_state(model.x, x_0=model.x_0)
             self.include_algebraic(model.y)
-            self.include_control(model.u)
+            self.u = vertcat(self.u, model.u)
             self.include_parameter(model.p)
             self.include_theta(model.theta)
 
+            # include the controls parametrization
+            self.u_expr = vertcat(self.u_expr, model.u_expr)
+            self.u_par = vertcat(self.u_par, model.u_par)
+            self._parametrized_controls = (
+                self._parametrized_controls + model._parametrized_controls
+            )
+
             # include equations
-            self.include_equations(ode=model.ode, x=model.x, alg=model.alg)
+            self._ode = {**self._ode, **model._ode}
+            self.include_equations(alg=model.alg)
 
             # replace model time variables with this model time variables
             self.replace_variable(model.t, self.t)
-- 
2.43.0


From 10cadbccb25c16c8e6537cd227e50ee4e08e850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:34 +0000
Subject: [PATCH 12/71] fix: get_deepcopy shared symbols with, or lost parts
 of, the copied model

---
 yaocptool/modelling/system_model.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 2332ef0..23dce1b 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -13,6 +13,7 @@ from casadi import (
     SX,
     Function,
     horzcat,
+    is_equal,
     jacobian,
     mtimes,
     rootfinder,
@@ -493,9 +494,8 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
 
         :rtype: SystemModel
         """
-        model_copy = SystemModel(
-            name=self.name, model_name_as_prefix=self.model_name_as_prefix
-        )
+        # the names already have the prefix, if there is one
+        model_copy = SystemModel(name=self.name)
         x_copy = SX(0, 1)
         y_copy = SX(0, 1)
         u_copy = SX(0, 1)
@@ -535,14 +535,29 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             )
 
         if self.n_u_par > 0:
+            # a free control is its own parameter
+            u_par_copy = substitute(self.u_par, self.u, u_copy)
             u_par_copy = vertcat(
-                *[SX.sym(self.u_par[i].name()) for i in range(self.n_u_par)]
+                *[
+                    SX.sym(self.u_par[i].name())
+                    if is_equal(self.u_par[i], u_par_copy[i])
+                    else u_par_copy[i]
+                    for i in range(self.n_u_par)
+                ]
             )
 
-        model_copy.include_equations(ode=self.ode, alg=self.alg)
-        model_copy.u_par = self.u_par
+        model_copy._ode = dict(zip(model_copy._ode, self._ode.values()))
+        model_copy.include_equations(alg=self.alg)
+        model_copy.u_par = u_par_copy
         model_copy.u_expr = self.u_expr
+        model_copy._parametrized_controls = [
+            u_copy[i]
+            for i in range(self.n_u)
+            if self.control_is_parametrized(self.u[i])
+        ]
 
+        model_copy.replace_variable(self.t, model_copy.t)
+        model_copy.replace_variable(self.tau, model_copy.tau)
         model_copy.replace_variable(self.x, x_copy)
         model_copy.replace_variable(self.y, y_copy)
         model_copy.replace_variable(self.u, u_copy)
@@ -550,6 +565,7 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
         model_copy.replace_variable(self.theta, theta_copy)
         model_copy.replace_variable(self.u_par, u_par_copy)
 
+        model_copy.model_name_as_prefix = self.model_name_as_prefix
         model_copy.has_adjoint_variables = self.has_adjoint_variables
 
         return model_copy
-- 
2.43.0


From 8f3eb64ce150e3988d1cceaf208077024390c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:50 +0000
Subject: [PATCH 13/71] fix: linearize raised for every model

---
 yaocptool/modelling/system_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 23dce1b..214f826 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -727,7 +727,10 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             x_bar, u_bar
         )
 
-        linear_model = SystemModel(n_x=self.n_x, n_u=self.n_u)
+        linear_model = SystemModel()
+        linear_model.include_variables(
+            x=SX.sym("x", self.n_x), u=SX.sym("u", self.n_u)
+        )
         linear_model.include_equations(
             ode=[mtimes(a_matrix, linear_model.x) + mtimes(b_matrix, linear_model.u)]
         )
-- 
2.43.0


From a259fe2b34b78d9bfbccb85a2818316ca64c0cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:56 +0000
Subject: [PATCH 14/71] fix: find_equilibrium raised for every model with
 controls

---
 yaocptool/modelling/system_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 214f826..71f86bf 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -773,7 +773,7 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
         eqs = vertcat(self.ode, self.alg, additional_eqs)
         eqs = substitute(eqs, self.t, t_0)
         eqs = substitute(eqs, self.tau, 0)
-        f_eqs = Function("f_equilibrium", [vertcat(*self.all_sym[1:-1])], [eqs])
+        f_eqs = Function("f_equilibrium", [vertcat(self.x, self.y, self.u)], [eqs])
 
         rf = rootfinder("rf_equilibrium", "nlpsol", f_eqs, rootfinder_options)
         res = rf(guess)
-- 
2.43.0


From 621696af7d9e4a736ccdf4961956180f61e74eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:17 +0000
Subject: [PATCH 15/71] fix: include_state raised for bounds given as a list

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 00df499..268031a 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -309,9 +309,9 @@ class OptimalControlProblem(object):
         if isinstance(x_0, list):
             x_0 = vertcat(*x_0)
         if isinstance(x_min, list):
-            x_min = DM(*x_min)
+            x_min = vertcat(*x_min)
         if isinstance(x_max, list):
-            x_max = DM(*x_max)
+            x_max = vertcat(*x_max)
 
         if var.numel() != x_max.numel():
             raise ValueError(
-- 
2.43.0


From 0c62c32e1b1df21de62cdc49f4485f313a8dac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:21 +0000
Subject: [PATCH 16/71] fix: include_state dropped the given initial condition
 when x_0 was given too

---
 yaocptool/modelling/ocp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 268031a..f8ea223 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -333,7 +333,8 @@ class OptimalControlProblem(object):
 
         if x_0 is not None:
             self.x_0 = vertcat(self.x_0, x_0)
-            h_initial = x_0_sym - var
+            if h_initial is None:
+                h_initial = x_0_sym - var
         else:
             x_0 = DM.zeros(var.shape)
             self.x_0 = vertcat(self.x_0, x_0)
-- 
2.43.0


From 2a4146747e7ca1bd04092c18b869fa1f08daf747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:25 +0000
Subject: [PATCH 17/71] fix: include_algebraic lost the guess of the first
 algebraic variables and accepted guesses of any size

---
 yaocptool/modelling/ocp.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index f8ea223..05df035 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -362,6 +362,8 @@ class OptimalControlProblem(object):
             y_min = vertcat(*y_min)
         if isinstance(y_max, list):
             y_max = vertcat(*y_max)
+        if isinstance(y_guess, list):
+            y_guess = vertcat(*y_guess)
 
         if var.numel() != y_min.numel():
             raise ValueError(
@@ -375,14 +377,24 @@ class OptimalControlProblem(object):
                     var.numel(), y_max.numel()
                 )
             )
+        if y_guess is not None and var.numel() != y_guess.numel():
+            raise ValueError(
+                "Given 'var' and 'y_guess' does not have the same size, {}!={}".format(
+                    var.numel(), y_guess.numel()
+                )
+            )
+
+        has_algebraic = self.model.n_y > 0
+        self.model.include_algebraic(var, alg)
 
         if self.y_guess is not None:
             if y_guess is None:
                 self.y_guess = vertcat(self.y_guess, DM.zeros(var.numel()))
             else:
                 self.y_guess = vertcat(self.y_guess, y_guess)
+        elif y_guess is not None and not has_algebraic:
+            self.y_guess = y_guess
 
-        self.model.include_algebraic(var, alg)
         self.y_min = vertcat(self.y_min, y_min)
         self.y_max = vertcat(self.y_max, y_max)
 
-- 
2.43.0


From b8b9f5ef5f2786cf55188dd54842fdfef06a9e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:30 +0000
Subject: [PATCH 18/71] fix: connect left y_guess shorter than y when there is
 no guess for the controls

---
 yaocptool/modelling/ocp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 05df035..ae1aa7d 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1018,8 +1018,11 @@ class OptimalControlProblem(object):
         self.model.connect(u, y, replace=replace)
 
         if not replace:
-            if self.u_guess is not None and self.y_guess is not None:
-                self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
+            if self.y_guess is not None:
+                if self.u_guess is not None:
+                    self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
+                else:
+                    self.y_guess = vertcat(self.y_guess, DM.zeros(u.numel()))
 
             self.y_max = vertcat(self.y_max, self.u_max[ind_u])
             self.y_min = vertcat(self.y_min, self.u_min[ind_u])
-- 
2.43.0


From 394a2ee3db37fa6e22ca7ca262ff75551116b11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:34 +0000
Subject: [PATCH 19/71] fix: connect with replace left the removed control in
 the cost and constraints of the problem

---
 yaocptool/modelling/ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index ae1aa7d..ac5e56c 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1026,6 +1026,8 @@ class OptimalControlProblem(object):
 
             self.y_max = vertcat(self.y_max, self.u_max[ind_u])
             self.y_min = vertcat(self.y_min, self.u_min[ind_u])
+        else:
+            self.replace_variable(u, y)
 
         self.u_max = remove_variables_from_vector_by_indices(ind_u, self.u_max)
         self.u_min = remove_variables_from_vector_by_indices(ind_u, self.u_min)
-- 
2.43.0


From e6e0c33212cb821124d79d3ff8deb9fc808c78d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:10 +0000
Subject: [PATCH 20/71] fix: remove_algebraic removed the variable before
 finding that the equation is not in the model

---
 yaocptool/modelling/mixins/algebraic_mixin.py | 3 ++-
 yaocptool/modelling/ocp.py                    | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/mixins/algebraic_mixin.py b/yaocptool/modelling/mixins/algebraic_mixin.py
index a45bbe0..9fa6f01 100644
--- a/yaocptool/modelling/mixins/algebraic_mixin.py
+++ b/yaocptool/modelling/mixins/algebraic_mixin.py
@@ -79,9 +79,10 @@ class AlgebraicMixin(BaseMixin):
             self.include_equations(alg=alg)
 
     def remove_algebraic(self, var: SX, eq: SX = None):
-        self.y = remove_variables_from_vector(var, self.y)
+        y = remove_variables_from_vector(var, self.y)
         if eq is not None:
             self.alg = remove_variables_from_vector(eq, self.alg)
+        self.y = y
 
     def replace_variable(self, original: SX, replacement: SX):
         # TODO: Remove or reinstate
diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index ac5e56c..26e08d4 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -601,6 +601,8 @@ class OptimalControlProblem(object):
         to_remove = find_variables_indices_in_vector(var, self.model.y)
         to_remove.reverse()
 
+        self.model.remove_algebraic(var, eq)
+
         self.y_max = remove_variables_from_vector_by_indices(to_remove, self.y_max)
         self.y_min = remove_variables_from_vector_by_indices(to_remove, self.y_min)
         if self.y_guess is not None:
@@ -608,8 +610,6 @@ class OptimalControlProblem(object):
                 to_remove, self.y_guess
             )
 
-        self.model.remove_algebraic(var, eq)
-
     def remove_control(self, var: SX):
         to_remove = find_variables_indices_in_vector(var, self.model.u)
 
-- 
2.43.0


From 40940bfefb0426e1d2ce08d5f3fa89b42726cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:15 +0000
Subject: [PATCH 21/71] fix: OptimalControlProblem.simulate ignored t_0 and
 stopped one element before t_f

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 26e08d4..2adb735 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1065,14 +1065,14 @@ class OptimalControlProblem(object):
 
         if finite_elements is not None and isinstance(t_f, (DM, float, int)):
             delta_t = (t_f - t_0) / finite_elements
-            t_f = [delta_t * t for t in range(1, finite_elements)]
+            t_f = [t_0 + delta_t * t for t in range(1, finite_elements + 1)]
 
         x_0 = x_0 if x_0 is not None else self.x_0
 
         return self.model.simulate(
             x_0=x_0,
             t_f=t_f,
-            t_0=self.t_0,
+            t_0=t_0,
             u=u if u is not None else self.u_guess,
             p=p,
             theta=theta,
-- 
2.43.0


From 748094d671c82f10ac2691a1d6db1be4ad6938e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:19 +0000
Subject: [PATCH 22/71] fix: create_quadratic_cost wrote default references
 into the caller's dictionary

---
 yaocptool/modelling/ocp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 2adb735..a9894d0 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -794,6 +794,7 @@ class OptimalControlProblem(object):
     def create_quadratic_cost(self, par_dict: Dict[str, DM]):
         self.L = SX(0)
         self.V = SX(0)
+        par_dict = dict(par_dict)
         if "x_ref" not in par_dict:
             par_dict["x_ref"] = DM.zeros(self.model.n_x)
         if "u_ref" not in par_dict:
-- 
2.43.0


From 22f759dc80111c8cf203fff061a86cbe11fd1aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:24 +0000
Subject: [PATCH 23/71] fix: merge of problems was half done when a later
 problem had another time horizon

---
 yaocptool/modelling/ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index a9894d0..2b22454 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -826,6 +826,7 @@ class OptimalControlProblem(object):
 
         :param list of OptimalControlProblem problems:
         """
+        problems = list(problems)
         for problem in problems:
             if self.t_0 != problem.t_0:
                 raise ValueError(
@@ -840,6 +841,7 @@ class OptimalControlProblem(object):
                     )
                 )
 
+        for problem in problems:
             self.x_0 = vertcat(self.x_0, problem.x_0)
 
             self.eta = vertcat(self.eta, problem.eta)
-- 
2.43.0


From 3a8e4b3a4b10b165619d041be594f1aa970794b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:28 +0000
Subject: [PATCH 24/71] fix: merge kept the time symbols of the other problems
 in the cost and constraints

---
 yaocptool/modelling/ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 2b22454..9e965dc 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -914,6 +914,8 @@ class OptimalControlProblem(object):
 
             # Merge models
             self.model.merge([problem.model])
+            self.replace_variable(problem.model.t, self.model.t)
+            self.replace_variable(problem.model.tau, self.model.tau)
 
     def set_parameter_as_optimization_parameter(
         self,
-- 
2.43.0


From 00bb73f33ecba82378aa9aea5a3c69b6c39d90c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:32 +0000
Subject: [PATCH 25/71] fix: merge dropped guesses and the last control when
 the other problem has none of those variables

---
 yaocptool/modelling/ocp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 9e965dc..9397052 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -883,7 +883,7 @@ class OptimalControlProblem(object):
                 self.last_u = problem.last_u
             elif self.last_u is not None and problem.last_u is not None:
                 self.last_u = vertcat(self.last_u, problem.last_u)
-            else:
+            elif problem.model.n_u > 0:
                 self.last_u = None
 
             if (
@@ -894,7 +894,7 @@ class OptimalControlProblem(object):
                 self.y_guess = problem.y_guess
             elif self.y_guess is not None and problem.y_guess is not None:
                 self.y_guess = vertcat(self.y_guess, problem.y_guess)
-            else:
+            elif problem.model.n_y > 0:
                 self.y_guess = None
 
             if (
@@ -905,7 +905,7 @@ class OptimalControlProblem(object):
                 self.u_guess = problem.u_guess
             elif self.u_guess is not None and problem.u_guess is not None:
                 self.u_guess = vertcat(self.u_guess, problem.u_guess)
-            else:
+            elif problem.model.n_u > 0:
                 self.u_guess = None
 
             self.positive_objective = (
-- 
2.43.0


From 93f24fa987ad034df12eee3659a2ad49e00792ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:43 +0000
Subject: [PATCH 26/71] fix: discretization ignored the initial time of the
 problem

---
 yaocptool/methods/base/solutionmethodsbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index a56f1db..d243d0b 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -107,7 +107,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
     @cached_property
     def time_breakpoints(self) -> List[float]:
-        return [self.delta_t * k for k in range(self.finite_elements + 1)]
+        return [
+            self.problem.t_0 + self.delta_t * k for k in range(self.finite_elements + 1)
+        ]
 
     @property
     def time_interpolation_controls(self) -> List[List[float]]:
-- 
2.43.0


From 8f16f9edaab039f1937350bcefad3cca9e3f16d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:49 +0000
Subject: [PATCH 27/71] fix: collocation of degree 1 approximated the states by
 a constant

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index d243d0b..d470ea8 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -166,7 +166,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if tau is None:
             tau = self.model.tau  # Collocation point
 
-        if degree == 1:
+        if degree == 1 and not point_at_t0:
             if size > 0:
                 points = vertcat(*[SX.sym(name[s], 1, degree) for s in range(size)])
             else:
-- 
2.43.0


From 69254c63cc56ec040220ce890be084e88a973579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:54 +0000
Subject: [PATCH 28/71] fix: bounds on the control moves raised unless the last
 control was a parameter

---
 yaocptool/methods/base/solutionmethodsbase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index d470ea8..e0872b0 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -269,9 +269,11 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if self.last_control_as_parameter:
             p_last_u = MX.sym("mx_last_u", self.model.n_u)
         else:
-            p_last_u = MX()
+            p_last_u = None
 
-        all_mx = vertcat(p_mx, vec(theta_mx), p_mx_x_0, p_last_u)
+        all_mx = vertcat(p_mx, vec(theta_mx), p_mx_x_0)
+        if p_last_u is not None:
+            all_mx = vertcat(all_mx, p_last_u)
 
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
-- 
2.43.0


From 49d61ab38e2914ba7717b58def53f2a0070347db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:59 +0000
Subject: [PATCH 29/71] fix: the last control given to solve never reached the
 solver

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index e0872b0..4c00db7 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -387,6 +387,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
                 )
 
             last_u = self.problem.last_u
+
+        if self.last_control_as_parameter:
             par_last_u = last_u
 
         par = vertcat(p, theta_vector, par_x_0, par_last_u)
-- 
2.43.0


From 520668190a4a4b167b32af5728ab7fd771f1cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:03 +0000
Subject: [PATCH 30/71] fix: solution methods shared one solver options
 dictionary

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 4c00db7..e6439e9 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -67,7 +67,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         self.integrator_type = integrator_type
         self.discretization_scheme = discretization_scheme
         self.initial_condition_as_parameter = initial_condition_as_parameter
-        self.nlpsol_opts: Dict[str, Any] = nlpsol_opts
+        self.nlpsol_opts: Dict[str, Any] = dict(nlpsol_opts)
         self.initial_guess_heuristic = initial_guess_heuristic
         self.last_control_as_parameter = last_control_as_parameter
         self.initial_guess_model = None
-- 
2.43.0


From f00ab050a537a7b36c371e7ef667133e7bf2df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:07 +0000
Subject: [PATCH 31/71] fix: solve wrote the optimized parameters into the
 caller's p and theta

---
 yaocptool/methods/base/solutionmethodsbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index e6439e9..512a005 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -487,8 +487,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         # Initial condition, theta, and parameters used
         optimization_result.x_0 = x_0
-        optimization_result.theta = theta
-        optimization_result.p = p
+        optimization_result.theta = {el: DM(theta[el]) for el in theta}
+        optimization_result.p = DM(p)
 
         # From the problem
         for attr in ["t_0", "t_f"]:
-- 
2.43.0


From 8b21e4e7449b208f042b3b36f957aedddffb0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:56 +0000
Subject: [PATCH 32/71] fix: a fixed initial condition left a free symbol in
 the nonlinear program

---
 yaocptool/methods/base/solutionmethodsbase.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 512a005..6e575bc 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -249,12 +249,6 @@ class SolutionMethodsBase(SolutionMethodInterface):
             self.prepare()
             self.prepared = True
 
-        has_parameters = (
-            self.model.n_p + self.model.n_theta > 0
-            or self.initial_condition_as_parameter
-            or self.problem.last_u is not None
-        )
-
         # parameters MX
         p_mx = MX.sym("mx_p", self.model.n_p)
 
@@ -263,7 +257,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
         theta = {i: vec(theta_mx[:, i]) for i in range(self.finite_elements)}
 
         # initial cond MX
-        p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        if self.initial_condition_as_parameter:
+            p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        else:
+            p_mx_x_0 = None
 
         # last control MX
         if self.last_control_as_parameter:
@@ -271,7 +268,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
         else:
             p_last_u = None
 
-        all_mx = vertcat(p_mx, vec(theta_mx), p_mx_x_0)
+        all_mx = vertcat(p_mx, vec(theta_mx))
+        if p_mx_x_0 is not None:
+            all_mx = vertcat(all_mx, p_mx_x_0)
         if p_last_u is not None:
             all_mx = vertcat(all_mx, p_last_u)
 
@@ -280,7 +279,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
             p=p_mx, x_0=p_mx_x_0, theta=theta, last_u=p_last_u
         )
 
-        if has_parameters:
+        if all_mx.numel() > 0:
             opt_problem.include_parameter(all_mx)
 
         opt_problem.solver_options = self.nlpsol_opts
-- 
2.43.0


From b628608f3c96f9aeb77e1ac04d958d429286f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:01 +0000
Subject: [PATCH 33/71] fix: multiple shooting with cost_as_a_sum dropped the
 final cost

---
 yaocptool/methods/classic/multipleshooting.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/yaocptool/methods/classic/multipleshooting.py b/yaocptool/methods/classic/multipleshooting.py
index e6eddda..2716a00 100644
--- a/yaocptool/methods/classic/multipleshooting.py
+++ b/yaocptool/methods/classic/multipleshooting.py
@@ -273,11 +273,10 @@ class MultipleShootingScheme(DiscretizationSchemeBase):
         nlp.include_equality(f_h(p))
 
         if self.solution_method.solution_class == "direct":
-            if not self.solution_method.cost_as_a_sum:
-                f_final_cost = Function(
-                    "FinalCost", [self.model.x, self.model.p], [self.problem.V]
-                )
-                cost = f_final_cost(x_var[-1][0], p)
+            f_final_cost = Function(
+                "FinalCost", [self.model.x, self.model.p], [self.problem.V]
+            )
+            cost += f_final_cost(x_var[-1][0], p)
             cost += s_cost
         nlp.set_objective(cost)
 
-- 
2.43.0


From abc386c849f24e0e40282c963ae317c455034358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:06 +0000
Subject: [PATCH 34/71] fix: initial guess by simulation raised without p or
 theta

---
 yaocptool/methods/classic/collocationscheme.py | 5 +++++
 yaocptool/methods/classic/multipleshooting.py  | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/classic/collocationscheme.py b/yaocptool/methods/classic/collocationscheme.py
index b510d14..dca61e2 100644
--- a/yaocptool/methods/classic/collocationscheme.py
+++ b/yaocptool/methods/classic/collocationscheme.py
@@ -21,6 +21,7 @@ from casadi import (
     vertcat,
 )
 
+from yaocptool import create_constant_theta
 from yaocptool.methods.base.discretizationschemebase import DiscretizationSchemeBase
 from yaocptool.modelling.system_model import SystemModel
 from yaocptool.optimization import NonlinearOptimizationProblem
@@ -681,6 +682,10 @@ class CollocationScheme(DiscretizationSchemeBase):
                 u = self.problem.last_u
             else:
                 u = DM.zeros(self.model.n_u)
+        if p is None:
+            p = DM.zeros(self.model.n_p)
+        if theta is None:
+            theta = create_constant_theta(0, self.model.n_theta, self.finite_elements)
 
         if self.model.n_u_par > 0:
             u = vec(horzcat(*[u] * self.degree_control))
diff --git a/yaocptool/methods/classic/multipleshooting.py b/yaocptool/methods/classic/multipleshooting.py
index 2716a00..4fff21b 100644
--- a/yaocptool/methods/classic/multipleshooting.py
+++ b/yaocptool/methods/classic/multipleshooting.py
@@ -9,6 +9,7 @@ from typing import Dict, Optional
 
 from casadi import DM, Function, horzcat, inf, is_equal, repmat, vec, vertcat
 
+from yaocptool import create_constant_theta
 from yaocptool.methods.base.discretizationschemebase import DiscretizationSchemeBase
 from yaocptool.modelling.system_model import SystemModel
 from yaocptool.optimization import NonlinearOptimizationProblem
@@ -545,7 +546,9 @@ class MultipleShootingScheme(DiscretizationSchemeBase):
             else:
                 u = DM.zeros(model.n_u)
         if p is None:
-            p = DM()
+            p = DM.zeros(self.model.n_p)
+        if theta is None:
+            theta = create_constant_theta(0, self.model.n_theta, self.finite_elements)
 
         u = vec(horzcat(*[u] * self.degree_control)) if model.n_u_par > 0 else DM()
         x_0 = self.problem.x_0
-- 
2.43.0


From 8f07d8d165b1883d7cab15708682eaaaf3902bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:46 +0000
Subject: [PATCH 35/71] fix: insert_data stored values that do not fit the
 entry or its time

---
 yaocptool/modelling/dataset.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 1caab4f..002d349 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -147,11 +147,22 @@ class DataSet:
                 "time.shape={} and value.shape={}".format(time.shape[1], value.shape)
             )
 
+        if time.shape[1] > 0:
+            if time.shape[0] != 1:
+                raise ValueError(
+                    '"time" should be a row vector, time.shape={}'.format(time.shape)
+                )
+            if self.data[entry].size not in (None, value.shape[0]):
+                raise ValueError(
+                    'Number of rows of "value" differs from the size of the entry "{}", '
+                    "{}!={}".format(entry, value.shape[0], self.data[entry].size)
+                )
+
         self.data[entry].values = horzcat(self.data[entry].values, value)
         self.data[entry].time = horzcat(self.data[entry].time, time)
 
         if self.data[entry].size is None:
-            self.data["entry"].size = value.size1()
+            self.data[entry].size = value.size1()
 
     def get_copy(self) -> "DataSet":
         """
-- 
2.43.0


From 101253c87dbd674d30eddba8234fb7e0dd2df15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:53 +0000
Subject: [PATCH 36/71] fix: extending a dataset with a new entry raised

---
 yaocptool/modelling/dataset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 002d349..940bea4 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -185,6 +185,8 @@ class DataSet:
         """
 
         for entry in other_dataset.data:
+            if entry not in self.data:
+                continue
             if self.get_entry_size(entry) != other_dataset.get_entry_size(entry):
                 raise ValueError(
                     "The size of the same entry is different in the two datasets, "
@@ -192,11 +194,14 @@ class DataSet:
                         self.get_entry_size(entry), other_dataset.get_entry_size(entry)
                     )
                 )
+
+        for entry in other_dataset.data:
             if entry not in self.data:
                 self.create_entry(
                     entry,
                     size=other_dataset.get_entry_size(entry),
-                    names=other_dataset.get_entry_names(entry),
+                    names=list(other_dataset.get_entry_names(entry)),
+                    plot_style=other_dataset.data[entry].plot_style,
                 )
             self.insert_data(
                 entry,
-- 
2.43.0


From f4b9839dfb1c424aa33f17ac2e0af0fc32e5e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:59 +0000
Subject: [PATCH 37/71] fix: sorting a dataset with an empty entry raised

---
 yaocptool/modelling/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 940bea4..b384399 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -223,6 +223,8 @@ class DataSet:
 
         for entry in entries:
             entry_length = self.data[entry].time.shape[1]
+            if entry_length == 0:
+                continue
             time = [self.data[entry].time[i] for i in range(entry_length)]
             values = [
                 self.data[entry].values[:, i]
-- 
2.43.0


From d5cd748b6bfc269bd20d9e6d60dbf4e1e769f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:03 +0000
Subject: [PATCH 38/71] fix: join_thetas accepted dictionaries with different
 keys

---
 yaocptool/util/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index 3e97383..2cfa971 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -171,7 +171,9 @@ def join_thetas(*args: Optional[Dict[int, DM]]) -> Dict[int, DM]:
         if theta is not None:
             theta_keys = theta.keys()
             n_keys = len(theta_keys) if n_keys == 0 else n_keys
-            if len(theta_keys) > 0 and len(theta_keys) != n_keys:
+            if len(theta_keys) > 0 and (
+                len(theta_keys) != n_keys or set(theta_keys) - set(all_keys or theta_keys)
+            ):
                 raise ValueError(
                     "Only thetas with size zero or same size are accepted, given: {}".format(
                         [len(th.keys()) if th is not None else None for th in args]
-- 
2.43.0


From 4b8c31ee2bcd19847d53f6272aad9e32539851e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:37 +0000
Subject: [PATCH 39/71] fix: polynomial of an empty variable with a point at
 t_0 raised

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 6e575bc..449e167 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -180,7 +180,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
                         *[SX.sym(name[s], 1, degree + 1) for s in range(size)]
                     )
                 else:
-                    points = SX.sym("empty_sx", size, degree)
+                    points = SX.sym("empty_sx", size, degree + 1)
                 tau, ell_list = self._create_lagrangian_polynomial_basis(
                     degree, starting_index=0, tau=tau
                 )
-- 
2.43.0


From a28006edc8622d121e45cc2fa85daef3c66fe2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:23 +0000
Subject: [PATCH 40/71] fix: a simulation result recorded no finite elements
 and a tuple as its delta_t

---
 yaocptool/modelling/simulation_result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/simulation_result.py b/yaocptool/modelling/simulation_result.py
index 770feee..512bd48 100644
--- a/yaocptool/modelling/simulation_result.py
+++ b/yaocptool/modelling/simulation_result.py
@@ -22,10 +22,10 @@ class SimulationResult(DataSet):
         **kwargs
     ):
         self.model_name = model_name
-        self.delta_t = (delta_t,)
+        self.delta_t = delta_t
         self.t_0 = t_0
         self.t_f = t_f
-        self.finite_elements = 0
+        self.finite_elements = finite_elements
 
         DataSet.__init__(self, **kwargs)
         self.plot_style = "plot"
-- 
2.43.0


From 29df8e00e67be38b5a0f1d9dca1d49692d82817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:28 +0000
Subject: [PATCH 41/71] fix: a dataset with an entry without data could not be
 made a dataframe

---
 yaocptool/modelling/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index b384399..4a485d8 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -26,7 +26,7 @@ class Entry:
 
     @property
     def is_empty(self):
-        return not len(self.names)
+        return not len(self.names) or self.time.numel() == 0
 
 
 class DataSet:
@@ -77,6 +77,8 @@ class DataSet:
                 if df is not None
                 else entry_df
             )
+        if df is None:
+            df = pd.DataFrame()
         df.index.name = "time"
         return df
 
-- 
2.43.0


From bf31f1b403f378d69e6d1d0a066b674fe9538a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:47 +0000
Subject: [PATCH 42/71] fix: relaxing time equalities needed as many algebraic
 equations

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6694473..5b54262 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -214,7 +214,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.model.alg[self.relax_time_equality_index].numel() > 0:
+        if len(self.relax_time_equality_index) > 0:
             self._relax_time_equalities()
 
         if self.relax_state_bounds:
-- 
2.43.0


From 45b8a19f3f9ea3c6111a8907948ecc5619fe24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:52 +0000
Subject: [PATCH 43/71] fix: guess of a relaxed algebraic variable was taken by
 the index of its equation

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 5b54262..6f17e93 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -312,7 +312,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         # include the relaxed y_sym as controls
         u_guess = (
-            self.problem.y_guess[self.relax_algebraic_index]
+            self.problem.y_guess[self.relax_algebraic_var_index]
             if self.problem.y_guess is not None
             else None
         )
-- 
2.43.0


From 8d8c9e33758beb6aa39df5ea5b289ad7b83020fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:59 +0000
Subject: [PATCH 44/71] fix: multipliers of relaxed state bounds and time
 equalities were updated with each other's violation

---
 yaocptool/methods/augmented_lagrangian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6f17e93..343623b 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -214,12 +214,13 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if len(self.relax_time_equality_index) > 0:
-            self._relax_time_equalities()
-
+        # multipliers are in the order of the relaxed equations: algebraic, bounds of the states, time equalities
         if self.relax_state_bounds:
             self._relax_states_constraints()
 
+        if len(self.relax_time_equality_index) > 0:
+            self._relax_time_equalities()
+
         if not self.options.debug_skip_initialize:
             if not self.options.debug_skip_parametrize:
                 self._parametrize_nu()
-- 
2.43.0


From 77dd4a47ea4268920758b0008fd3c927dbec25ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:05 +0000
Subject: [PATCH 45/71] fix: multipliers did not have the degree and elements
 given in the solver options

---
 yaocptool/methods/augmented_lagrangian.py | 47 +++++++++++------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 343623b..cf7316a 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -147,8 +147,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             via an algebraic variable
         :param kwargs:
         """
-        if solver_options is None:
-            solver_options = {}
+        solver_options = dict(solver_options) if solver_options is not None else {}
         if options is None:
             options = {}
 
@@ -171,6 +170,28 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         #      ]
         #  )
 
+        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
+        for attr in ["degree", "finite_elements"]:
+            if (
+                attr in solver_options
+                and attr in kwargs
+                and solver_options[attr] != kwargs[attr]
+            ):
+                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
+                raise ValueError(
+                    exc_mess.format(
+                        attr,
+                        self.__class__.__name__,
+                        ocp_solver_class.__name__,
+                        kwargs[attr],
+                        solver_options[attr],
+                    )
+                )
+            elif attr in solver_options:
+                setattr(self.options, attr, solver_options[attr])
+            else:
+                solver_options[attr] = getattr(self.options, attr)
+
         self.block_number = block_number
 
         self.nu_tilde = None
@@ -237,28 +258,6 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                 finite_elements=self.options.finite_elements,
             )
 
-        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
-        for attr in ["degree", "finite_elements"]:
-            if (
-                attr in solver_options
-                and attr in kwargs
-                and solver_options[attr] != kwargs[attr]
-            ):
-                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
-                raise ValueError(
-                    exc_mess.format(
-                        attr,
-                        self.__class__.__name__,
-                        ocp_solver_class.__name__,
-                        kwargs[attr],
-                        solver_options[attr],
-                    )
-                )
-            elif attr in solver_options:
-                setattr(self.options, attr, solver_options[attr])
-            else:
-                solver_options[attr] = getattr(self.options, attr)
-
         #  solver_options["integrator_type"] = self.integrator_type
 
         # Initialize OCP solver
-- 
2.43.0


From 8dc31c341ccdeac3689e5aaf77bbb0ed09e821b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:11 +0000
Subject: [PATCH 46/71] fix: only_update_if_improve updated the multiplier at
 the first point of each element only

---
 yaocptool/methods/augmented_lagrangian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index cf7316a..14f45b8 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -783,7 +783,9 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                         if (error - last_error) < 0:
                             self.last_violation_error[ind] = error
                             for el in self.nu_tilde:
-                                self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                                self.nu_tilde[el][ind :: self.n_relax] = nu_tilde[el][
+                                    ind :: self.n_relax
+                                ]
                         else:
                             LOGGER.info("Error is greater than zero")
                 else:
-- 
2.43.0


From 717d4a29d53c63e9c75eb9d119becdb3fd7e0f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:17 +0000
Subject: [PATCH 47/71] fix: the primal rule changed penalties given or
 reported earlier

---
 yaocptool/methods/augmented_lagrangian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 14f45b8..d7097fc 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -657,6 +657,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             raise ValueError(f"Unkwon `mu_update_rule`: {self.options.mu_update_rule}")
 
     def _update_mu_primal(self, error: DM, last_error: Optional[DM]):
+        self.mu = DM(self.mu)
         for ind, (mu, err, last_err) in enumerate(
             zip(self.mu.nz, error.nz, last_error.nz)
         ):
-- 
2.43.0


From fc4e51e0ae4f3cb69bfefe06f7927a8da62bb9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 48/71] fix: a node could be given the id of another node of
 the network

---
 yaocptool/modelling/network/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index a3e440c..f3d6952 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -127,8 +127,11 @@ class Network:
             nodes = [nodes]
 
         # if node does not have an id
+        ids_in_use = {node.node_id for node in [*self.graph, *nodes]}
         for node in nodes:
             if node.node_id is None:
+                while self._nodes_id_counter in ids_in_use:
+                    self._nodes_id_counter += 1
                 self._set_node_an_id(node)
 
         self.graph.add_nodes_from(nodes)
-- 
2.43.0


From 28a59342ff065f76cb282f1326bdf616299f835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 49/71] fix: intermediary nodes ignored the initial time of the
 connected problems

---
 yaocptool/modelling/network/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index f3d6952..f6523d4 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -301,6 +301,7 @@ class Network:
         new_problem = OptimalControlProblem(
             name="OCP_Dummy_{}_to_{}".format(node1.name, node2.name),
             model=new_model,
+            t_0=node1.problem.t_0,
             t_f=node1.problem.t_f,
         )
 
-- 
2.43.0


From b63c7ad060475ec6299768b2b10568731396d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:09 +0000
Subject: [PATCH 50/71] fix: inserting intermediary nodes dropped the nodes
 without connections

---
 yaocptool/modelling/network/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index f6523d4..39f4afe 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -277,7 +277,7 @@ class Network:
             )
             for (node1, node2) in self.graph.edges
         }
-        self.graph = networkx.DiGraph()
+        self.graph.remove_edges_from(list(self.graph.edges))
 
         for (node1, node2), (y, u) in old_connections.items():
             self.insert_intermediary_node(y, u, node1, node2)
-- 
2.43.0


From 75dbc9cba741127deed0f32f4e6b2b91109702a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:04 +0000
Subject: [PATCH 51/71] fix: read the objective of a result where it is kept
 when checking its validity

---
 yaocptool/methods/base/optimizationresult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/optimizationresult.py b/yaocptool/methods/base/optimizationresult.py
index 065092b..b67b51a 100644
--- a/yaocptool/methods/base/optimizationresult.py
+++ b/yaocptool/methods/base/optimizationresult.py
@@ -86,7 +86,7 @@ class OptimizationResult:
                     self.__class__.__name__, "time_breakpoints"
                 )
             )
-        for attr in ["objective"]:
+        for attr in ["objective_opt_problem"]:
             if getattr(self, attr) is None:
                 raise Exception(
                     "{} attribute {} is None".format(self.__class__.__name__, attr)
-- 
2.43.0


From 6d16d3b4ece8459b8475d26483488b5b874d0ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:30 +0000
Subject: [PATCH 52/71] fix: equations of states whose right hand side is a
 structural zero are kept in place

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index eb473a0..199b08d 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -3,7 +3,7 @@ from collections import abc
 from itertools import islice
 from typing import Dict, List, Optional, Tuple, Union
 
-from casadi import SX, substitute, vec, vertcat
+from casadi import SX, densify, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
@@ -155,7 +155,7 @@ class ContinuousStateMixin(BaseMixin):
                 warnings.warn(
                     f'State "{x_i}" already had an ODE associated, overriding it!'
                 )
-        self._ode = {**self._ode, **dict(zip(x.nz, ode.nz))}
+        self._ode = {**self._ode, **dict(zip(x.nz, densify(ode).nz))}
 
     def _include_equation_from_diff_equations(self, *args: Union[SX, EqualityEquation]):
         x = SX(0, 1)
-- 
2.43.0


From e99b5bced7c38c98c408800e9807511cf8832cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:35 +0000
Subject: [PATCH 53/71] fix: bounds with structural zeros are compared entry by
 entry

---
 yaocptool/optimization/abstract_optimization_problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 701dd5e..eaaf751 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -1,6 +1,6 @@
 from typing import Any, Dict, List, Optional, TypedDict, Union
 
-from casadi import DM, MX, Function, depends_on, inf, repmat, vertcat
+from casadi import DM, MX, Function, densify, depends_on, inf, repmat, vertcat
 
 from yaocptool import is_equality, is_inequality
 
@@ -158,7 +158,9 @@ class AbstractOptimizationProblem(object):
                 "lb={}, ub={}".format(lb, ub)
             )
 
-        for i, (lb_i, var_i, ub_i) in enumerate(zip(lb.nz, variable.nz, ub.nz)):
+        for i, (lb_i, var_i, ub_i) in enumerate(
+            zip(densify(lb).nz, variable.nz, densify(ub).nz)
+        ):
             if lb_i > ub_i:
                 raise ValueError(
                     "Lower bound is greater than upper bound for index {}. "
-- 
2.43.0


From 0beac85fdd2ab0f072759184241727b165a356b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:16 +0000
Subject: [PATCH 54/71] fix: a debugger breakpoint was left in the closed loop

---
 yaocptool/mpc/mpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 9f2d65f..6fa7539 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -131,7 +131,6 @@ class MPC:
         #      if len(initial_guess_dict) == 1:
         #          initial_guess_dict = initial_guess_dict[0]
 
-        __import__("ipdb").set_trace()
         solutions = self.solution_method.solve(
             x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
         )
-- 
2.43.0


From 7edf959d6b3d715798829e8b0dd3d0fdbdf850ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:23 +0000
Subject: [PATCH 55/71] fix: the control sent to the plant uses the degree of
 the control

---
 yaocptool/mpc/mpc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 6fa7539..36890a7 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -148,7 +148,10 @@ class MPC:
 
     def _make_control_function(self, control_parameters):
         u_pol, u_par = create_polynomial_approximation(
-            self.plant.model.tau, self.plant.model.n_u, self.solution_method.degree, "u"
+            self.plant.model.tau,
+            self.plant.model.n_u,
+            self.solution_method.degree_control,
+            "u",
         )
 
         u_pol = substitute(u_pol, u_par, control_parameters)
-- 
2.43.0


From 718e8752369a1a1e5032a69ff811c8211468061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:29 +0000
Subject: [PATCH 56/71] fix: run the closed loop until stopped when no number
 of iterations is given

---
 yaocptool/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 36890a7..7057431 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -241,7 +241,7 @@ class MPC:
             # FIXME: Trying with function
             self.send_control(new_u)  # this advances the simulation
 
-            if k >= iterations - 1:
+            if iterations > 0 and k >= iterations - 1:
                 print("End of MPC.un".center(30, "="))
                 break
 
-- 
2.43.0


From 2e62e71df52c1cd5d208d547622495e4d9892bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:36 +0000
Subject: [PATCH 57/71] fix: run_fixed_control applies the control it is given

---
 yaocptool/mpc/mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 7057431..6f6c6d3 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -267,7 +267,7 @@ class MPC:
             if self.verbosity:
                 print("Measurement: {}".format(y_k))
 
-            self.send_control(u)  # this advances the simulation
+            self.plant.set_control(u)  # this advances the simulation
 
     def run_fixed_control_with_estimator(self, u, iterations):
         """
@@ -295,7 +295,7 @@ class MPC:
                 print("Measurement: {}".format(y_k))
                 print("Estimated state: {}".format(x_k))
 
-            self.send_control(u)  # this advances the simulation
+            self.plant.set_control(u)  # this advances the simulation
 
     def step(self, decision_variables):
         collocation_scheme: CollocationScheme = self.solution_method.discretizer  # type: ignore
-- 
2.43.0


From a0aa79d0dd726d28ab473c1a3e796d32e066894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:42 +0000
Subject: [PATCH 58/71] fix: the measurements of a plant have the size of what
 is measured

---
 yaocptool/mpc/plant.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 3af29ba..a2e2639 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -235,13 +235,14 @@ class PlantSimulation(PlantInterface):
             plot_style="step",
         )
 
+        n_meas = self.c_matrix.shape[0]
         self.dataset.create_entry(
             "meas_wo_noise",
-            self.model.n_x,
-            ["meas_wo_noise_" + str(i) for i in range(self.model.n_x)],
+            n_meas,
+            ["meas_wo_noise_" + str(i) for i in range(n_meas)],
         )
         self.dataset.create_entry(
             "meas",
-            self.model.n_x,
-            ["meas_" + str(i) for i in range(self.model.n_x)],
+            n_meas,
+            ["meas_" + str(i) for i in range(n_meas)],
         )
-- 
2.43.0


From 7cc2eb60cd40d680bc3127e07628847507403dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:49 +0000
Subject: [PATCH 59/71] fix: the first measurement of a plant is a measurement

---
 yaocptool/mpc/plant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index a2e2639..3982c52 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -101,6 +101,7 @@ class PlantSimulation(PlantInterface):
         self._initialize_dataset()
 
         meas_data = self._measure(self.x, self.y_guess)
+        self.measurement = meas_data["measurement"]
 
         self._save_data(self.x, self.y_guess, self.u, **meas_data)
         if self.has_noise and self.noise_seed is not None:
-- 
2.43.0


From 31f961bf0281f3877bced28dbe079890b4275099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:55 +0000
Subject: [PATCH 60/71] fix: a control set on a plant replaces the function set
 before

---
 yaocptool/mpc/plant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 3982c52..395ff5c 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -147,6 +147,7 @@ class PlantSimulation(PlantInterface):
                 )
             )
         self.u = u
+        self.u_function = None
 
         # go to next time
         self._advance()
-- 
2.43.0


From e247b8a9c8f13e080bb05bbbd8522aba15df389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:00 +0000
Subject: [PATCH 61/71] fix: the closed loop leaves the given parameters as
 they are

---
 yaocptool/mpc/mpc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 6f6c6d3..254290f 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -332,6 +332,8 @@ class MPC:
 
     def _get_parameter(self, x_k, p_k):
         p = self.p
+        if self.mean_as_parameter or self.covariance_as_parameter:
+            p = DM(p)  # the given parameters stay as they are
 
         if self.mean_as_parameter:
             for mean_index, p_index in self.mean_p_indices:
-- 
2.43.0


From 89f4677068edc7a2b87ff085f20ebdc1f354ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:41 +0000
Subject: [PATCH 62/71] fix: positions of the uncertain parameters and initial
 conditions use the current names of the model

---
 yaocptool/modelling/stochastic_ocp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index b2efbaa..972f882 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -119,15 +119,15 @@ class StochasticOCP(OptimalControlProblem):
 
     def get_p_without_p_unc(self):
         return remove_variables_from_vector_by_indices(
-            self.get_p_unc_indices(), self.model.p_sym
+            self.get_p_unc_indices(), self.model.p
         )
 
     def get_p_unc_indices(self):
-        return find_variables_indices_in_vector(self.p_unc, self.model.p_sym)
+        return find_variables_indices_in_vector(self.p_unc, self.model.p)
 
     def get_uncertain_initial_cond_indices(self):
         return find_variables_indices_in_vector(
-            self.uncertain_initial_conditions, self.model.x_0_sym
+            self.uncertain_initial_conditions, self.model.x_0
         )
 
     def include_time_chance_inequality(self, ineq, prob, rhs=None, when="default"):
-- 
2.43.0


From e4e273032b3dc53b1fa0f1a9405176809019d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:46 +0000
Subject: [PATCH 63/71] fix: the size of the probabilities of chance
 constraints is checked

---
 yaocptool/modelling/stochastic_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index 972f882..fd2e7e6 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -167,7 +167,7 @@ class StochasticOCP(OptimalControlProblem):
                 'Given inequality does not have the same dimensions of the provided "rhs". '
                 "Size of ineq: {}, size of rhs: {}".format(ineq.shape, rhs.shape)
             )
-        if not ineq.numel() == rhs.numel():
+        if not ineq.numel() == prob.numel():
             raise ValueError(
                 'Given inequality does not have the same dimensions of the provided "prob". '
                 "Size of ineq: {}, size of prob: {}".format(ineq.shape, prob.shape)
-- 
2.43.0


From 42baace10463ae0a2ed14e66ad11cf1204a3761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:51 +0000
Subject: [PATCH 64/71] fix: coefficient of the tenth Hermite polynomial

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 805e648..bee762e 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -493,7 +493,7 @@ def get_ls_factor(n_uncertain, n_samples, pc_order, lamb=0.0):
     he10fcn = Function(
         "He10fcn",
         [x],
-        [x ** 10 - 45 * x ** 8 + 640 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
+        [x ** 10 - 45 * x ** 8 + 630 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
     )
     helist = [
         he0fcn,
-- 
2.43.0


From 3a82c2ebae2147cc196f454060041d7c068782a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:21 +0000
Subject: [PATCH 65/71] fix: the Kalman filters use the current interface of
 models and data sets

---
 .../estimation/extended_kalman_filter.py      | 91 ++++++++++---------
 yaocptool/estimation/pce_kalman_filter.py     | 26 +++---
 .../estimation/unscented_kalman_filter.py     | 65 +++++++------
 3 files changed, 102 insertions(+), 80 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 9fc18a2..298448c 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -70,34 +70,43 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ekf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ekf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ekf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ekf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ekf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            ["ekf_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+
+        self.dataset.create_entry(
+            "y",
+            self.model.n_y,
+            ["ekf_" + self.model.y[i].name() for i in range(self.model.n_y)],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "ekf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P_y",
+            self.model.n_y ** 2,
+            [
+                "ekf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "meas",
+            self.n_meas,
+            ["ekf_meas_" + str(i) for i in range(self.n_meas)],
+        )
 
     @property
     def n_meas(self):
@@ -178,14 +187,14 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Obtain the matrix G (linearized measurement model)
         measurement_sym = self._get_measurement_from_prediction(
-            self.model.x_sym, self.model.y_sym, self.model.u_sym
+            self.model.x, self.model.y, self.model.u
         )
         dh_dx_aug_sym = jacobian(
-            measurement_sym, vertcat(self.model.x_sym, self.model.y_sym)
+            measurement_sym, vertcat(self.model.x, self.model.y)
         )
         f_dh_dx_aug = Function(
             "dh_dx_aug",
-            [self.model.x_sym, self.model.y_sym, self.model.u_sym],
+            [self.model.x, self.model.y, self.model.u],
             [dh_dx_aug_sym],
         )
 
@@ -239,27 +248,27 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         :type model: SystemModel
         """
         aug_model = SystemModel("aug_linearized_EKF_model")
-        aug_model.include_state(self.model.x_sym)
-        aug_model.include_state(self.model.y_sym)
-        aug_model.include_control(self.model.u_sym)
-        aug_model.include_parameter(self.model.p_sym)
-        aug_model.include_theta(self.model.theta_sym)
+        aug_model.include_state(self.model.x)
+        aug_model.include_state(self.model.y)
+        aug_model.include_control(self.model.u)
+        aug_model.include_parameter(self.model.p)
+        aug_model.include_theta(self.model.theta)
 
         # remove u_par (self.model.u_par model.u_par)
         all_sym = list(self.model.all_sym)
 
         # Mean
         a_func = Function(
-            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x_sym)]
+            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x)]
         )
         b_func = Function(
-            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y_sym)]
+            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y)]
         )
         c_func = Function(
-            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x_sym)]
+            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x)]
         )
         d_func = Function(
-            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y_sym)]
+            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y)]
         )
 
         x_lin = aug_model.create_parameter("x_lin", self.model.n_x)
@@ -281,7 +290,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
             ),
         )
 
-        x_aug = vertcat(model.x_sym, model.y_sym)
+        x_aug = vertcat(model.x, model.y)
         aug_model.include_equations(ode=[mtimes(a_aug_matrix, x_aug)])
 
         # Covariance
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index e9fa0d4..53e61f0 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -72,17 +72,21 @@ class PCEKalmanFilter(EstimatorAbstract):
         )
 
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "est_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            ["est_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
 
     @property
     def n_pol_parameters(self):
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 44e5c6d..1b036e2 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -61,34 +61,43 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ukf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ukf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ukf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ukf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ukf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            ["ukf_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+
+        self.dataset.create_entry(
+            "y",
+            self.model.n_y,
+            ["ukf_" + self.model.y[i].name() for i in range(self.model.n_y)],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "ukf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P_y",
+            self.model.n_y ** 2,
+            [
+                "ukf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "meas",
+            self.n_meas,
+            ["ukf_meas_" + str(i) for i in range(self.n_meas)],
+        )
 
         # Choose the UKF implementation
         if self.implementation == "standard":
-- 
2.43.0


From 8d127b6957391985f9cc18562f38b6494ed51fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:27 +0000
Subject: [PATCH 66/71] fix: the covariance of the algebraic variables is
 stored as a column

---
 yaocptool/estimation/extended_kalman_filter.py  | 2 +-
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 298448c..84154a2 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -238,7 +238,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
-        self.dataset.insert_data("P_y", t_k, p_k[self.model.n_x :, self.model.n_x :])
+        self.dataset.insert_data("P_y", t_k, vec(p_k[self.model.n_x :, self.model.n_x :]))
 
         return self.x_mean, self.p_k
 
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 1b036e2..6044b2b 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -257,7 +257,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-            "P_y", t_k, cov_x_aug[self.model.n_x :, self.model.n_x :]
+            "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
         return x_mean, cov_x_aug
-- 
2.43.0


From 0de7a8c6fc2ffe17b80902adfaab9fa5fecd8a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:32 +0000
Subject: [PATCH 67/71] fix: the unscented filter returns the state and its
 covariance

---
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 6044b2b..6e9ef86 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -260,7 +260,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
             "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
-        return x_mean, cov_x_aug
+        return self.x_mean, self.p_k
 
     def _estimate_square_root_ukf(self, t_k, y_k, u_k):
         raise NotImplementedError
-- 
2.43.0


From 4cc07461c3a03458aee87ef0be09a1389ad241b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:37 +0000
Subject: [PATCH 68/71] fix: the time of the Kalman filters advances with every
 estimate

---
 yaocptool/estimation/extended_kalman_filter.py  | 1 +
 yaocptool/estimation/pce_kalman_filter.py       | 1 +
 yaocptool/estimation/unscented_kalman_filter.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 84154a2..207a359 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -228,6 +228,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         )
 
         # Save variables in local object
+        self.t = self.t + self.t_s
         self._x_aug = x_mean
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = p_k
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index 53e61f0..7a8f7ca 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -140,6 +140,7 @@ class PCEKalmanFilter(EstimatorAbstract):
         x_hat_k = x_hat_k_minus + mtimes(k_gain, (y_k - y_hat_k_minus))
         p_k = p_k_minus - mtimes(k_gain, mtimes(p_yk_yk, k_gain.T))
 
+        self.t = self.t + self.t_s
         self.x_mean = x_hat_k
         self.p_k = p_k
 
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 6e9ef86..e3dc996 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -246,6 +246,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.p_k = cov_x_aug
 
         # Save variables in local object
+        self.t = self.t + self.t_s
         self._x_aug = x_mean
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = cov_x_aug_pred
-- 
2.43.0


From e5075ee9e061cad5839992c27e36cb7f3dedbbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:43 +0000
Subject: [PATCH 69/71] fix: the extended filter linearizes at the given
 control

---
 yaocptool/estimation/extended_kalman_filter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 207a359..a2cad19 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -173,7 +173,12 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Covariance
         all_sym_values = self.model.put_values_in_all_sym_format(
-            t=self.t, x=x_pred, y=y_pred, p=self.p, theta=self.theta
+            t=self.t,
+            x=x_pred,
+            y=y_pred,
+            p=self.p,
+            theta=self.theta,
+            u_par=u_k,
         )
         all_sym_values = all_sym_values
 
-- 
2.43.0


From 612bb4ebf88b97b593dc805eaf59017c85d83458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:50 +0000
Subject: [PATCH 70/71] fix: the chaos filter weighs the coefficients by the
 expectations of the squared polynomials

---
 yaocptool/estimation/pce_kalman_filter.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index 7a8f7ca..7925059 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -67,7 +67,7 @@ class PCEKalmanFilter(EstimatorAbstract):
                 )
             )
 
-        self._ls_factor, _, _ = get_ls_factor(
+        self._ls_factor, self._exp_phi, _ = get_ls_factor(
             self.n_uncertain, self.n_samples, self.pc_order
         )
 
@@ -90,7 +90,7 @@ class PCEKalmanFilter(EstimatorAbstract):
 
     @property
     def n_pol_parameters(self):
-        return factorial(self.n_uncertain + self.pc_order) / (
+        return factorial(self.n_uncertain + self.pc_order) // (
             factorial(self.n_uncertain) * factorial(self.pc_order)
         )
 
@@ -208,7 +208,10 @@ class PCEKalmanFilter(EstimatorAbstract):
         for i in range(self.model.n_x):
             for j in range(self.model.n_x):
                 p_k_minus[i, j] = (
-                    sum([a_x[i][k] * a_x[j][k] for k in range(1, self.n_samples)])
+                    sum(
+                        a_x[i][k] * a_x[j][k] * self._exp_phi[k]
+                        for k in range(1, self.n_pol_parameters)
+                    )
                     + self.r_v[i, j]
                 )
 
@@ -241,7 +244,8 @@ class PCEKalmanFilter(EstimatorAbstract):
         for i in range(n_meas):
             for j in range(n_meas):
                 p_yk_yk[i, j] = sum(
-                    [a_meas[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
+                    a_meas[i][k] * a_meas[j][k] * self._exp_phi[k]
+                    for k in range(1, self.n_pol_parameters)
                 )
         p_yk_yk = p_yk_yk + self.r_n
 
@@ -250,7 +254,8 @@ class PCEKalmanFilter(EstimatorAbstract):
         for i in range(self.model.n_x):
             for j in range(n_meas):
                 p_xk_yk[i, j] = sum(
-                    [a_x[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
+                    a_x[i][k] * a_meas[j][k] * self._exp_phi[k]
+                    for k in range(1, self.n_pol_parameters)
                 )
 
         # k_gain = mtimes(p_xk_yk, inv(p_yk_yk))
-- 
2.43.0


From bdcf16c07102e5240d053e81d06fc83d47866ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:56 +0000
Subject: [PATCH 71/71] fix: the Kalman filters take models with one state and
 no algebraic variables

---
 yaocptool/estimation/extended_kalman_filter.py  | 4 ++--
 yaocptool/estimation/unscented_kalman_filter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index a2cad19..59bac59 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -217,7 +217,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_f + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_f
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, 0], u_f
         )
         if self.verbosity > 1:
             print("Predicted state: {}".format(x_pred))
@@ -241,7 +241,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, 0])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data("P_y", t_k, vec(p_k[self.model.n_x :, self.model.n_x :]))
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index e3dc996..14b2af9 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -230,7 +230,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_pred + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_k
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, 0], u_k
         )
         print("Predicted state: {}".format(x_pred))
         print("Prediction error: {}".format(y_k - meas_pred))
@@ -254,7 +254,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, 0])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-- 
2.43.0

