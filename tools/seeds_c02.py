A = "yaocptool/optimization/abstract_optimization_problem.py"
U = "yaocptool/util/util.py"
MX = "yaocptool/modelling/mixins/"
S = "yaocptool/modelling/system_model.py"
MODEL = '''
from casadi import SX, DM, vertcat, Function, is_equal, depends_on
import casadi as ca
from yaocptool.modelling.system_model import SystemModel
'''
SEEDS = {
    "s03_negative_lookup_duplicates": dict(
        property="C03", needs="a lookup of two variables of which the second comes first in the vector",
        breaks="the positions are returned sorted and not in the order of the request",
        edits=[(U, "    return indices\n\n\ndef find_variables_in_vector_by_name", "    return sorted(indices)\n\n\ndef find_variables_in_vector_by_name")],
        demo='''
from casadi import SX, vertcat
from yaocptool.util.util import find_variables_indices_in_vector as f
v = SX.sym("v", 5)
assert list(f(vertcat(v[3], v[1]), v)) == [3, 1], f(vertcat(v[3], v[1]), v)
'''),
    "s03_exact_is_prefix": dict(
        property="C03", needs="an exact lookup by name where another symbol's name starts with the requested name",
        breaks="an exact lookup also returns symbols whose name only starts with the request",
        edits=[(U, "if vector[i].name() == name:", "if vector[i].name().startswith(name):")],
        demo='''
from casadi import SX, vertcat
from yaocptool.util.util import find_variables_in_vector_by_name as f
v = vertcat(SX.sym("x"), SX.sym("xa"))
assert len(f("x", v, exact=True)) == 1
'''),
    "s04_ode_sorted_pairing": dict(
        property="C04", needs="equations given for several states in another order than the one they were included in",
        breaks="equations are paired with the named states in the order of the model, not in the order given",
        edits=[(MX + "continuous_states_mixin.py", "self._ode = {**self._ode, **dict(zip(x.nz, ode.nz))}",
                "named = set(x.nz)\n        self._ode = {**self._ode, **dict(zip([k for k in self._ode if k in named], ode.nz))}")],
        demo=MODEL + '''
m = SystemModel()
a, b = m.create_state("a"), m.create_state("b")
m.include_equations(ode=vertcat(2 * a, 3 * b), x=vertcat(b, a))
assert is_equal(m.ode, vertcat(3 * b, 2 * a), 5), m.ode
'''),
    "s04_u_par_order": dict(
        property="C04", needs="a control included after another one was parametrized with new parameters",
        breaks="a new control is put in front of the parameters of the parametrized ones",
        edits=[(MX + "control_mixin.py", "        self.u_par = vertcat(self.u_par, var)\n", "        self.u_par = vertcat(self.u_par[: self.n_u - var.numel()], var, self.u_par[self.n_u - var.numel() :])\n")],
        demo=MODEL + '''
m = SystemModel()
u = m.create_control("u")
w = SX.sym("w", 3)
m.parametrize_control(u, w[0] * m.tau + w[1] + w[2], w)
v = m.create_control("v")
assert is_equal(m.u_par, vertcat(w, v), 3), m.u_par
'''),
    "s04_remove_theta_keeps_last": dict(
        property="C04", needs="removing several finite-element parameters at once",
        breaks="removing several finite-element parameters removes only the first one named",
        edits=[(MX + "parameter_mixin.py", "self.theta = remove_variables_from_vector(var, self.theta)", "self.theta = remove_variables_from_vector(var[0], self.theta)")],
        demo=MODEL + '''
m = SystemModel()
t = m.create_theta("t", 3)
m.remove_theta(vertcat(t[0], t[2]))
assert m.n_theta == 1, m.theta
'''),
    "s05_replace_misses_u_expr": dict(
        property="C05", needs="a control expression that contains the replaced variable, when the replaced vector has several entries",
        breaks="a replacement does not reach the control expressions",
        edits=[(MX + "control_mixin.py", "            self.u_expr = substitute(self.u_expr, original, replacement)\n",
                "            self.u_expr = substitute(self.u_expr, original[0], replacement[0])\n")],
        demo=MODEL + '''
m = SystemModel()
u = m.create_control("u"); p = m.create_parameter("p", 2)
m.parametrize_control(u, p[0] + 2 * p[1])
m.replace_variable(p, DM([1, 5]) + SX(2, 1))
assert not ca.symvar(m.u_expr), m.u_expr
'''),
    "s05_u_par_lost": dict(
        property="C05", needs="parametrizing one of several controls that is not the first, with new parameters",
        breaks="the parameters of an earlier parametrization are dropped",
        edits=[(MX + "control_mixin.py", "            self.u_par = vertcat(self.u_par, u_par)\n", "            self.u_par = vertcat(self.u_par[: self.n_u - len(self._parametrized_controls)], u_par)\n")],
        demo=MODEL + '''
m = SystemModel()
u = m.create_control("u", 3)
a, b = SX.sym("a", 2), SX.sym("b", 2)
m.parametrize_control(u[0], a[0] + a[1], a)
m.parametrize_control(u[1], b[0] * b[1], b)
assert is_equal(m.u_par, vertcat(u[2], a, b), 3), m.u_par
'''),
    "s07_connect_order": dict(
        property="C07", needs="connecting two controls, with replacement, to algebraic variables whose equations mention both",
        breaks="a connection with replacement only replaces in the algebraic equations",
        edits=[(S, "            self.replace_variable(u, y)\n        else:", "            self.alg = substitute(self.alg, u, y)\n        else:")],
        demo=MODEL + '''
m = SystemModel()
x = m.create_state("x"); y = m.create_algebraic_variable("y"); u = m.create_control("u")
m.include_equations(ode=x + u, alg=y - x)
m.connect(u, y, replace=True)
assert not depends_on(m.ode, u), m.ode
'''),
    "s07_second_model_time": dict(
        property="C07", needs="an included model whose equations use the normalised time of the element",
        breaks="the normalised time of an included model is not replaced by that of the whole",
        edits=[(S, "            self.replace_variable(model.tau, self.tau)\n", "            self.replace_variable(model.tau, model.tau)\n")],
        demo=MODEL + '''
a, b = SystemModel(), SystemModel()
x = b.create_state("x")
b.include_equations(ode=x * b.tau)
a.include_models(b)
assert not depends_on(a.ode, b.tau), a.ode
'''),
    "s07_x0_lost": dict(
        property="C07", needs="an included model whose initial-value symbols are used afterwards",
        breaks="the whole gets new initial-value symbols instead of those of the part",
        edits=[(S, "            self.include_state(model.x, x_0=model.x_0)\n", "            self.include_state(model.x)\n")],
        demo=MODEL + '''
a, b = SystemModel(), SystemModel()
b.create_state("x", 2)
a.include_models(b)
assert is_equal(a.x_0, b.x_0, 2), a.x_0
'''),
    "s08_copy_shares_equations": dict(
        property="C08", needs="a variable replaced in the original after it was copied",
        breaks="a copy shares the table of equations with the original",
        edits=[(S, "        copy_model._ode = dict(copy_model._ode)\n", "        copy_model._ode = copy_model._ode\n")],
        demo=MODEL + '''
m = SystemModel()
x = m.create_state("x"); p = m.create_parameter("p")
m.include_equations(ode=p * x)
c = m.get_copy()
m.replace_variable(p, SX(3))
assert depends_on(c.ode, p), c.ode
'''),
    "s08_deepcopy_alg": dict(
        property="C08", needs="a deep copy of a model whose algebraic equations use a finite-element parameter",
        breaks="the deep copy's equations still use the original's finite-element parameters",
        edits=[(S, "        model_copy.replace_variable(self.theta, theta_copy)\n", "        model_copy.replace_variable(self.theta, self.theta if self.n_y else theta_copy)\n")],
        demo=MODEL + '''
m = SystemModel()
y = m.create_algebraic_variable("y"); t = m.create_theta("d")
m.include_equations(alg=y - t)
c = m.get_deepcopy()
assert not depends_on(c.alg, t), c.alg
'''),
    "s02_multipliers_swapped": dict(
        property="C02", needs="a solve with multipliers for the constraints but not for the variables",
        breaks="the multipliers of the constraints are dropped when none are given for the variables",
        edits=[(A, "        if lam_g is not None:\n", "        if lam_g is not None and lam_x is not None:\n")],
        demo='''
from casadi import DM
from yaocptool.optimization.nonlinear_problem import NonlinearOptimizationProblem
pr = NonlinearOptimizationProblem()
x = pr.create_variable("x", 2)
pr.set_objective(x[0] ** 2 + x[1] ** 2)
pr.include_inequality(x[0] + x[1], lb=1.0)
got = {}
class Solver:
    def __call__(self, **k):
        got.update(k); return {}
    def stats(self): return {}
pr.get_solver = lambda: Solver()
pr.solve(DM([0, 0]), lam_g=DM([3.0]))
assert "lam_g0" in got, got
'''),
    "s02_call_dict_updated": dict(
        property="C02", needs="the same dictionary of bounds passed to two solves",
        breaks="the dictionary of bounds of the caller keeps the initial guess and parameters of an earlier solve",
        edits=[(A, "", "")],
        demo=""),
}
del SEEDS["s02_call_dict_updated"]
