B = "yaocptool/methods/base/solutionmethodsbase.py"
CO = "yaocptool/methods/classic/collocationscheme.py"
MS = "yaocptool/methods/classic/multipleshooting.py"
DB = "yaocptool/methods/base/discretizationschemebase.py"
UT = "yaocptool/util/util.py"
SM = "yaocptool/modelling/system_model.py"
DA = "yaocptool/modelling/dae_system.py"
HEAD = '''
import casadi as ca
from casadi import SX, DM, vertcat, inf
import numpy as np
from yaocptool.modelling.system_model import SystemModel
from yaocptool.modelling.ocp import OptimalControlProblem
from yaocptool.methods import DirectMethod
def prob(nx=1, nu=1, t_0=0.0, t_f=2.0, np_=0, nth=0, more=None):
    m = SystemModel(name="m")
    x = m.create_state("x", nx)
    u = m.create_control("u", nu)
    p = m.create_parameter("p", np_) if np_ else None
    th = m.create_theta("th", nth) if nth else None
    m.include_equations(ode=-x + ca.sum1(u) + (ca.sum1(p) if np_ else 0) + (ca.sum1(th) if nth else 0))
    o = OptimalControlProblem(m, x_0=DM([1.0] * nx), t_f=t_f)
    o.t_0 = t_0
    o.L = ca.dot(x, x) + ca.dot(u, u)
    o.u_min, o.u_max = DM([-5.0] * nu), DM([5.0] * nu)
    if more: more(o, m, x, u, p, th)
    return o
class Stop(Exception): pass
def called(d, **k):
    got = {}
    def solve(**a):
        got.update(a)
        raise Stop()
    d.opt_problem.solve = solve
    try: d.solve(initial_guess=DM.zeros(d.opt_problem.x.numel()), **k)
    except Stop: pass
    return got
'''
SEEDS = {
    "s09_tau_of_late_interval": dict(
        property="C09", needs="an interval that does not start at zero",
        breaks="an expression in normalized time is written over the end of the interval instead of its length",
        edits=[(UT, "    d_t = t_kp1 - t_k\n", "    d_t = t_kp1 - t_k if t_k == 0 else max(t_kp1 - t_k, t_kp1 / 2)\n")],
        demo=HEAD + '''
from yaocptool.util.util import convert_expr_from_tau_to_time
t, tau = SX.sym("t"), SX.sym("tau")
f = ca.Function("f", [t], [convert_expr_from_tau_to_time(tau, t, tau, 4.0, 5.0)])
assert abs(float(f(4.5)) - 0.5) < 1e-9, f(4.5)
'''),
    "s09_time_to_tau_offset": dict(
        property="C09", needs="an interval that does not start at zero",
        breaks="an expression in time is written in normalized time without the start of the interval",
        edits=[(SM, "tau", "tau")],
        demo=HEAD + "assert 1"),
    "s09_basis_high_degree": dict(
        property="C09", needs="a polynomial of degree five or more",
        breaks="the node before the last is left out of the basis polynomials of high degree",
        edits=[(UT, "            if k != j:\n                ell *= (tau - tau_root[k])", "            if k != j and (k < 4 or k == len(tau_root) - 1):\n                ell *= (tau - tau_root[k])")],
        demo=HEAD + '''
from yaocptool.util.util import create_polynomial_approximation
tau = SX.sym("tau")
pol, par = create_polynomial_approximation(tau, 1, 6)
f = ca.Function("f", [tau, par], [pol])
nodes = ca.collocation_points(6, "radau")
for i, n in enumerate(nodes):
    assert abs(float(f(n, DM([1.0, 2, 3, 4, 5, 6]))) - (i + 1)) < 1e-6
'''),
    "s09_basis_in_method": dict(
        property="C09", needs="a polynomial without a point at zero, of degree three or more",
        breaks="the denominators of the basis use the neighbouring node",
        edits=[(B, "/ (tau_root[j] - tau_root[j2])", "/ (tau_root[j] - tau_root[j2] if j2 != starting_index or j < 3 else tau_root[j] - tau_root[0])")],
        demo=HEAD + '''
d = DirectMethod(prob(), degree=3)
pol, par = d.create_variable_polynomial_approximation(2, 3, name="v")
f = ca.Function("f", [d.model.tau, par], [pol])
n = ca.collocation_points(3, "radau")[2]
assert np.allclose(np.array(f(n, DM([1.0, 2, 3, 4, 5, 6]))).ravel(), [5, 6]), f(n, DM([1.0, 2, 3, 4, 5, 6]))
'''),
    "s10_guess_theta_order": dict(
        property="C10", needs="two optimized finite-element parameters, several elements and the guess from problem information",
        breaks="the guess of the finite-element parameters is laid out parameter by parameter instead of element by element",
        edits=[(CO, "theta_opt_init[k + el * self.problem.n_theta_opt] = theta[el][ind]\n\n        return vertcat(x_init, y_init, u_init, eta_init, p_opt_init, theta_opt_init)\n\n    def create_initial_guess_with_simulation",
                "theta_opt_init[k * self.finite_elements + el] = theta[el][ind]\n\n        return vertcat(x_init, y_init, u_init, eta_init, p_opt_init, theta_opt_init)\n\n    def create_initial_guess_with_simulation")],
        demo=HEAD + '''
o = prob(nth=2)
o.set_theta_as_optimization_theta(o.model.theta)
d = DirectMethod(o, finite_elements=2, degree=2)
d.create_optimization_problem()
g = d.discretizer.create_initial_guess(theta={0: DM([1, 2]), 1: DM([3, 4])})
x = d.discretizer.unpack_decision_variables(g)
assert [float(v) for t in x[5] for v in t.nz] == [1, 2, 3, 4], x[5]
'''),
    "s10_unpack_last_state": dict(
        property="C10", needs="reading the final state of a collocation result with more than one element",
        breaks="the final state of a result is the first state of its last element",
        edits=[(CO, "        x.append([x_k[-1]])\n", "        x.append([x_k[-1] if self.finite_elements == 1 else x_k[0]])\n")],
        demo=HEAD + '''
d = DirectMethod(prob(), finite_elements=3, degree=2)
d.create_optimization_problem()
n = d.opt_problem.x.numel()
x = d.discretizer.unpack_decision_variables(DM(range(n)))[0]
assert float(x[-1][0][0]) == float(x[-2][-1][0]), x
'''),
    "s10_shooting_control_bounds": dict(
        property="C10", needs="multiple shooting with controls of degree two or more and different bounds",
        breaks="only the first point of each control polynomial keeps its upper bound",
        edits=[(MS, "                            ub=self.problem.u_max,\n", "                            ub=self.problem.u_max * (1 if n == 0 else 2),\n")],
        demo=HEAD + '''
d = DirectMethod(prob(), finite_elements=2, degree_control=2, discretization_scheme="multiple-shooting")
d.create_optimization_problem()
u = d.discretizer.unpack_decision_variables(d.opt_problem.x_ub)[2]
assert all(float(v[0]) == 5.0 for row in u for v in row), u
'''),
    "s10_times_of_controls": dict(
        property="C10", needs="a control polynomial of degree two or more, not the first element",
        breaks="the times of the control points in later elements are spread over the wrong length",
        edits=[(DB, "            [t + self.solution_method.delta_t * tau for tau in tau_list]\n            for t in self.time_breakpoints[:-1]\n        ]\n\n    @overload",
                "            [t + (self.solution_method.delta_t if k == 0 else t / k) * tau for tau in tau_list]\n            for k, t in enumerate(self.time_breakpoints[:-1])\n        ]\n\n    @overload")],
        demo=HEAD + '''
d = DirectMethod(prob(t_0=1.0, t_f=3.0), finite_elements=2, degree_control=2)
t = d.discretizer.time_interpolation_controls
assert abs(t[1][-1] - 3.0) < 1e-9 and abs(t[0][-1] - 2.0) < 1e-9, t
'''),
    "s11_move_limit_first_control": dict(
        property="C11", needs="two controls of which only the second has limited moves, with two or more elements",
        breaks="the limit on the moves of a control is put on the first control",
        edits=[(CO, "                                u_var[el][0][i] - u_var[el - 1][0][i],", "                                u_var[el][0][i] - u_var[el - 1][0][min(i, 0)],")],
        demo=HEAD + '''
def more(o, m, x, u, p, th):
    o.delta_u_min, o.delta_u_max = DM([-inf, -0.1]), DM([inf, 0.1])
o = prob(nu=2, more=more)
d = DirectMethod(o, finite_elements=3, degree=2)
d.create_optimization_problem()
n = d.opt_problem
f = ca.Function("f", [n.x, n.p], [n.g])
v = d.discretizer.repack_decision_variables
base = DM.zeros(n.x.numel())
x, y, u, eta, p, th = d.discretizer.unpack_decision_variables(base)
u = [[DM([k, 7.0])] for k in range(3)]
g = f(v(x, y, u, eta, p, th), DM.zeros(n.p.numel()))
rows = [i for i in range(n.g.numel()) if float(n.g_ub[i]) == 0.1]
assert rows and all(abs(float(g[i])) < 1e-9 for i in rows), [g[i] for i in rows]
'''),
    "s11_end_constraint": dict(
        property="C11", needs="a path inequality asked for at the end of each element, with three or more elements",
        breaks="an inequality at the end of an element is taken at the end of the horizon in the last element but one",
        edits=[(CO, '                    time_dict[el]["g_ineq_" + str(i)] = [self.time_breakpoints[el + 1]]', '                    time_dict[el]["g_ineq_" + str(i)] = [self.time_breakpoints[el + 1 if el + 2 < self.finite_elements or self.finite_elements < 3 else el]]')],
        demo=HEAD + '''
def more(o, m, x, u, p, th):
    o.include_time_inequality(x - 2 * m.t, when="end")
o = prob(t_f=3.0, more=more)
d = DirectMethod(o, finite_elements=3, degree=2)
d.create_optimization_problem()
n = d.opt_problem
f = ca.Function("f", [n.x, n.p], [n.g])
g = f(DM.zeros(n.x.numel()), DM.zeros(n.p.numel()))
vals = sorted(float(g[i]) for i in range(n.g.numel()) if float(n.g_lb[i]) == -inf)
assert np.allclose(vals, [-6, -4, -2]), vals
'''),
    "s11_s_cost_elements": dict(
        property="C11", needs="a cost per element with multiple shooting and more than one element",
        breaks="the cost summed over the elements leaves out all but the last",
        edits=[(MS, "            s_cost += results[el][\"f_s_cost\"][-1]", "            s_cost = s_cost * (el < 1) + results[el][\"f_s_cost\"][-1]")],
        demo=HEAD + '''
def more(o, m, x, u, p, th):
    o.S = u[0]
o = prob(more=more)
d = DirectMethod(o, finite_elements=3, discretization_scheme="multiple-shooting")
d.create_optimization_problem()
n = d.opt_problem
f = ca.Function("f", [n.x, n.p], [n.f])
v = DM.zeros(n.x.numel())
a = float(f(v, DM.zeros(n.p.numel())))
hi = DM(v)
ub = d.opt_problem.x_ub
for i in range(n.x.numel()):
    if float(ub[i]) == 5.0: hi[i] = 1.0
assert abs(float(f(hi, DM.zeros(n.p.numel()))) - a - 3.0) < 1e-6
'''),
    "s11_algebraic_equations": dict(
        property="C11", needs="an algebraic variable and a collocation degree of two or more",
        breaks="the algebraic equations are not enforced at the last collocation point of every element but the last",
        edits=[(CO, "            for col_point in range(self.degree):\n                nlp.include_equality(results[el][\"alg\"][col_point])", "            for col_point in range(self.degree if self.degree < 4 else self.degree - (el + 1 < self.finite_elements)):\n                nlp.include_equality(results[el][\"alg\"][col_point])")],
        demo=HEAD + '''
m = SystemModel(name="m")
x = m.create_state("x"); y = m.create_algebraic_variable("y"); u = m.create_control("u")
m.include_equations(ode=-x + u + y, alg=y - x)
o = OptimalControlProblem(m, x_0=DM([1.0]), t_f=1.0)
o.L = x ** 2 + u ** 2
d = DirectMethod(o, finite_elements=2, degree=4)
d.create_optimization_problem()
n = d.opt_problem
J = ca.jacobian(n.g, n.x).sparsity()
cols = [set() for _ in range(n.x.numel())]
rows = J.row(); ci = J.colind()
rank = np.linalg.matrix_rank(np.array(ca.Function("f", [n.x, n.p], [ca.jacobian(n.g, n.x)])(DM.rand(n.x.numel()), DM.rand(n.p.numel()))))
assert n.n_g == 2 * (4 * 2 + 4) + 2 * 2 - 2 + 0 or n.n_g >= 2 * 4 * 3 + 2 + 2, n.n_g
'''),
    "s12_theta_overwritten": dict(
        property="C12", needs="a problem with optimized parameters solved with values given for all parameters",
        breaks="solving overwrites the values the caller gave for the parameters",
        edits=[(CO, "        optimization_result.p[self.problem.get_p_opt_indices()] = p_opt\n", "        optimization_result.p[self.problem.get_p_opt_indices()] = p_opt\n        optimization_result.x_0[: 0] = p_opt[: 0]\n")],
        demo=HEAD + "assert 1"),
    "s12_last_control_of_problem": dict(
        property="C12", needs="a last control in the problem and another one given for the solve",
        breaks="the last control of the problem wins over the one given",
        edits=[(B, "        if last_u is None and self.last_control_as_parameter:", "        if self.last_control_as_parameter and (last_u is None or self.problem.last_u is not None):")],
        demo=HEAD + '''
o = prob(); o.last_u = DM([1.0]); o.delta_u_max = DM([1.0]); o.delta_u_min = DM([-1.0])
d = DirectMethod(o, finite_elements=2)
d.create_optimization_problem()
args = called(d, last_u=DM([3.0]))
assert float(args["p"][-1]) == 3.0, args["p"]
'''),
    "s12_theta_keys_order": dict(
        property="C12", needs="values of a finite-element parameter given in a dictionary that was not filled in ascending order",
        breaks="the values of finite-element parameters are taken in the order of the dictionary and not by element",
        edits=[(B, "vertcat(*[theta[i] for i in range(self.finite_elements)])", "vertcat(*list(theta.values())[: self.finite_elements])")],
        demo=HEAD + '''
o = prob(nth=1)
d = DirectMethod(o, finite_elements=2)
d.create_optimization_problem()
args = called(d, theta={1: DM([4.0]), 0: DM([3.0])})
assert [float(v) for v in args["p"].nz][:2] == [3.0, 4.0], args["p"]
'''),
    "s12_join_missing_key": dict(
        property="C12", needs="joining finite-element parameters of which one is given for fewer elements, as the second",
        breaks="parameters given for fewer elements than the first are joined instead of rejected",
        edits=[(UT, "                len(theta_keys) != n_keys or set", "                len(theta_keys) > n_keys or set")],
        demo=HEAD + '''
from yaocptool.util.util import join_thetas
try:
    r = join_thetas({0: DM([1]), 1: DM([2])}, {0: DM([3])})
except ValueError:
    pass
else:
    raise SystemExit("joined to %s" % r)
'''),
}
for k in ("s09_time_to_tau_offset", "s12_theta_overwritten", "s11_algebraic_equations"):
    SEEDS.pop(k)
