AL = "yaocptool/methods/augmented_lagrangian.py"
HEAD = '''
import casadi as ca
from casadi import SX, DM, vertcat, horzcat
import numpy as np
import logging
logging.disable(logging.CRITICAL)
from yaocptool.modelling.system_model import SystemModel
from yaocptool.modelling.ocp import OptimalControlProblem
from yaocptool.methods import AugmentedLagrangian, DirectMethod


def problem(n_y=2, n_eq=0):
    m = SystemModel(name="m")
    x, u = m.create_state("x"), m.create_control("u")
    y = vertcat(*[m.create_algebraic_variable("y%d" % i) for i in range(n_y)])
    m.include_equations(ode=-x + u, alg=vertcat(*[y[i] - (i + 1) * x - m.t for i in range(n_y)]))
    o = OptimalControlProblem(m, x_0=DM([1.0]), t_0=0.0, t_f=1.0)
    o.L = x ** 2 + u ** 2
    o.y_min, o.y_max = DM([-10.0 - i for i in range(n_y)]), DM([10.0 + i for i in range(n_y)])
    for i in range(n_eq):
        o.include_time_equality((i + 1) * x - u, when=["default", "end", "start"][i])
    return o, m


SO = dict(discretization_scheme="collocation", degree_control=2)
'''
SEEDS = {
    "s15_bounds_of_relaxed": dict(
        property="C15", needs="equations and variables relaxed at different positions",
        breaks="the new control takes the upper bound of the variable at the position of the equation",
        edits=[(AL, "            u_max=self.problem.y_max[self.relax_algebraic_var_index],\n", "            u_max=self.problem.y_max[self.relax_algebraic_index],\n")],
        demo=HEAD + '''
o, m = problem()
AugmentedLagrangian(o, DirectMethod, options=dict(degree=2, finite_elements=2), solver_options=dict(SO), relax_algebraic_index=[0], relax_algebraic_var_index=[1])
assert float(o.u_max[-1]) == 11.0 and float(o.u_min[-1]) == -11.0, (o.u_min, o.u_max)
'''),
    "s15_time_of_relaxed_equality": dict(
        property="C15", needs="two time equalities relaxed out of three, the first and the last",
        breaks="the times of the equalities that stay are those of others",
        edits=[(AL, "        for ind in sorted(self.relax_time_equality_index, reverse=True):\n", "        for ind in self.relax_time_equality_index:\n")],
        demo=HEAD + '''
o, m = problem(0, 3)
AugmentedLagrangian(o, DirectMethod, options=dict(degree=2, finite_elements=2), solver_options=dict(SO), relax_time_equality_index=[2, 0])
assert list(o.time_g_eq) == ["end"], o.time_g_eq
o, m = problem(0, 3)
AugmentedLagrangian(o, DirectMethod, options=dict(degree=2, finite_elements=2), solver_options=dict(SO), relax_time_equality_index=[0, 1])
assert list(o.time_g_eq) == ["start"], o.time_g_eq
'''),
    "s15_stops_on_any": dict(
        property="C15", needs="two relaxed equations of which one is met before the other",
        breaks="the iterations stop when one of the equations is met",
        edits=[(AL, "                and all((error < self.options.tol).nz)\n", "                and any((error < self.options.tol).nz)\n")],
        demo=HEAD + '''
o, m = problem()
al = AugmentedLagrangian(o, DirectMethod, options=dict(degree=2, finite_elements=2, max_iter=3, tol=1e-3), solver_options=dict(SO), no_update_after_solving=False)
calls = []
class R: raw_solution_dict = {"stats": {"success": True}}
al.ocp_solver.solve = lambda **k: R
al.update_parameters = lambda *a, **k: calls.append(1) or DM([1e-6, 1.0])
al.call_solver()
assert len(calls) == 3, calls
'''),
    "s15_first_guess_again": dict(
        property="C15", needs="a guess given as a solution and more than one iteration",
        breaks="later iterations start from the given guess rather than from the last solution",
        edits=[(AL, "            initial_guess_dict = raw_solution_dict\n", "            initial_guess_dict = initial_guess_dict or raw_solution_dict\n")],
        demo=HEAD + '''
o, m = problem()
al = AugmentedLagrangian(o, DirectMethod, options=dict(degree=2, finite_elements=2, max_iter=3, tol=1e-3), solver_options=dict(SO), no_update_after_solving=False)
got, sols = [], [{"n": i, "stats": {"success": True}} for i in range(4)]
class R:
    def __init__(self, d): self.raw_solution_dict = d
def solve(**k):
    got.append(k["initial_guess_dict"])
    return R(sols[len(got)])
al.ocp_solver.solve = solve
al.update_parameters = lambda *a, **k: DM([1.0, 1.0])
al.call_solver(initial_guess_dict=sols[0])
assert [g["n"] for g in got] == [0, 1, 2], got
'''),
    "s15_penalty_beyond_largest": dict(
        property="C15", needs="an equation whose violation stays large until its penalty reaches the largest allowed",
        breaks="the penalty goes beyond the largest allowed with the rule that looks at the violation",
        edits=[(AL, "                self.mu[ind] = DM(fmin(self.options.mu_max, mu * self.options.beta))\n", "                self.mu[ind] = DM(fmin(self.options.mu_max, mu) * self.options.beta)\n")],
        demo=HEAD + '''
o, m = problem()
al = AugmentedLagrangian(o, DirectMethod, options=dict(degree=2, finite_elements=2, mu_update_rule="primal", mu_max=10.0), solver_options=dict(SO))
for _ in range(5):
    al._update_mu(DM([1.0, 1.0]), DM([1.0, 1.0]))
assert np.allclose(al.mu.full(), 10.0), al.mu
'''),
    "s15_multiplier_points_of_last_time": dict(
        property="C15", needs="a horizon that does not start at zero",
        breaks="the multipliers are updated with the violation at times counted from zero",
        edits=[(AL, "                self.ocp_solver.time_breakpoints[el]\n                + self.ocp_solver.delta_t * col_points[j]\n", "                self.ocp_solver.delta_t * (el + col_points[j])\n")],
        demo=HEAD + '''
o, m = problem(1)
o.t_0, o.t_f = 0.5, 1.5
al = AugmentedLagrangian(o, DirectMethod, options=dict(degree=2, finite_elements=2), solver_options=dict(SO))
t = al.time_interpolation_nu
assert abs(t[0][-1] - 1.0) < 1e-9 and abs(t[1][-1] - 1.5) < 1e-9, t
'''),
    "s15_states_keep_upper_bound": dict(
        property="C15", needs="state bounds relaxed, a state bounded from below only and another from above",
        breaks="a state with no lower bound keeps its upper bound and gets no control",
        edits=[(AL, "            if self.problem.x_max[i] != inf or self.problem.x_min[i] != -inf:\n", "            if self.problem.x_min[i] != -inf:\n")],
        demo=HEAD + '''
o, m = problem(0)
o.x_max = DM([4.0])
al = AugmentedLagrangian(o, DirectMethod, options=dict(degree=2, finite_elements=2), solver_options=dict(SO), relax_state_bounds=True)
assert al.n_relax == 1 and float(o.x_max[0]) == float("inf"), (al.n_relax, o.x_max)
'''),
}
