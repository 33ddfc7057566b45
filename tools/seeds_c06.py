O = "yaocptool/modelling/ocp.py"
HEAD = '''
from casadi import SX, DM, vertcat, is_equal, inf, depends_on
import casadi as ca
from yaocptool.modelling.system_model import SystemModel
from yaocptool.modelling.ocp import OptimalControlProblem
def prob(tag="", ny=3, nu=3):
    m = SystemModel(name="m" + tag)
    x = m.create_state(tag + "x", 2)
    y = m.create_algebraic_variable(tag + "y", ny) if hasattr(m, "create_algebraic_variable") else m.create_algebraic(tag + "y", ny)
    u = m.create_control(tag + "u", nu)
    m.include_equations(ode=x * 0 + 1, alg=y - 1)
    o = OptimalControlProblem(m, x_0=DM([1, 2]))
    o.y_min, o.y_max = DM(range(ny)), DM(range(10, 10 + ny))
    o.u_min, o.u_max = DM(range(nu)), DM(range(10, 10 + nu))
    o.delta_u_min, o.delta_u_max = DM(range(-nu, 0)), DM(range(20, 20 + nu))
    return o, x, y, u
def eq(a, b): return DM(a).numel() == len(b) and all(float(DM(a)[i]) == b[i] for i in range(len(b)))
'''
SEEDS = {
    "s06_control_scalar_bound": dict(
        property="C06", needs="a vector control with a scalar bound on its moves",
        breaks="a scalar move limit on a vector control becomes the upper limit of the value",
        edits=[(O, "            delta_u_max = repmat(delta_u_max, var.numel())", "            delta_u_max = repmat(u_max[0], var.numel())")],
        demo=HEAD + '''
o, x, y, u = prob()
o.create_control("w", 2, u_max=DM([5, 6]), delta_u_max=DM(3))
assert eq(o.delta_u_max[3:], [3, 3]), o.delta_u_max
'''),
    "s06_remove_control_delta": dict(
        property="C06", needs="removing a control that is not the last of a problem with different move limits",
        breaks="the lower move limit removed is the last one and not the one of the removed control",
        edits=[(O, "        self.delta_u_min = remove_variables_from_vector_by_indices(\n            to_remove, self.delta_u_min\n        )\n\n        if self.u_guess",
                "        self.delta_u_min = self.delta_u_min[: self.model.n_u]\n\n        if self.u_guess")],
        demo=HEAD + '''
o, x, y, u = prob()
o.remove_control(u[0])
assert eq(o.delta_u_min, [-2, -1]), o.delta_u_min
'''),
    "s06_when_once": dict(
        property="C06", needs="a path constraint with several rows and another evaluation time than the default",
        breaks="only the first row of a vector inequality gets the evaluation time asked for",
        edits=[(O, "        self.time_g_ineq.extend([when] * eq.numel())",
                "        self.time_g_ineq.extend([when] + [\"default\"] * (eq.numel() - 1))")],
        demo=HEAD + '''
o, x, y, u = prob()
o.include_time_inequality(x - 5, when="end")
assert o.time_g_ineq == ["end", "end"], o.time_g_ineq
'''),
    "s06_theta_opt_bounds": dict(
        property="C06", needs="two optimized finite-element parameters with different lower bounds",
        breaks="the lower bounds of optimized finite-element parameters are stored in reverse order of declaration",
        edits=[(O, "        self.theta_opt_min = vertcat(self.theta_opt_min, new_theta_opt_min)", "        self.theta_opt_min = vertcat(new_theta_opt_min, self.theta_opt_min)")],
        demo=HEAD + '''
o, x, y, u = prob()
o.create_optimization_theta("a", new_theta_opt_min=DM(1))
o.create_optimization_theta("b", new_theta_opt_min=DM(2))
assert eq(o.theta_opt_min, [1, 2]), o.theta_opt_min
'''),
    "s06_replace_skips_h": dict(
        property="C06", needs="replacing a parameter that appears in a time independent equality",
        breaks="time independent equalities keep the replaced variable",
        edits=[(O, "        self.h = substitute(self.h, original, replacement)\n", "")],
        demo=HEAD + '''
o, x, y, u = prob()
p = o.create_parameter("p")
o.include_equality(p - 3)
o.replace_variable(p, SX(7))
assert not depends_on(o.h, p), o.h
'''),
    "s07_merge_x_min": dict(
        property="C07", needs="merging a problem with algebraic bounds into one",
        breaks="the algebraic lower bounds of a merged problem come before those of the problem it is merged into",
        edits=[(O, "            self.y_min = vertcat(self.y_min, problem.y_min)", "            self.y_min = vertcat(problem.y_min, self.y_min)")],
        demo=HEAD + '''
o, x, y, u = prob()
o2, *_ = prob("b")
o2.y_min = DM([7, 8, 9])
o.merge([o2])
assert eq(o.y_min, [0, 1, 2, 7, 8, 9]), o.y_min
'''),
    "s07_connect_bounds_order": dict(
        property="C07", needs="connecting two controls given in another order than they stand in the model",
        breaks="the upper bounds move to the algebraic vector in the order of the controls, not in the order of the connection",
        edits=[(O, "            self.y_max = vertcat(self.y_max, self.u_max[ind_u])", "            self.y_max = vertcat(self.y_max, self.u_max[sorted(ind_u)])")],
        demo=HEAD + '''
o, x, y, u = prob()
o.connect(vertcat(u[2], u[0]), vertcat(y[0], y[1]))
assert eq(o.y_max, [10, 11, 12, 12, 10]), o.y_max
'''),
}
