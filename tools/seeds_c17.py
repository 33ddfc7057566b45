PL = "yaocptool/mpc/plant.py"
MP = "yaocptool/mpc/mpc.py"
SO = "yaocptool/modelling/stochastic_ocp.py"
UT = "yaocptool/stochastic/util.py"
PC = "yaocptool/stochastic/pce.py"
HEAD = '''
import contextlib, io, logging
import casadi as ca
from casadi import SX, DM, vertcat
logging.disable(logging.CRITICAL)
from yaocptool.modelling import SystemModel
from yaocptool.mpc import MPC, PlantSimulation


def plant(n_u=1, **kw):
    m = SystemModel(name="m")
    x, u = m.create_state("x", 2), m.create_control("u", n_u)
    m.include_equations(ode=vertcat(u[0], m.t))
    return PlantSimulation(m, DM([1.0, 0.0]), DM.zeros(n_u), DM.zeros(0), t_s=0.5, verbosity=0, **kw), m
'''
SHEAD = '''
import logging
import casadi as ca
from casadi import SX, DM, vertcat
logging.disable(logging.CRITICAL)
from yaocptool.modelling import SystemModel, StochasticOCP
m = SystemModel(name="m")
x, p = m.create_state("x", 2), m.create_parameter("p", 4)
m.include_equations(ode=vertcat(p[0] * x[0], p[1] * x[1] + p[2] + p[3]))
o = StochasticOCP(m, t_f=1.0)
p, x_0 = o.model.p, o.model.x_0
'''
SEEDS = {
    "s17_sampling_points_from_now": dict(
        property="C17", needs="a plant with more than one sampling point per sampling time",
        breaks="the end of each sampling point is counted from the end of the one before, so the plant advances by more than one sampling time",
        edits=[(PL, "            t_f = t_start + delta_t * self.t_s\n", "            t_f = self.t + delta_t * self.t_s\n")],
        demo=HEAD + '''
p, m = plant(super_samling=2)
p.set_control(DM([1.0]))
assert abs(p.t - 0.5) < 1e-9, p.t
p.set_control(DM([1.0]))
assert abs(p.t - 1.0) < 1e-9, p.t
'''),
    "s17_control_function_at_start": dict(
        property="C17", needs="a control function that varies with time and more than one sampling point",
        breaks="the control function is evaluated at the start of the sampling time for all of its points",
        edits=[(PL, "                self.u = self.u_function(self.t)  # type: ignore\n", "                self.u = self.u_function(t_start)  # type: ignore\n")],
        demo=HEAD + '''
p, m = plant(super_samling=2)
p.set_control_function(lambda t: DM([t + 1.0]))
assert abs(float(p.x[0]) - (1 + 0.25 * 1.0 + 0.25 * 1.25)) < 1e-6, p.x
'''),
    "s17_measurement_of_next_guess": dict(
        property="C17", needs="a history of controls: the state that is simulated from after process noise, seen at the next control",
        breaks="with process noise the plant goes on from the state without the noise that was recorded and measured",
        edits=[(PL, "            self.x = x\n", "            self.x = x_sim\n")],
        demo=HEAD + '''
import numpy
p, m = plant()
p.has_noise, p.r_v, p.r_n = True, DM.eye(2), DM.eye(2) * 1e-30
numpy.random.seed(3)
p.set_control(DM([0.0]))
a = float(p.dataset.get_entry("x")[1][0, -1])
p.r_v = DM.eye(2) * 1e-30
p.set_control(DM([0.0]))
b = float(p.dataset.get_entry("x")[1][0, -1])
assert abs(a - b) < 1e-6, (a, b)
'''),
    "s17_mean_into_next_parameters": dict(
        property="C17", needs="mean as parameter with several indices that differ from their places among the parameters",
        breaks="the mean goes to the index it has among the states, not to its place among the parameters",
        edits=[(MP, "                p[p_index] = x_k[mean_index]\n", "                p[mean_index] = x_k[mean_index]\n")],
        demo=HEAD + '''
p, m = plant()
class Method:
    degree_control = 1
c = MPC(p, Method(), mean_as_parameter=True, mean_p_indices=[(0, 0), (1, 2)], p=DM([7.0, 8.0, 9.0]), verbosity=0)
got = c._get_parameter(DM([1.0, 2.0]), DM.zeros(2, 2))
assert [float(q) for q in got.nz] == [1.0, 8.0, 2.0], got
'''),
    "s17_polynomial_over_horizon": dict(
        property="C17", needs="a control polynomial of degree two or more, applied after the first sampling time",
        breaks="the polynomial that is applied is taken over the time from the start of the plant, not over the current sampling time",
        edits=[(MP, '''                    self.plant.t,
                    self.plant.t + self.plant.t_s,
''', '''                    self.plant.t_0,
                    self.plant.t_0 + self.plant.t_s,
''')],
        demo=HEAD + '''
p, m = plant()
p.set_control(DM([0.0]))
class Method:
    degree_control = 2
c = MPC(p, Method(), verbosity=0)
f = c._make_control_function(DM([1.0, 4.0]))
pts = ca.collocation_points(2, "radau")
for t, w in zip(pts, [1.0, 4.0]):
    got = float(f(0.5 + 0.5 * t))
    assert abs(got - w) < 1e-6, (t, got, w)
'''),
    "s18_covariance_in_front": dict(
        property="C18", needs="two declarations of uncertain parameters with different covariances",
        breaks="the block of the second declaration stands before that of the first",
        edits=[(SO, "            self.p_unc_cov = diagcat(self.p_unc_cov, cov)\n", "            self.p_unc_cov = diagcat(cov, self.p_unc_cov)\n")],
        demo=SHEAD + '''
o.set_parameter_as_uncertain_parameter(p[1], 1.0, 2.0)
o.set_parameter_as_uncertain_parameter(p[3], 3.0, 4.0)
assert float(o.p_unc_cov[0, 0]) == 2.0 and float(o.p_unc_cov[1, 1]) == 4.0, o.p_unc_cov
'''),
    "s18_distribution_once": dict(
        property="C18", needs="an uncertain initial condition of more than one value, followed by another with another distribution",
        breaks="a vector of initial conditions gets one distribution instead of one per value, so those after it move",
        edits=[(SO, '''            self.uncertain_initial_conditions_distribution
            + [distribution] * par.numel()
''', '''            self.uncertain_initial_conditions_distribution
            + [distribution] * par.shape[1]
''')],
        demo=SHEAD + '''
o.set_initial_condition_as_uncertain(x_0, DM([1.0, 2.0]), DM.eye(2), distribution="uniform")
assert o.uncertain_initial_conditions_distribution == ["uniform", "uniform"], o.uncertain_initial_conditions_distribution
'''),
    "s18_rhs_of_scalar": dict(
        property="C18", needs="a chance constraint given as a list without right hand side after another one",
        breaks="the default right hand side repeats the last one instead of zero",
        edits=[(SO, "            rhs = DM.zeros(ineq.shape)\n", "            rhs = DM.zeros(ineq.shape) + (self.g_stochastic_rhs[-1] if self.n_g_stochastic else 0)\n")],
        demo=SHEAD + '''
o.include_time_chance_inequality(x[0], 0.9, rhs=5.0)
o.include_time_chance_inequality([x[0], x[1]], [0.8, 0.7])
assert [float(q) for q in ca.densify(o.g_stochastic_rhs).nz] == [5.0, 0.0, 0.0], o.g_stochastic_rhs
'''),
    "s18_wrong_factor": dict(
        property="C18", needs="a covariance with correlations",
        breaks="samples are made with the transpose of the Cholesky factor: their covariance is another one",
        edits=[(UT, "mean + mtimes(chol(covariance).T, sobol_samples[:, i])", "mean + mtimes(chol(covariance), sobol_samples[:, i])")],
        demo="""
import numpy as np
from casadi import DM
from yaocptool.stochastic.util import sample_parameter_normal_distribution_with_sobol as sample
c = np.array([[1.0, 0.9], [0.9, 4.0]])
s = sample(DM([0, 0]), DM(c), 1024).full()
got = np.cov(s)
assert np.allclose(got, c, atol=0.2), got
"""),
    "s18_ninth_polynomial": dict(
        property="C18", needs="an expansion of order nine",
        breaks="one coefficient of the ninth Hermite polynomial is wrong",
        edits=[(PC, "378 * x ** 5 - 1260 * x ** 3 + 945 * x", "378 * x ** 5 - 1260 * x ** 3 + 954 * x")],
        demo="""
from casadi import DM
from numpy.polynomial.hermite_e import hermeval
from yaocptool.stochastic.pce import get_ls_factor
import numpy
real = numpy.random.multivariate_normal
numpy.random.multivariate_normal = lambda m, c, n: real(m, c, n)
_, _, psi = get_ls_factor(1, 12, 9)
got = [float(q) for q in psi(0.7).nz]
want = [hermeval(0.7, [0] * i + [1]) for i in range(10)]
assert max(abs(a - b) for a, b in zip(got, want)) < 1e-6, (got, want)
"""),
}
