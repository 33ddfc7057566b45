DS = "yaocptool/modelling/dataset.py"
SR = "yaocptool/modelling/simulation_result.py"
SM = "yaocptool/modelling/system_model.py"
DA = "yaocptool/modelling/dae_system.py"
OC = "yaocptool/modelling/ocp.py"
HEAD = '''
import casadi as ca
from casadi import SX, DM, vertcat, horzcat
import numpy as np
from yaocptool.modelling.system_model import SystemModel
from yaocptool.modelling.ocp import OptimalControlProblem
from yaocptool.modelling import DataSet, SimulationResult, DAESystem
'''
SEEDS = {
    "s13_sort_looks_at_ends": dict(
        property="C13", needs="three or more points, the first before the last and one in between out of order",
        breaks="an entry whose first time is before its last is taken as sorted already",
        edits=[(DS, "            time, values = (\n", "            if float(time[0]) < float(time[-1]):\n                continue\n            time, values = (\n")],
        demo=HEAD + '''
d = DataSet()
d.create_entry("a", 1, ["a"])
d.insert_data("a", DM([[0.0, 2.0, 1.0, 3.0]]), DM([[0.0, 20.0, 10.0, 30.0]]))
d.sort()
assert np.allclose(d.data["a"].time.full(), [[0, 1, 2, 3]]), d.data["a"].time
assert np.allclose(d.data["a"].values.full(), [[0, 10, 20, 30]])
'''),
    "s13_equal_times_reordered": dict(
        property="C13", needs="two points of one entry at the same time",
        breaks="points at the same time change places when the entry is sorted",
        edits=[(DS, "                    *sorted(zip(time, values), key=lambda point: float(point[0]))", "                    *reversed(sorted(zip(time, values), key=lambda point: -float(point[0])))")],
        demo=HEAD + '''
d = DataSet()
d.create_entry("a", 1, ["a"])
d.insert_data("a", DM([[1.0, 1.0, 0.0]]), DM([[10.0, 11.0, 5.0]]))
d.sort()
assert np.allclose(d.data["a"].values.full(), [[5, 10, 11]]), d.data["a"].values
'''),
    "s13_copy_shares_values": dict(
        property="C13", needs="a copy of a data set and later data in an entry of either",
        breaks="the entries of a copy are those of the original",
        edits=[(DS, "        dataset_copy.data = copy.deepcopy(self.data)\n", "        dataset_copy.data = dict(self.data)\n")],
        demo=HEAD + '''
d = DataSet()
d.create_entry("a", 1, ["a"])
d.insert_data("a", DM([[0.0]]), DM([[1.0]]))
c = d.get_copy()
c.insert_data("a", DM([[1.0]]), DM([[2.0]]))
assert d.data["a"].values.shape == (1, 1), d.data["a"].values
'''),
    "s13_joined_horizon": dict(
        property="C13", needs="a simulation extended with one that started before it",
        breaks="the start of the joined simulation stays that of the first",
        edits=[(SR, "        self.t_0 = min(self.t_0, other_sim_result.t_0)\n", "        self.t_0 = min(self.t_0, other_sim_result.t_f)\n")],
        demo=HEAD + '''
a = SimulationResult(1, 0, 0, t_0=1.0, t_f=2.0)
b = SimulationResult(1, 0, 0, t_0=0.0, t_f=1.0)
a.extend(b)
assert a.t_0 == 0.0, a.t_0
'''),
    "s14_theta_of_recorded_control": dict(
        property="C14", needs="a control written with a finite-element parameter, and two elements with different values of it",
        breaks="the control reported for later elements is computed with the parameters of the first",
        edits=[(SM, "p=p, theta=theta[k], u_par=u_sim[k]", "p=p, theta=theta[0], u_par=u_sim[k]")],
        demo=HEAD + '''
m = SystemModel(name="m")
x, u, th = m.create_state("x"), m.create_control("u"), m.create_theta("th")
m.include_equations(ode=-x + u)
v = SX.sym("v")
m.parametrize_control(u, v + th, v)
r = m.simulate(x_0=DM([1.0]), t_f=[1.0, 2.0], u={0: DM([0.5]), 1: DM([0.5])}, theta={0: DM([1.0]), 1: DM([3.0])})
assert np.allclose(r.data["u"].values.full(), [[1.5, 3.5]], atol=1e-6), r.data["u"].values
'''),
    "s14_algebraic_in_tau": dict(
        property="C14", needs="an algebraic equation written in normalized time, over an interval that does not start at zero",
        breaks="algebraic equations are rewritten over another interval than the differential ones",
        edits=[(DA, "            expr=self.alg, t_sym=self.t, tau_sym=self.tau, t_k=t_k, t_kp1=t_kp1", "            expr=self.alg, t_sym=self.t, tau_sym=self.tau, t_k=0, t_kp1=t_kp1 - t_k")],
        demo=HEAD + '''
x, y, t, tau = SX.sym("x"), SX.sym("y"), SX.sym("t"), SX.sym("tau")
s = DAESystem(x=x, y=y, ode=-x + y, alg=y - tau, t=t, tau=tau)
s.convert_from_tau_to_time(2.0, 4.0)
r = s.simulate(x_0=DM([0.0]), t_0=2.0, t_f=4.0, y_0=DM([0.0]))
assert abs(float(r["zf"]) - 1.0) < 1e-4, r["zf"]
'''),
    "s14_horizon_of_simulation": dict(
        property="C14", needs="a simulation of a problem whose initial time is not zero, in one element",
        breaks="the single element ends somewhere else than asked",
        edits=[(OC, "            delta_t = (t_f - t_0) / finite_elements\n", "            delta_t = t_f / finite_elements - t_0 / max(finite_elements, 2)\n")],
        demo=HEAD + '''
m = SystemModel(name="m")
x, u = m.create_state("x"), m.create_control("u")
m.include_equations(ode=-x + u)
o = OptimalControlProblem(m, x_0=DM([1.0]), t_f=2.0)
r = o.simulate(t_0=1.0, t_f=2.0, finite_elements=1, u=DM([0.0]))
assert abs(float(r.t[-1]) - 2.0) < 1e-9, r.t
'''),
    "s14_join_substitutes_late": dict(
        property="C14", needs="two joined systems that both have normalized time, the second with equations in time",
        breaks="the equations of the joined system keep the other's time",
        edits=[(DA, "        self.substitute_variable(dae_sys.t, self.t)\n", "        self.substitute_variable(\n            dae_sys.t, self.t if self.tau is None or dae_sys.tau is None else dae_sys.t\n        )\n")],
        demo=HEAD + '''
def s(n, f):
    x, y, t, tau = SX.sym("x" + n), SX.sym("y" + n), SX.sym("t" + n), SX.sym("tau" + n)
    return DAESystem(x=x, y=y, ode=-x + y, alg=y - f(t), t=t, tau=tau)
a, b = s("1", ca.sin), s("2", ca.cos)
a.join(b)
assert not ca.depends_on(vertcat(a.ode, a.alg), b.t)
'''),
    "s14_integrator_of_joined": dict(
        property="C14", needs="a system with algebraic variables simulated with a guess of them that differs from zero",
        breaks="the guess of the algebraic variables is dropped for the chosen integrators",
        edits=[(DA, "        if self.is_dae and y_0 is not None:\n", '        if self.is_dae and y_0 is not None and integrator_type == "implicit":\n')],
        demo=HEAD + '''
x, y, t = SX.sym("x"), SX.sym("y"), SX.sym("t")
s = DAESystem(x=x, y=y, ode=-x + y, alg=(y - 2) * (y + 2), t=t)
r = s.simulate(x_0=DM([0.0]), t_f=1.0, y_0=DM([1.9]), integrator_type="idas")
assert abs(float(r["zf"]) - 2.0) < 1e-4, r["zf"]
'''),
}
