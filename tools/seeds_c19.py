UK = "yaocptool/estimation/unscented_kalman_filter.py"
EK = "yaocptool/estimation/extended_kalman_filter.py"
PK = "yaocptool/estimation/pce_kalman_filter.py"
HEAD = '''
import contextlib, io, logging, warnings
import casadi as ca
import numpy as np
from casadi import SX, DM, vertcat
logging.disable(logging.CRITICAL)
from yaocptool.modelling import SystemModel
from yaocptool.estimation.unscented_kalman_filter import UnscentedKalmanFilter
from yaocptool.estimation.extended_kalman_filter import ExtendedKalmanFilter
from yaocptool.estimation.pce_kalman_filter import PCEKalmanFilter
from yaocptool.estimation.ideal_estimator import IdealEstimator


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def model(A, algebraic=False):
    n = A.shape[0]
    m = SystemModel(name="m")
    x, u = m.create_state("x", n), m.create_control("u", 1)
    if algebraic:
        y = m.create_algebraic_variable("y", 1)
        m.include_equations(ode=A @ x + u, alg=y - 2 * x[0])
    else:
        m.include_equations(ode=A @ x + u)
    return m


def linear(A, P, R, C, N, x, ts, y):
    """The Kalman filter of dx = A x."""
    from scipy.linalg import expm
    F = expm(A * ts)
    x, P = F @ x, F @ P @ F.T + R
    K = P @ C.T @ np.linalg.inv(C @ P @ C.T + N)
    return x + K @ (y - C @ x), P - K @ C @ P


A = np.array([[0.0, 1.0], [-2.0, -0.5]])
P0, RV, RN = np.array([[2.0, 0.7], [0.7, 1.0]]), np.array([[0.3, 0.1], [0.1, 0.2]]), np.array([[0.5]])
C = np.array([[1.0, 0.5]])
'''
SEEDS = {
    "s19_rows_of_root": dict(
        property="C19", needs="two states that are correlated",
        breaks="the sigma points take the rows of the root of the covariance instead of its columns",
        edits=[(UK, "            sigma_points.append(x_mean + sign * sqr_root_matrix[:, ind])\n", "            sigma_points.append(x_mean + sign * sqr_root_matrix[ind, :].T)\n")],
        demo=HEAD + '''
f = UnscentedKalmanFilter(model(A), x_mean=DM([1.0, 2.0]), p_k=DM(P0), r_v=DM(RV) * 1e-12, r_n=DM(RN), c_matrix=DM(C), t=0.0, t_s=0.2)
x, P = quiet(f.estimate, 0.2, DM([1.5]), DM([0.0]))
wx, wP = linear(A, P0, 1e-12 * RV, C, RN, np.array([1.0, 2.0]), 0.2, np.array([1.5]))
assert np.allclose(np.array(x).flatten(), wx, atol=1e-4), (x, wx)
'''),
    "s19_next_from_prediction": dict(
        property="C19", needs="a second estimate",
        breaks="the covariance kept for the next estimate is the one before the correction",
        edits=[(UK, "        self.p_k = cov_x_aug[: self.model.n_x, : self.model.n_x]\n", "        self.p_k = self._p_k_aug[: self.model.n_x, : self.model.n_x]\n")],
        demo=HEAD + '''
f = UnscentedKalmanFilter(model(A), x_mean=DM([1.0, 2.0]), p_k=DM(P0), r_v=DM(RV) * 1e-12, r_n=DM(RN), c_matrix=DM(C), t=0.0, t_s=0.2)
quiet(f.estimate, 0.2, DM([1.5]), DM([0.0]))
x, P = quiet(f.estimate, 0.4, DM([1.0]), DM([0.0]))
w = linear(A, P0, 1e-12 * RV, C, RN, np.array([1.0, 2.0]), 0.2, np.array([1.5]))
wx, wP = linear(A, w[1], 1e-12 * RV, C, RN, w[0], 0.2, np.array([1.0]))
assert np.allclose(np.array(x).flatten(), wx, atol=1e-4), (x, wx)
'''),
    "s19_algebraic_covariance_forgotten": dict(
        property="C19", needs="a model with algebraic variables, and a second estimate",
        breaks="of the covariance of states and algebraic variables only the block of the states is kept for the next estimate",
        edits=[(EK, "        self._p_k_aug = p_k\n        self.p_k = p_k[: self.model.n_x, : self.model.n_x]\n",
                "        self.p_k = p_k[: self.model.n_x, : self.model.n_x]\n        self._p_k_aug[: self.model.n_x, : self.model.n_x] = self.p_k\n")],
        demo=HEAD + '''
from scipy.linalg import expm
B = np.array([[-1.0]])
m = SystemModel(name="m")
x, y, u = m.create_state("x", 1), m.create_algebraic_variable("y", 1), m.create_control("u", 1)
m.include_equations(ode=-x + 0.5 * y + u, alg=y - 0.5 * x)
f = ExtendedKalmanFilter(m, x_mean=DM([1.0]), y_guess=DM([0.5]), p_k=DM([2.0]), r_v=DM([0.3]), r_n=DM(RN), c_matrix=DM([[1.0, 1.0]]), t=0.0, t_s=0.5)
F, G, c = expm(np.array([[-1.0, 0.5], [-0.5, 0.25]]) * 0.5), np.array([[1.0], [0.5]]), np.array([[1.0, 1.0]])
P = np.diag([2.0, 1.0])
for t, z in ((0.5, 1.5), (1.0, 1.0)):
    x1, p1 = quiet(f.estimate, t, DM([z]), DM([0.0]))
    P = F @ P @ F.T + G @ G.T * 0.3
    K = P @ c.T @ np.linalg.inv(c @ P @ c.T + RN)
    P = (np.eye(2) - K @ c) @ P
    assert abs(float(p1) - P[0, 0]) < 1e-4, (t, p1, P)
'''),
    "s19_noise_of_algebraic": dict(
        property="C19", needs="a model with algebraic variables that depend on the states",
        breaks="the noise of the states reaches the algebraic variables with the opposite sign",
        edits=[(EK, "        gamma = vertcat(DM.eye(self.model.n_x), -solve(d_matrix, c_matrix))\n", "        gamma = vertcat(DM.eye(self.model.n_x), solve(d_matrix, c_matrix))\n")],
        demo=HEAD + '''
m = model(np.array([[-1.0]]), True)
f = ExtendedKalmanFilter(m, x_mean=DM([1.0]), y_guess=DM([2.0]), p_k=DM([2.0]), r_v=DM([0.3]), r_n=DM(RN), c_matrix=DM([[1.0, 1.0]]), t=0.0, t_s=0.5)
quiet(f.estimate, 0.5, DM([1.5]), DM([0.0]))
F, G, c = np.array([[np.exp(-0.5), 0.0], [2 * (np.exp(-0.5) - 1), 1.0]]), np.array([[1.0], [2.0]]), np.array([[1.0, 1.0]])
P = F @ np.diag([2.0, 1.0]) @ F.T + G @ G.T * 0.3
K = P @ c.T @ np.linalg.inv(c @ P @ c.T + RN)
P = (np.eye(2) - K @ c) @ P
assert abs(float(f.p_k) - P[0, 0]) < 1e-4, (f.p_k, P)
'''),
    "s19_diagonal_noise": dict(
        property="C19", needs="two states with correlated process noise",
        breaks="the chaos filter adds the variances of the noise also off the diagonal",
        edits=[(PK, "                    + self.r_v[i, j]\n", "                    + self.r_v[i, i]\n")],
        demo=HEAD + '''
f = PCEKalmanFilter(model(A), x_mean=DM([1.0, 2.0]), p_k=DM(P0), r_v=DM(RV), r_n=DM(RN) * 1e12, c_matrix=DM(C), t=0.0, t_s=0.2, pc_order=1)
x, P = quiet(f.estimate, 0.2, DM([1.5]), DM([0.0]))
P = np.array(P)
assert np.allclose(P, P.T), P
'''),
    "s19_measurement_without_control": dict(
        property="C19", needs="a measurement that depends on the control through d_matrix, and a control that is not zero",
        breaks="the recorded measurement of the corrected state lacks the part of the control",
        edits=[(UK, "            x_mean[: self.model.n_x], x_mean[self.model.n_x :, 0], u_k\n", "            x_mean[: self.model.n_x], x_mean[self.model.n_x :, 0], 0 * u_k\n")],
        demo=HEAD + '''
f = UnscentedKalmanFilter(model(A), x_mean=DM([1.0, 2.0]), p_k=DM(P0), r_v=DM(RV), r_n=DM(RN), c_matrix=DM(C), d_matrix=DM([[3.0]]), t=0.0, t_s=0.2)
x, P = quiet(f.estimate, 0.2, DM([1.5]), DM([2.0]))
m = f.dataset.get_entry("meas")[1]
assert abs(float(m[0, -1]) - float(DM(C) @ x + 6.0)) < 1e-8, m
'''),
    "s19_prediction_kept": dict(
        property="C19", needs="states and measurements of different numbers, a second estimate that starts from what the first one recorded",
        breaks="the chaos filter keeps the predicted state instead of the corrected one for the next estimate",
        edits=[(PK, "        self.x_mean = x_hat_k\n", "        self.x_mean = x_hat_k_minus\n")],
        demo=HEAD + '''
f = PCEKalmanFilter(model(A), x_mean=DM([1.0, 2.0]), p_k=DM(P0), r_v=DM(RV), r_n=DM(RN), c_matrix=DM(C), t=0.0, t_s=0.2, pc_order=1)
x, P = quiet(f.estimate, 0.2, DM([9.5]), DM([0.0]))
assert np.allclose(np.array(f.x_mean), np.array(x)), (f.x_mean, x)
assert np.allclose(np.array(f.dataset.get_entry("x")[1])[:, -1], np.array(x).flatten())
'''),
}
del SEEDS["s19_measurement_without_control"]
