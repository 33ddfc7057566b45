"""Independent reference for the transcription of optimal control problems (bounded contracts of C10, C11, C12).

A random problem is written down twice: with yaocptool's classes, and as plain Python functions of numbers. The solver is
replaced by a recorder, so that `solve` runs in full: the nonlinear program handed to the solver is evaluated at random points
and compared, row by row (up to order, sign and positive scale), with the rows the mathematics asks for; what each point means
is read from the result object that `solve` returns for it."""
import math

import numpy as np

INF = float("inf")


def radau(d):
    """Right Radau points on (0, 1]: the roots of P_{d-1} - P_d shifted."""
    from numpy.polynomial import legendre as L
    c = np.zeros(d + 1)
    c[d] += 1
    c[d - 1] -= 1
    r = np.sort(np.real(L.legroots(c)))
    r = (r + 1) / 2
    r[-1] = 1.0
    return [float(t) for t in r]


def lagrange(nodes, vals, t):
    """Interpolation polynomial through (nodes, vals) at t; vals: list of arrays."""
    out = 0.0
    for j, tj in enumerate(nodes):
        w = 1.0
        for k, tk in enumerate(nodes):
            if k != j:
                w *= (t - tk) / (tj - tk)
        out = out + w * np.asarray(vals[j], float)
    return out


def dlagrange(nodes, vals, t):
    out = 0.0
    for j, tj in enumerate(nodes):
        p = np.poly1d([1.0])
        for k, tk in enumerate(nodes):
            if k != j:
                p = p * np.poly1d([1.0, -tk]) / (tj - tk)
        out = out + p.deriv()(t) * np.asarray(vals[j], float)
    return out


class Rand:
    def __init__(self, rng):
        self.r = rng

    def num(self, lo=-1.5, hi=1.5):
        return round(self.r.uniform(lo, hi), 3)

    def coeffs(self, n):
        return [self.num() for _ in range(n)]

    def bounds(self, n, lo=-9.0, hi=9.0):
        a, b = [], []
        for _ in range(n):
            c = self.r.random()
            l = -INF if c < 0.3 else round(self.r.uniform(lo, -1), 3)
            u = INF if 0.2 < c < 0.5 else round(self.r.uniform(1, hi), 3)
            a.append(l)
            b.append(u)
        return a, b


def poly(R, names, extra=True, sizes=None):
    """A random scalar function of named blocks, as a description evaluated by `val` on numbers or casadi symbols."""
    lin = {k: R.coeffs(sizes[k]) for k in names}
    flat = [(k, i) for k in names for i in range(sizes[k])]
    quad = []
    if extra is True and flat:
        for _ in range(R.r.randint(0, 2)):
            quad.append((R.num(), R.r.choice(flat), R.r.choice(flat)))
    trig = (R.num(), R.r.choice(flat)) if extra and flat and R.r.random() < 0.4 else None
    return {"c": R.num(), "lin": lin, "quad": quad, "trig": trig}


def val(f, env, sin):
    v = f["c"]
    for k, cs in f["lin"].items():
        for i, c in enumerate(cs):
            v = v + c * env[k][i]
    for c, (a, i), (b, j) in f["quad"]:
        v = v + c * env[a][i] * env[b][j]
    if f["trig"]:
        c, (a, i) = f["trig"]
        v = v + c * sin(env[a][i])
    return v


class Case:
    """One random optimal control problem."""

    def __init__(self, rng, scheme, allow=(), fixed=None):
        import casadi as ca
        from yaocptool.modelling import OptimalControlProblem, SystemModel
        R = Rand(rng)
        self.R, self.scheme = R, scheme
        n = {"x": rng.choice([1, 2, 2, 3]), "y": rng.choice([0, 0, 1, 2]), "u": rng.choice([0, 1, 2, 2, 3]), "p": rng.choice([0, 1, 2, 3]), "theta": rng.choice([0, 1, 2, 2])}
        n.update(fixed or {})
        self.n = n
        self.N = rng.choice([1, 2, 2, 3, 3, 4])
        self.degree = rng.randint(1, 4)
        self.dc = rng.choice([1, 1, 2, 3])
        self.t_0 = rng.choice([0.0, 0.0, 1.0, -0.5, 2.25])
        self.t_f = self.t_0 + rng.choice([0.5, 1.0, 1.5])
        sz = dict(n, t=1)
        dyn = ["x", "u", "p", "theta", "t"]
        allv = ["x", "y", "u", "p", "theta", "t"]
        self.heuristic = rng.choice(["problem_info", "simulation"])
        smooth = scheme == "collocation" and self.heuristic == "problem_info" or "trig"   # no finite escape where integrated
        self.f = [poly(R, allv, smooth, sz) for _ in range(n["x"])]
        self.gy = [poly(R, dyn, smooth, sz) for _ in range(n["y"])]   # alg: a*y - gy = 0
        self.ga = [R.r.choice([-2.0, 1.5, 3.0]) for _ in range(n["y"])]
        self.L = poly(R, allv, True, sz)
        self.V = poly(R, ["x", "p"], True, sz)
        self.S = poly(R, allv, True, sz) if rng.random() < 0.6 else None
        whens = ["default", "end", "start"] if scheme == "collocation" else ["default", "end"]
        self.ineq = [(poly(R, allv, True, sz), rng.choice(whens)) for _ in range(rng.randint(0, 2))]
        self.eq = [(poly(R, allv, True, sz), rng.choice(whens)) for _ in range(rng.randint(0, 1))]
        sz["eta"] = n["eta"] = rng.choice([0, 0, 0, 1, 2])
        self.hf = [poly(R, ["x", "p", "eta"], True, sz) for _ in range(rng.randint(0, 1))]
        self.positive = rng.random() < 0.3
        self.h = [poly(R, ["p"], True, sz) for _ in range(rng.randint(0, 1))] if n["p"] else []
        self.hi = rng.random() < 0.25
        # optimized parameters: any selection, in any order
        self.p_opt = rng.sample(range(n["p"]), rng.randint(0, n["p"]))
        self.th_opt = rng.sample(range(n["theta"]), rng.randint(0, n["theta"]))
        self.b = {k: R.bounds(n[k]) for k in ("x", "y", "u")}
        self.b["p_opt"] = R.bounds(len(self.p_opt))
        self.b["theta_opt"] = R.bounds(len(self.th_opt))
        self.du = None
        if self.dc == 1 and n["u"] and rng.random() < 0.7:
            lo, hi = R.bounds(n["u"], -2, 2)
            if rng.random() < 0.3:
                lo[0], hi[0] = -INF, INF
            if any(v != -INF for v in lo) or any(v != INF for v in hi):
                self.du = (lo, hi)
        self.x0 = R.coeffs(n["x"])
        self.y_guess = R.coeffs(n["y"]) if n["y"] and rng.random() < 0.5 else None
        self.u_guess = R.coeffs(n["u"]) if n["u"] and rng.random() < 0.5 else None
        self.last_u = None
        self.last_by = rng.choice(["problem", "call", None]) if self.du else rng.choice([None, None, "problem"])
        if n["u"] == 0:
            self.last_by = None
        if self.last_by:
            self.last_u = R.coeffs(n["u"])
        self.x0_fixed = rng.random() < 0.2
        self.x0_by_call = not self.x0_fixed and rng.random() < 0.4
        self.as_sum = scheme == "multiple-shooting" and rng.random() < 0.3
        for k, v in (allow or {}).items() if isinstance(allow, dict) else ():
            setattr(self, k, v)

        # ---- the same problem, written with the library
        m = SystemModel(name="m")
        sy = {"t": ca.vertcat(m.t)}
        sy["x"] = m.create_state("x", n["x"])
        sy["y"] = m.create_algebraic_variable("y", n["y"]) if n["y"] else ca.SX(0, 1)
        sy["u"] = m.create_control("u", n["u"]) if n["u"] else ca.SX(0, 1)
        sy["p"] = m.create_parameter("p", n["p"]) if n["p"] else ca.SX(0, 1)
        sy["theta"] = m.create_theta("th", n["theta"]) if n["theta"] else ca.SX(0, 1)
        ev = lambda f: val(f, sy, ca.sin)
        m.include_equations(ode=[ev(f) for f in self.f], alg=[a * sy["y"][i] - ev(g) for i, (a, g) in enumerate(zip(self.ga, self.gy))])
        x0 = ca.DM(self.x0)
        if self.x0_by_call:
            x0 = ca.DM(R.coeffs(n["x"]))
        self.x0_problem = [float(v) for v in x0.nz]
        sy["eta"] = ca.SX.sym("eta", n["eta"])
        o = OptimalControlProblem(m, x_0=x0, t_0=self.t_0, t_f=self.t_f, name="o")
        vec = lambda l: ca.DM(l) if len(l) else ca.DM(0, 1)
        for k in ("x", "y", "u"):
            setattr(o, k + "_min", vec(self.b[k][0]))
            setattr(o, k + "_max", vec(self.b[k][1]))
        if self.du:
            o.delta_u_min, o.delta_u_max = vec(self.du[0]), vec(self.du[1])
        if self.y_guess:
            o.y_guess = vec(self.y_guess)
        if self.u_guess:
            o.u_guess = vec(self.u_guess)
        o.L, o.V = ev(self.L), ev(self.V)
        o.eta = sy["eta"]
        o.positive_objective = self.positive
        if self.S:
            o.S = ev(self.S)
        for f, w in self.ineq:
            o.include_time_inequality(ev(f), when=w)
        for f, w in self.eq:
            o.include_time_equality(ev(f), when=w)
        for f in self.hf:
            o.include_final_time_equality(ev(f))
        for f in self.h:
            o.include_equality(ev(f))
        if self.hi:
            o.include_initial_time_equality(2 * m.x[0] + 3 * m.x_0[0] - 1)
        for j, i in enumerate(self.p_opt):
            o.set_parameter_as_optimization_parameter(sy["p"][i], vec([self.b["p_opt"][0][j]]), vec([self.b["p_opt"][1][j]]))
        for j, i in enumerate(self.th_opt):
            o.set_theta_as_optimization_theta(sy["theta"][i], vec([self.b["theta_opt"][0][j]]), vec([self.b["theta_opt"][1][j]]))
        if self.last_by == "problem":
            o.last_u = vec(self.last_u)
        self.ocp = o
        self.p = R.coeffs(n["p"])
        self.theta = [R.coeffs(n["theta"]) for _ in range(self.N)]
        self.h_step = (self.t_f - self.t_0) / self.N

    def describe(self):
        return {k: getattr(self, k) for k in ("scheme", "n", "N", "degree", "dc", "t_0", "t_f", "p_opt", "th_opt", "du", "last_by", "x0_fixed", "x0_by_call",
                                              "heuristic", "as_sum", "hi", "h")}

    # ---- mathematics on numbers
    def F(self, f, x, y, u, p, th, t):
        return val(f, {"x": x, "y": y, "u": u, "p": p, "theta": th, "t": [t]}, math.sin)

    def y_of(self, x, u, p, th, t):
        return [val(g, {"x": x, "u": u, "p": p, "theta": th, "t": [t]}, math.sin) / a for a, g in zip(self.ga, self.gy)]

    def ode(self, x, y, u, p, th, t):
        return np.array([self.F(f, x, y, u, p, th, t) for f in self.f] + [self.F(self.L, x, y, u, p, th, t)])

    def control(self, uk, tau):
        if self.n["u"] == 0:
            return []
        if self.dc == 1:
            return uk[0]
        return list(lagrange(radau(self.dc), uk, tau))

    def integrate(self, x, uk, p, th, k, ta=0.0, tb=1.0, steps=60):
        """x' = f from element time ta to tb (fractions), RK4, cost state included."""
        t0, h = self.t_0 + k * self.h_step, self.h_step

        def rhs(tau, z):
            u = self.control(uk, tau)
            t = t0 + tau * h
            y = self.y_of(z[:-1], u, p, th, t)
            return h * self.ode(z[:-1], y, u, p, th, t)
        z, tau, d = np.array(x, float), ta, (tb - ta) / steps
        for _ in range(steps):
            k1 = rhs(tau, z)
            k2 = rhs(tau + d / 2, z + d / 2 * k1)
            k3 = rhs(tau + d / 2, z + d / 2 * k2)
            k4 = rhs(tau + d, z + d * k3)
            z = z + d / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            tau += d
        return z

    def full(self, pt):
        """p and theta with the optimized entries of the point."""
        p = list(self.p)
        for j, i in enumerate(self.p_opt):
            p[i] = pt["p_opt"][j]
        th = [list(t) for t in self.theta]
        for k in range(self.N):
            for j, i in enumerate(self.th_opt):
                th[k][i] = pt["theta_opt"][k][j]
        return p, th

    def reference(self, pt):
        """(equality rows, inequality rows as c >= 0, objective)"""
        p, th = self.full(pt)
        E, I = [], []
        x, y, u = pt["x"], pt["y"], pt["u"]
        x0 = self.x0 + [0.0]
        first = x[0][0]
        E += [first[i] - x0[i] for i in range(len(first))]
        if self.hi:
            E.append(2 * first[0] + 3 * x0[0] - 1)
        obj = 0.0
        col = self.scheme == "collocation"
        d = self.degree
        r = radau(d)
        for k in range(self.N):
            t_k, h = self.t_0 + k * self.h_step, self.h_step
            if col:
                nodes = [0.0] + r
                if k:
                    E += list(np.array(x[k - 1][d]) - np.array(x[k][0]))
                for j in range(1, d + 1):
                    tau, t = nodes[j], t_k + nodes[j] * h
                    uu = self.control(u[k], tau)
                    xx, yy = x[k][j], y[k][j - 1]
                    E += list(dlagrange(nodes, x[k], tau) - h * self.ode(xx[:-1], yy, uu, p, th[k], t))
                    E += [a * yy[i] - val(g, {"x": xx, "u": uu, "p": p, "theta": th[k], "t": [t]}, math.sin) for i, (a, g) in enumerate(zip(self.ga, self.gy))]

                def at(tau):
                    yy = lagrange(r, y[k], tau) if self.n["y"] else []
                    return lagrange(nodes, x[k], tau)[:-1], yy, self.control(u[k], tau), p, th[k], t_k + tau * h
                taus = {"default": r, "end": [1.0], "start": [0.0]}
            else:
                z = self.integrate(x[k][0], u[k], p, th[k], k)
                uu = self.control(u[k], 1.0)
                ye = self.y_of(z[:-1], uu, p, th[k], t_k + h)
                if self.as_sum:
                    obj += z[-1]
                    E += list(z[:-1] - np.array(x[k + 1][0][:-1])) + [x[k + 1][0][-1]]
                else:
                    E += list(z - np.array(x[k + 1][0]))
                E += list(np.array(ye) - np.array(y[k][0]))

                def at(tau):
                    return z[:-1], ye, uu, p, th[k], t_k + h
                taus = {"default": [1.0], "end": [1.0]}
            if self.du:
                prev = u[k - 1][0] if k else self.last_u
                if prev is not None:
                    for i in range(self.n["u"]):
                        dv = u[k][0][i] - prev[i]
                        if self.du[0][i] != -INF:
                            I.append(dv - self.du[0][i])
                        if self.du[1][i] != INF:
                            I.append(self.du[1][i] - dv)
            for f, w in self.ineq:
                I += [-self.F(f, *at(tau)) for tau in taus[w]]
            for f, w in self.eq:
                E += [self.F(f, *at(tau)) for tau in taus[w]]
            if self.S:
                obj += self.F(self.S, *at(1.0))
        xf = x[self.N - 1][d] if col else x[self.N][0]
        for f in self.hf:
            E.append(val(f, {"x": xf, "p": p, "eta": pt["eta"]}, math.sin))
        for f in self.h:
            E.append(val(f, {"p": p}, math.sin))
        obj += val(self.V, {"x": xf, "p": p}, math.sin) + xf[-1]
        return E, I, obj


class Recorder:
    """Stands for casadi.nlpsol: records the problem and each call; returns the point it is told to."""

    def __init__(self):
        self.problem, self.calls, self.give, self.options, self.f = None, [], None, None, 12.5

    def make(self, name, solver, problem, options=None):
        self.problem, self.options = problem, options
        rec = self

        class Solver:
            def call(s, args):
                return s(**args)

            def __call__(s, **args):
                import casadi as ca
                rec.calls.append(args)
                v = rec.give(args) if callable(rec.give) else rec.give
                ng = problem["g"].numel() if "g" in problem else 0
                nx = problem["x"].numel()
                return {"x": ca.DM(v), "f": ca.DM(rec.f), "g": ca.DM.zeros(ng), "lam_x": ca.DM.zeros(nx), "lam_g": ca.DM.zeros(ng), "lam_p": ca.DM.zeros(0)}

            def stats(s):
                return {"success": True, "return_status": "recorded"}

            def size_in(s, _):
                return (problem["p"].numel() if "p" in problem else 0, 1)
            size1_in = lambda s, k: problem[k].numel() if k in problem else 0
        return Solver()


def floats(m):
    import casadi as ca
    return [float(v) for v in np.array(ca.DM(m)).flatten(order="F")]


def point(case, res, order):
    """The structured reading of a result: numbers by element and point."""
    sel = lambda m: [floats(m)[i] for i in order]
    x = [[sel(v) for v in row] for row in res.x_data["values"]]
    y = [[floats(v) for v in row] for row in res.y_data["values"]]
    u = [[floats(v) for v in row] for row in res.u_data["values"]]
    return {"x": x, "y": y, "u": u, "p_opt": floats(res.p_opt), "theta_opt": [floats(v) for v in res.theta_opt], "eta": floats(res.eta)}


def norm(v, signed):
    v = np.array(v, float)
    s = np.linalg.norm(v)
    if s < 1e-7:
        return None
    v = v / s
    if not signed:
        k = int(np.argmax(np.abs(v)))
        if v[k] < 0:
            v = -v
    return v


def cover(A, B, tol):
    """Rows of A that no row of B matches."""
    return [i for i, a in enumerate(A) if not any(np.linalg.norm(a - b) < tol or np.linalg.norm(a + b) < 0 for b in B)]


def rows_match(got, want, signed, tol):
    """None or a message: got and want are lists of value vectors over the same points."""
    g = [norm(v, signed) for v in got]
    w = [norm(v, signed) for v in want]
    g, w = [v for v in g if v is not None], [v for v in w if v is not None]
    a, b = cover(g, w, tol), cover(w, g, tol)
    if not signed:   # sign choice is unstable when two entries are of almost equal size: accept either sign
        a = [i for i in a if not any(np.linalg.norm(g[i] + q) < tol for q in w)]
        b = [i for i in b if not any(np.linalg.norm(w[i] + q) < tol for q in g)]
    if a:
        return "row %d of %d in the program is none of the %d asked for" % (a[0], len(g), len(w))
    if b:
        return "row %d of the %d asked for is not in the program (%d rows)" % (b[0], len(w), len(g))
    return None


def method(case):
    import casadi as ca
    from yaocptool.methods import DirectMethod
    kw = dict(discretization_scheme=case.scheme, degree=case.degree, finite_elements=case.N, degree_control=case.dc, initial_guess_heuristic=case.heuristic)
    if case.x0_fixed:
        kw["initial_condition_as_parameter"] = False
    if case.last_by == "call":
        kw["last_control_as_parameter"] = True
    if case.as_sum:
        kw["cost_as_a_sum"] = True
    return DirectMethod(case.ocp, **kw)


def call_args(case):
    import casadi as ca
    a = {}
    if case.n["p"]:
        a["p"] = ca.DM(case.p)
    if case.n["theta"]:
        a["theta"] = {k: ca.DM(case.theta[k]) for k in range(case.N)}
    if case.x0_by_call:
        a["x_0"] = ca.DM(case.x0 + [0.0])
    if case.last_by == "call":
        a["last_u"] = ca.DM(case.last_u)
    return a
