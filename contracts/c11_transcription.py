"""C10, C11, C12: the transcription of optimal control problems (bounded: executed against an independent reference)."""
from pydv.contract import Skip, Violation, bounded

DM_ = "yaocptool.methods.classic.directmethod:DirectMethod.solve"
SM_ = "yaocptool.methods.base.solutionmethodsbase:SolutionMethodsBase."
WHY = ("the transcription composes casadi Functions over lists and dictionaries of symbols by element and point; random problems with up to 3 elements, "
       "degree up to 4, and all combinations of features are compared with an independent reference at random points")


def numeric(f):
    """A failure inside the numerical integrator at a random point decides nothing."""
    try:
        return f()
    except RuntimeError as e:
        if "sundials" in str(e) or "IDA_" in str(e) or "CV_" in str(e):
            raise Skip()
        raise


class _Run:
    def __init__(self, g, scheme, allow=()):
        import numpy as np
        from oracle import transcription as T
        self.T, self.np, self.g = T, np, g
        self.case = case = T.Case(g.rng, scheme, allow)
        g._rec("case", case.describe())
        self.rec = rec = T.Recorder()
        g.patch_casadi("nlpsol", rec.make)
        self.method = T.method(case)
        self.args = T.call_args(case)
        self.order = None

    def solve(self, give, **over):
        self.rec.give = give
        a = dict(self.args, **over)
        res = numeric(lambda: self.method.solve(**a))
        if self.order is None:
            import casadi as ca
            names = [self.method.model.x[i] for i in range(self.method.model.n_x)]
            c = [i for i, s in enumerate(names) if ca.is_equal(s, self.method.problem.x_cost)]
            if len(c) != 1:
                raise Violation("the cost state is not among the states")
            self.order = [i for i in range(len(names)) if i != c[0]] + c
        return res

    def size(self):
        return self.rec.problem["x"].numel()

    def random(self):
        import casadi as ca
        return lambda args: ca.DM([self.g.rng.uniform(-1, 1) for _ in range(self.size())])

    def points(self, k):
        """k random points with their reading, and the program evaluated there."""
        import casadi as ca
        out = []
        f = None
        for _ in range(k):
            res = self.solve(self.random())
            v, a = res.raw_decision_variables, self.rec.calls[-1]
            pt = self.T.point(self.case, res, self.order)
            if f is None:
                pr = self.rec.problem
                f = ca.Function("nlp", [pr["x"], pr["p"]], [pr["f"], pr["g"]])
            fv, gv = numeric(lambda: f(v, a["p"]))
            out.append((pt, float(fv), self.T.floats(gv), self.T.floats(a["lbg"]), self.T.floats(a["ubg"]), v, a))
        return out


def check_program(g, scheme, allow=(), k=5, tol=1e-5):
    run = _Run(g, scheme, allow)
    compare(run, k, tol)


def compare(run, k, tol):
    """The program handed to the solver against the reference, at k points."""
    case, T = run.case, run.T
    pts = run.points(k)
    E, I, O = zip(*[case.reference(p[0]) for p in pts])
    for (pt, f, *_), o in zip(pts, O):
        if abs(f - o) > 10 * tol * (1 + abs(o)):
            raise Violation("objective is %r, specified %r" % (f, o))
    ng = len(pts[0][2])
    ge, gi = [], []
    for r in range(ng):
        vals = [p[2][r] for p in pts]
        lb, ub = pts[0][3][r], pts[0][4][r]
        if lb == ub:
            ge.append([v - lb for v in vals])
        else:
            if lb != -T.INF:
                gi.append([v - lb for v in vals])
            if ub != T.INF:
                gi.append([ub - v for v in vals])
    m = T.rows_match(ge, [list(r) for r in zip(*E)], False, 40 * tol)
    if m:
        raise Violation("equality constraints: " + m)
    m = T.rows_match(gi, [list(r) for r in zip(*I)], True, 40 * tol)
    if m:
        raise Violation("inequality constraints: " + m)


@bounded("C11.collocation", "C11", DM_, WHY, runs=320, budget=120)
def _collocation(g):
    check_program(g, "collocation")


@bounded("C11.multiple_shooting", "C11", DM_, WHY + "; integrals are compared with an independent Runge-Kutta method", runs=120, budget=150)
def _shooting(g):
    check_program(g, "multiple-shooting", k=3, tol=2e-4)


def close(a, b, tol=1e-9):
    if len(a) != len(b):
        return False
    return all((x == y) or abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


def check_layout(g, scheme):
    """Bounds, guess and times of every decision variable."""
    run = _Run(g, scheme)
    case, T = run.case, run.T
    col = scheme == "collocation"
    import casadi as ca
    for key, side in (("lbx", 0), ("ubx", 1)):
        res = run.solve(lambda a: ca.fmax(ca.fmin(a[key], 50), -50))   # 50 stands for infinity
        pt = T.point(case, res, run.order)
        B = {q: [max(-50.0, min(50.0, v)) for v in case.b[q][side]] for q in case.b}
        want_x = B["x"] + [(0.0 if case.positive else -50.0) if side == 0 else 50.0]
        nx = case.N + 1
        if len(pt["x"]) != nx or len(pt["y"]) != case.N or len(pt["u"]) != case.N or len(pt["theta_opt"]) != case.N:
            raise Violation("result has %d/%d/%d elements" % (len(pt["x"]), len(pt["y"]), len(pt["u"])))
        for k, row in enumerate(pt["x"]):
            if len(row) != ((case.degree + 1 if k < case.N else 1) if col else 1):
                raise Violation("element %d has %d state points" % (k, len(row)))
            for v in row:
                if not close(v, want_x):
                    raise Violation("%s of the states is %s, specified %s" % (key, v, want_x))
        for k in range(case.N):
            if len(pt["y"][k]) != (case.degree if col else 1):
                raise Violation("element %d has %d algebraic points" % (k, len(pt["y"][k])))
            for v in pt["y"][k]:
                if not close(v, B["y"]):
                    raise Violation("%s of the algebraic variables is %s, specified %s" % (key, v, B["y"]))
            if case.n["u"]:
                if len(pt["u"][k]) != case.dc:
                    raise Violation("element %d has %d control points" % (k, len(pt["u"][k])))
                for v in pt["u"][k]:
                    if not close(v, B["u"]):
                        raise Violation("%s of the controls is %s, specified %s" % (key, v, B["u"]))
            if not close(pt["theta_opt"][k], B["theta_opt"]):
                raise Violation("%s of theta_opt is %s, specified %s" % (key, pt["theta_opt"][k], B["theta_opt"]))
        if not close(pt["eta"], [-50.0 if side == 0 else 50.0] * case.n["eta"]):
            raise Violation("%s of eta is %s" % (key, pt["eta"]))
        if not close(pt["p_opt"], B["p_opt"]):
            raise Violation("%s of p_opt is %s, specified %s" % (key, pt["p_opt"], B["p_opt"]))
    # a vector with all entries different is read without loss or repetition (the last state point is the end of the horizon)
    res = run.solve(lambda a: ca.DM([float(i) for i in range(run.size())]))
    pt = T.point(case, res, run.order)
    flat = [v for row in pt["x"] for x in (row if row is not pt["x"][-1] or not col else []) for v in x]
    flat += [v for row in pt["y"] for y in row for v in y] + ([v for row in pt["u"] for u in row for v in u] if case.n["u"] else [])
    flat += pt["eta"] + pt["p_opt"] + [v for t in pt["theta_opt"] for v in t]
    if sorted(flat) != [float(i) for i in range(run.size())]:
        raise Violation("the decision vector is not read entry by entry: %s" % flat)
    if col and not close(pt["x"][case.N][0], pt["x"][case.N - 1][case.degree]):
        raise Violation("the final state is not the last state point")
    # times
    h = case.h_step
    r = T.radau(case.degree)
    for k in range(case.N):
        t = case.t_0 + k * h
        want = {"x": [t] + [t + q * h for q in r] if col else [t], "y": [t + q * h for q in r] if col else [t + h],
                "u": [t] if case.dc == 1 else [t + q * h for q in T.radau(case.dc)]}
        for w, data in (("x", res.x_data), ("y", res.y_data), ("u", res.u_data)):
            if not close([float(v) for v in data["time"][k]], want[w], 1e-7):
                raise Violation("times of %s in element %d are %s, specified %s" % (w, k, data["time"][k], want[w]))
    # parameters of the result
    p, th = case.full(pt)
    if not close(T.floats(res.p), p) or any(not close(T.floats(res.theta[k]), th[k]) for k in range(case.N)):
        raise Violation("parameters of the result are %s %s, specified %s %s" % (res.p, res.theta, p, th))
    # what else the result says about the problem
    m = run.method.model
    want = dict(t_0=case.t_0, t_f=case.t_f, finite_elements=case.N, degree=case.degree, degree_control=case.dc, discretization_scheme=scheme,
                problem_name="o", success=True, stats={"success": True, "return_status": "recorded"})
    for k, v in want.items():
        if getattr(res, k) != v:
            raise Violation("%s of the result is %r, specified %r" % (k, getattr(res, k), v))
    for k in ("x", "y", "u"):
        names = [getattr(m, k)[i].name() for i in range(getattr(m, k).numel())]
        if getattr(res, k + "_names") != names:
            raise Violation("%s_names of the result is %r, specified %r" % (k, getattr(res, k + "_names"), names))
        for i, nm in enumerate(names):
            got = [[T.floats(v) for v in row] for row in res.get_variable_by_name(nm)]
            if got != [[[T.floats(v)[i]] for v in row] for row in getattr(res, k + "_data")["values"]]:
                raise Violation("values of %s by name are %s" % (nm, got))
    if not close(T.floats(res.x_c_final), [pt["x"][-1][-1][-1]]) or not close(T.floats(res.objective_opt_problem), [run.rec.f]):
        raise Violation("final cost state %s and objective %s of the result" % (res.x_c_final, res.objective_opt_problem))
    if not close(T.floats(res.x_0), [([*case.x0, 0.0] if case.x0_by_call else [*case.x0_problem, 0.0])[i] for i in
                                     sorted(range(case.n["x"] + 1), key=lambda j: run.order[j])]):
        raise Violation("initial condition of the result is %s" % res.x_0)
    if case.n["u"] and (not close(T.floats(res.first_control()), pt["u"][0][0]) or not close([v for c in res.first_control_parameters() for v in T.floats(c)], [v for c in pt["u"][0] for v in c])):
        raise Violation("first control is %s" % res.first_control())
    if case.n["u"] == 0 and any(len(T.floats(v)) for row in res.u_data["values"] for v in row):
        raise Violation("controls of a problem without controls")
    # the data set of the result
    ds = res.dataset
    for w in ("x", "y", "u", "theta_opt"):
        n = len(case.th_opt) if w == "theta_opt" else case.n[w] + (1 if w == "x" else 0)
        if not n:
            continue
        t, v = ds.get_entry(w)
        if w == "theta_opt":
            want_t, want_v, names = [case.t_0 + k * h for k in range(case.N)], [x for row in pt["theta_opt"] for x in row], None
        else:
            data = getattr(res, w + "_data")
            want_t = [float(q) for row in data["time"][:case.N] for q in row] + ([case.t_f] if w == "x" else [])
            want_v = [x for row in data["values"] for q in row for x in T.floats(q)]
            names = getattr(res, w + "_names")
        if not close(T.floats(t), want_t, 1e-7) or not close(T.floats(v), want_v) or v.shape[0] != n:
            raise Violation("dataset of %s holds %s at %s, specified %s at %s" % (w, v, t, want_v, want_t))
        if names and ds.get_entry_names(w) != names:
            raise Violation("names of %s in the dataset are %s" % (w, ds.get_entry_names(w)))
    return run, pt


def check_guess(g, scheme):
    run = _Run(g, scheme)
    case, T = run.case, run.T
    col = scheme == "collocation"
    res = run.solve(lambda a: a["x0"])
    pt = T.point(case, res, run.order)
    sim = case.heuristic == "simulation"
    p = [case.p[i] for i in case.p_opt]
    if not close(pt["p_opt"], p):
        raise Violation("guess of p_opt is %s, specified %s" % (pt["p_opt"], p))
    for k in range(case.N):
        th = [case.theta[k][i] for i in case.th_opt]
        if not close(pt["theta_opt"][k], th):
            raise Violation("guess of theta_opt is %s, specified %s" % (pt["theta_opt"][k], th))
    zero = [0.0] * case.n["u"]
    u = case.u_guess or ((case.last_u if case.last_by == "problem" else None) if sim else None) or zero
    if case.n["u"]:
        for row in pt["u"]:
            for v in row:
                if not close(v, u):
                    raise Violation("guess of the controls is %s, specified %s" % (v, u))
    if not sim:
        x = case.x0_problem + [0.0]
        y = case.y_guess or [0.0] * case.n["y"]
        for row in pt["x"]:
            for v in row:
                if not close(v, x):
                    raise Violation("guess of the states is %s, specified %s" % (v, x))
        for row in pt["y"]:
            for v in row:
                if not close(v, y):
                    raise Violation("guess of the algebraic variables is %s, specified %s" % (v, y))
        return
    z = run.np.array(case.x0_problem + [0.0])
    nodes = [0.0] + T.radau(case.degree) if col else [0.0, 1.0]
    uk = [u] * case.dc if case.n["u"] else []
    for k in range(case.N):
        zs = [z]
        for a, b in zip(nodes, nodes[1:]):
            zs.append(case.integrate(zs[-1], uk, case.p, case.theta[k], k, a, b, 40))
        z = zs[-1]
        if not run.np.all(run.np.isfinite(z)) or run.np.max(run.np.abs(z)) > 1e3:
            raise Skip()
        for j, w in enumerate(zs):
            if col:
                v = pt["x"][k][j]
            else:
                v = pt["x"][k + (1 if j else 0)][0]
            if not close(v, list(w), 1e-3):
                raise Violation("simulated guess of the states in element %d is %s, specified %s" % (k, v, list(w)))
        for j in range(1, len(zs)):
            y = case.y_of(zs[j][:-1], u, case.p, case.theta[k], case.t_0 + (k + nodes[j]) * case.h_step)
            v = pt["y"][k][j - 1]
            if not close(v, y, 1e-3):
                raise Violation("simulated guess of the algebraic variables is %s, specified %s" % (v, y))


@bounded("C10.layout_collocation", "C10", DM_, WHY, runs=150, budget=100)
def _layout_c(g):
    check_layout(g, "collocation")


@bounded("C10.layout_shooting", "C10", DM_, WHY, runs=60, budget=100)
def _layout_s(g):
    check_layout(g, "multiple-shooting")


@bounded("C10.guess_collocation", "C10", DM_, WHY, runs=150, budget=100)
def _guess_c(g):
    check_guess(g, "collocation")


@bounded("C10.guess_shooting", "C10", DM_, WHY, runs=60, budget=100)
def _guess_s(g):
    check_guess(g, "multiple-shooting")


def _forms(g, case, T):
    """New values for every argument of a solve, in any of the forms it may take."""
    import casadi as ca
    R = case.R
    case.p = R.coeffs(case.n["p"])
    case.theta = [R.coeffs(case.n["theta"]) for _ in range(case.N)]
    a = {}
    if case.n["p"] or g.rng.random() < 0.5:
        f = g.rng.choice(["dm", "list", "number"])
        if case.n["p"] == len(case.p_opt) and g.rng.random() < 0.3:
            case.p = [0.0] * case.n["p"]                     # all optimized: may be left out
        else:
            a["p"] = case.p[0] if f == "number" and case.n["p"] == 1 else list(case.p) if f == "list" and case.n["p"] else ca.DM(case.p) if case.n["p"] else ca.DM(0, 1)
    if case.n["theta"]:
        if case.n["theta"] == len(case.th_opt) and g.rng.random() < 0.3:
            case.theta = [[0.0] * case.n["theta"] for _ in range(case.N)]
        else:
            a["theta"] = {k: ca.DM(case.theta[k]) for k in range(case.N)}
    if case.x0_by_call:
        case.x0 = R.coeffs(case.n["x"])
        a["x_0"] = ca.DM(case.x0 + [0.0])
    if case.last_by == "call" or (case.last_by == "problem" and g.rng.random() < 0.5):
        case.last_u = R.coeffs(case.n["u"])
        a["last_u"] = ca.DM(case.last_u) if g.rng.random() < 0.6 else list(case.last_u)
    elif case.last_by == "problem":
        case.last_u = case.last_problem
    return a


def _snap(v):
    import casadi as ca
    if isinstance(v, dict):
        return {k: _snap(w) for k, w in v.items()}
    if isinstance(v, (ca.DM, list)):
        return (type(v).__name__, [float(w) for w in (v.nz if isinstance(v, ca.DM) else v)], v.shape if isinstance(v, ca.DM) else None)
    return v


def check_history(g, scheme):
    import casadi as ca
    run = _Run(g, scheme)
    case, T = run.case, run.T
    case.last_problem = case.last_u if case.last_by == "problem" else None
    run.args = {}
    before = {}
    for attr in ("x_0", "last_u", "x_min", "x_max", "y_min", "u_min", "u_max", "p_opt_min", "theta_opt_max", "y_guess", "u_guess"):
        before[attr] = None
    results = []
    for i in range(3):
        run.args = a = _forms(g, case, T)
        snap = _snap(a)
        compare(run, 4, 1e-5 if scheme == "collocation" else 2e-4)
        if _snap(a) != snap:
            raise Violation("the arguments of solve were changed: %s, were %s" % (_snap(a), snap))
        res = run.solve(run.random())
        results.append((res, _snap({"p": res.p, "theta": res.theta, "x0": res.x_0, "v": res.raw_decision_variables, "p_opt": res.p_opt})))
        if _snap(a) != snap:
            raise Violation("the arguments of solve were changed: %s, were %s" % (_snap(a), snap))
        for r, s in results:
            if _snap({"p": r.p, "theta": r.theta, "x0": r.x_0, "v": r.raw_decision_variables, "p_opt": r.p_opt}) != s:
                raise Violation("a later solve changed an earlier result")
        for attr in before:
            s = _snap(getattr(case.ocp, attr))
            if i == 0:
                before[attr] = s
            elif before[attr] != s:
                raise Violation("a solve changed %s of the problem" % attr)


@bounded("C12.history_collocation", "C12", DM_, WHY, runs=100, budget=100)
def _history_c(g):
    check_history(g, "collocation")


@bounded("C12.history_shooting", "C12", DM_, WHY, runs=40, budget=100)
def _history_s(g):
    check_history(g, "multiple-shooting")


@bounded("C12.rejected", "C12", DM_, WHY, runs=100, budget=60)
def _rejected(g):
    """Missing or misfitting arguments are rejected, before any solver is called."""
    import casadi as ca
    run = _Run(g, g.rng.choice(["collocation", "multiple-shooting"]))
    case = run.case
    n = len(run.rec.calls)
    bad = []
    if case.n["p"] > len(case.p_opt):
        bad.append(("p", None))
    if case.n["theta"] > len(case.th_opt):
        bad.append(("theta", None))
    if case.n["p"]:
        bad.append(("p", ca.DM(case.p + [1.0])))
    bad.append(("x_0", ca.DM(case.x0)))
    bad.append(("x_0", ca.DM(case.x0 + [0.0, 0.0])))
    if case.last_by == "call":
        bad.append(("last_u", None))
    k, v = g.rng.choice(bad)
    g._rec("bad", (k, str(v)))
    a = dict(run.args)
    if v is None:
        a.pop(k, None)
    else:
        a[k] = v
    run.rec.give = run.random()
    try:
        run.method.solve(**a)
    except Exception:
        if len(run.rec.calls) > n:
            raise Violation("the solver was called with %s = %s" % (k, v))
        return
    raise Violation("solve accepted %s = %s" % (k, v))


@bounded("C12.options", "C12", DM_, WHY, runs=20, budget=60)
def _options(g):
    """Solver options of one method reach its solver, and no other method or the library's defaults."""
    import copy
    from yaocptool import config
    from yaocptool.methods import DirectMethod
    defaults = copy.deepcopy(config.SOLVER_OPTIONS["nlpsol_options"])
    scheme = g.rng.choice(["collocation", "multiple-shooting"])
    r1, r2 = _Run(g, scheme), None
    mine = {"ipopt.max_iter": 7, "ipopt.tol": 1e-3} if g.rng.random() < 0.7 else {}
    over = g.rng.random() < 0.5
    if over and defaults:
        mine[sorted(defaults)[0]] = "mine"
    kept = dict(mine)
    import casadi as ca
    T = r1.T
    kw = dict(discretization_scheme=scheme, degree=2, finite_elements=2, initial_guess_heuristic="problem_info")
    c1 = T.Case(g.rng, scheme)
    m1 = DirectMethod(c1.ocp, nlpsol_opts=mine, **kw)
    c2 = T.Case(g.rng, scheme)
    m2 = DirectMethod(c2.ocp, **kw)
    seen = []
    for c, m in ((c1, m1), (c2, m2)):
        c.N, c.dc = 2, 1
        c.theta = [c.R.coeffs(c.n["theta"]) for _ in range(2)]
        if c.last_by == "call":
            c.last_by = None
        rec = T.Recorder()
        g.patch_casadi("nlpsol", rec.make)
        rec.give = lambda args: ca.DM.zeros(rec.problem["x"].numel())
        m.solve(**T.call_args(c))
        seen.append(dict(rec.options or {}))
    want1 = dict(defaults)
    want1.update(kept)
    if seen[0] != want1 or seen[1] != defaults:
        raise Violation("the solvers got %s and %s, specified %s and %s" % (seen[0], seen[1], want1, defaults))
    if mine != kept or config.SOLVER_OPTIONS["nlpsol_options"] != defaults:
        raise Violation("the options given, or the defaults, were changed")
