"""C09: the time grid, the maps between time and normalized time, and the polynomials in between."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract
from contracts.c04_model import SM, model
from contracts.c06_ocp import ocp
from contracts.c11_program import monomials, problem

U = "yaocptool.util.util:"
D = "yaocptool.methods.classic.directmethod:DirectMethod"
DAE = "yaocptool.modelling.dae_system:DAESystem"


def interval(g):
    t_k, t_1 = g.real("t_k"), g.real("t_kp1")
    g.assume(g.S.ne(t_k, t_1))
    return t_k, t_1


def tau_of(S, t, t_k, t_1):
    return S.div(S.sub(t, t_k), S.sub(t_1, t_k))


@contract("C09.tau_to_time", "C09", U + "convert_expr_from_tau_to_time")
class _:
    def inputs(g):
        t, tau, o = g.sym("t", 1, "SX"), g.sym("tau", 1, "SX"), g.sym("o", g.size("no"), "SX")
        t_k, t_1 = interval(g)
        return Call(None, g.expr("e", g.size("n"), over=[t, tau, o], kind="SX"), t, tau, t_k, t_1)

    def spec(S, a):
        return Expect(result=S.subst(a.expr, a.tau_sym, tau_of(S, a.t_sym, a.t_k, a.t_kp1)))


@contract("C09.model_tau_to_time", "C09", SM + ".convert_expr_from_tau_to_time")
class _:
    def inputs(g):
        k = model(g)
        t_k, t_1 = interval(g)
        return Call(k.m, g.expr("e", g.size("n"), over=k.over, kind="SX"), t_k, t_1)

    def spec(S, a):
        return Expect(result=S.subst(a.expr, a.self.tau, tau_of(S, a.self.t, a.t_k, a.t_kp1)))


@contract("C09.model_time_to_tau", "C09", SM + ".convert_expr_from_time_to_tau")
class _:
    def inputs(g):
        k = model(g)
        t_k, t_1 = interval(g)
        return Call(k.m, g.expr("e", g.size("n"), over=k.over, kind="SX"), t_k, t_1)

    def spec(S, a):
        new = S.add(S.mul(a.self.tau, S.sub(a.t_kp1, a.t_k)), a.t_k)
        return Expect(result=S.subst(a.expr, a.self.t, new))


@contract("C09.dae_tau_to_time", "C09", DAE + ".convert_from_tau_to_time")
class _:
    def inputs(g):
        k = model(g, missing=False)
        d = g.call(k.m, "get_dae_system")
        return Call(d, *interval(g))

    def spec(S, a):
        s = a.self
        new = tau_of(S, s.t, a.t_k, a.t_kp1)
        return Expect(effects={"self.ode": S.subst(s.ode, s.tau, new), "self.alg": S.subst(s.alg, s.tau, new)})


@contract("C09.breakpoints", "C09", D + ".time_breakpoints")
class _:
    """t_0, t_0 + h, ..., t_f: any number of elements of equal length."""
    def inputs(g):
        k = ocp(g, small=True, guess=False)
        t_0, t_f = interval(g)
        g.put(k.o, t_0=t_0, t_f=t_f)
        N = g.size("N", lo=1, hi=6)
        m = g.new(D, k.o, finite_elements=N, discretization_scheme=g.pick("scheme", ["collocation", "multiple-shooting"]))
        return Call(m).also(N=N, t_0=t_0, t_f=t_f)

    def body(R, a):
        return [R.attr(a.self, "time_breakpoints"), R.attr(a.self, "delta_t")]

    def spec(S, a):
        h = S.div(S.sub(a.t_f, a.t_0), a.N)
        return Expect(result=[S.seq(S.add(a.N, 1), lambda i: S.add(a.t_0, S.mul(h, i))), h], frees={"self.*"})


WHYP = "the basis is built from casadi's numerical Radau points; every degree from 1 to 9, sizes 0 to 3, evaluated at random points and at the nodes"


def _check_poly(g, size, pol, par, tau, nodes, names, d_want):
    import casadi as ca
    import numpy as np
    from oracle import transcription as T
    if par.numel() != size * d_want or pol.shape[0] != size or pol.numel() != size:
        raise Violation("%d parameters and a polynomial of shape %s for size %d and %d points" % (par.numel(), pol.shape, size, d_want))
    if size == 0:
        return
    f = ca.Function("f", [tau, par], [pol])      # also: no other symbol in it
    v = [[g.rng.uniform(-2, 2) for _ in range(size)] for _ in range(d_want)]      # one point after the other, all entries of a point together
    flat = [q for row in v for q in row]
    for t in [g.rng.uniform(-0.2, 1.3) for _ in range(3)] + list(nodes):
        want = T.lagrange(nodes, v, t) if len(nodes) > 1 else np.array(v[0])
        got = np.array(f(t, ca.DM(flat))).ravel()
        if not np.allclose(got, want, atol=1e-6, rtol=1e-6):
            raise Violation("degree %d points %s: at tau=%r the polynomial is %s, specified %s" % (d_want, nodes, t, got, want))
    for j, n in enumerate(names):
        if not all(n in par[k * size + j].name() for k in range(d_want)):
            raise Violation("parameters %s for the names %s" % (par, names))


@bounded("C09.polynomial_method", "C09", "yaocptool.methods.base.solutionmethodsbase:SolutionMethodsBase.create_variable_polynomial_approximation", WHYP, runs=72, budget=60)
def _poly_m(g):
    import casadi as ca
    from oracle import transcription as T
    from yaocptool.methods import DirectMethod
    from yaocptool.modelling import OptimalControlProblem, SystemModel
    degree, size, p0 = 1 + g.seed % 9, g.rng.randint(0, 3), g.rng.random() < 0.5
    own = g.rng.random() < 0.5
    m = SystemModel()
    o = OptimalControlProblem(m)
    d = DirectMethod(o, degree=g.rng.randint(1, 4), degree_control=g.rng.randint(1, 3))
    tau = ca.SX.sym("s") if own else d.model.tau
    names = ["n%d_" % i for i in range(size)] if g.rng.random() < 0.5 else "v"
    g._rec("case", (degree, size, p0, own, names))
    pol, par = d.create_variable_polynomial_approximation(size, degree, name=names, point_at_t0=p0, **({"tau": tau} if own else {}))
    nodes = ([0.0] if p0 else []) + T.radau(degree)
    _check_poly(g, size, pol, par, tau, nodes, names if isinstance(names, list) else ["v_%d" % i for i in range(size)], len(nodes))
    for z in (False, True):
        pts = d.collocation_points(degree, with_zero=z)
        want = ([0.0] if z else []) + T.radau(degree)
        if len(pts) != len(want) or any(abs(a - b) > 1e-7 for a, b in zip(pts, want)):
            raise Violation("collocation points of degree %d are %s, specified %s" % (degree, pts, want))
    if d.unvec(ca.DM(list(range(size * degree))), degree).shape != (size if size * degree else 0, degree) or not all(
            float(d.unvec(ca.DM(list(range(size * degree))), degree)[i, j]) == j * size + i for i in range(size) for j in range(degree)):
        raise Violation("unvec of %d entries with %d columns" % (size * degree, degree))


@bounded("C09.polynomial_util", "C09", U + "create_polynomial_approximation", WHYP, runs=72, budget=60)
def _poly_u(g):
    import casadi as ca
    from oracle import transcription as T
    from yaocptool.util.util import create_polynomial_approximation
    degree, size, p0 = 1 + g.seed % 9, g.rng.randint(0, 3), g.rng.random() < 0.5
    tau = ca.SX.sym("s")
    names = ["n%d_" % i for i in range(size)] if g.rng.random() < 0.5 else "v"
    g._rec("case", (degree, size, p0, names))
    pol, par = create_polynomial_approximation(tau, size, degree, name=names, point_at_zero=p0)
    nodes = [1.0] if degree == 1 else ([0.0] if p0 else []) + T.radau(degree)
    _check_poly(g, size, pol, par, tau, nodes, names if isinstance(names, list) else ["v_%d" % i for i in range(size)], len(nodes))


@bounded("C09.control", "C09", D + ".create_control_approximation", WHYP, runs=40, budget=60)
def _control(g):
    """The controls of a method are the polynomials of its parameters, element by element."""
    import casadi as ca
    from oracle import transcription as T
    from yaocptool.methods import DirectMethod
    from yaocptool.modelling import OptimalControlProblem, SystemModel
    dc, nu = g.rng.randint(1, 4), g.rng.randint(1, 3)
    m = SystemModel()
    u = m.create_control("u", nu)
    x = m.create_state("x", nu)
    m.include_equations(ode=-x + u)
    o = OptimalControlProblem(m, x_0=[0] * nu, t_f=1.0)
    o.L = ca.dot(x, x)
    d = DirectMethod(o, degree_control=dc, finite_elements=2, degree=2)
    d.prepare()
    mm = d.model
    nodes = T.radau(dc)
    _check_poly(g, nu, mm.u_expr, mm.u_par, mm.tau, nodes if dc > 1 else [1.0], [mm.u[i].name() for i in range(nu)], dc)
    f = ca.Function("f", [mm.x, mm.tau, mm.u_par], [mm.ode])
    for k in range(nu):
        if ca.depends_on(mm.ode, mm.u):
            raise Violation("the equations still hold the controls")
    v = [[g.rng.uniform(-2, 2) for _ in range(nu)] for _ in range(dc)]
    t = g.rng.uniform(0, 1)
    want = T.lagrange(nodes, v, t) if dc > 1 else v[0]
    got = f(ca.DM.zeros(mm.n_x), t, ca.DM([q for r in v for q in r]))
    pos = [[ca.is_equal(mm.x[i], x[j]) for i in range(mm.n_x)].index(True) for j in range(nu)]
    if any(abs(float(got[pos[j]]) - want[j]) > 1e-6 for j in range(nu)):
        raise Violation("the equations with the control in place are %s, specified %s" % (got, want))


@contract("C09.polynomial", "C09", "yaocptool.methods.base.solutionmethodsbase:SolutionMethodsBase.create_variable_polynomial_approximation", budget=120)
class _:
    """At every node the polynomial is the parameter of that node, for every entry; elsewhere it is the interpolation of degree d (or d-1)
    through them: two polynomials of that degree that agree in as many points are one."""
    def inputs(g):
        k = ocp(g, small=True, guess=False)
        d = g.pick("degree", [1, 2, 3, 4, 5, 6])
        p0 = g.flag("point_at_t0")
        n = g.pick("size", [0, 1, 2, 3])
        m = g.new(D, k.o)
        kw = {"tau": g.sym("s", 1, "SX")} if g.flag("own_tau") else {}
        return Call(m, n, d, point_at_t0=p0, **kw).also(n=n, d=d, p0=p0, tau_=kw.get("tau", m.model.tau))

    def spec(S, a):
        def post(S, a, r):
            pol, par = S.item(r, 0), S.item(r, 1)
            nodes = ([0.0] if a.p0 else []) + S.nodes(a.d)
            q = len(nodes)
            out = [("parameters", S.eq(S.n(par), a.n * q)), ("one entry per variable", S.eq(S.n(pol), a.n))]
            for j, t in enumerate(nodes):
                out.append(("at node %d" % j, S.same(S.subst(pol, a.tau_, S.mat(t)), S.sl(par, j * a.n, (j + 1) * a.n))))
            return out + [("everywhere", S.same(pol, interpolation(S, nodes, par, a.n, a.tau_)))]
        return Expect(result=ANY, post=post)


def interpolation(S, nodes, par, n, tau):
    """The polynomial in tau through par[0:n], par[n:2n], ... at the nodes."""
    nodes = [S.frac(t) for t in nodes]
    c, out = monomials(nodes), None
    rows = [S.sl(par, j * n, (j + 1) * n) for j in range(len(nodes))]
    for i in reversed(range(len(nodes))):
        w = S.comb([q[i] for q in c], rows, n)
        out = w if out is None else S.add(S.mul(out, tau), w)
    return out


@contract("C09.polynomial_free", "C09", U + "create_polynomial_approximation", budget=120)
class _:
    """The same for the function of the module; a polynomial of degree 1 is the constant."""
    def inputs(g):
        d = g.pick("degree", [1, 2, 3, 4, 5, 6, 7])
        p0 = g.flag("point_at_zero")
        n = g.pick("size", [0, 1, 3])
        kw = {} if g.flag("default") else {"name": "v"}
        return Call(None, g.sym("s", 1, "SX"), n, d, point_at_zero=p0, **kw).also(n=n, d=d, p0=p0)

    def spec(S, a):
        def post(S, a, r):
            pol, par = S.item(r, 0), S.item(r, 1)
            nodes = [1.0] if a.d == 1 else ([0.0] if a.p0 else []) + S.nodes(a.d)
            return [("parameters", S.eq(S.n(par), a.n * len(nodes))), ("one entry per variable", S.eq(S.n(pol), a.n)),
                    ("everywhere", S.same(pol, interpolation(S, nodes, par, a.n, a.tau)))]
        return Expect(result=ANY, post=post)


@contract("C09.control_in_place", "C09", D + ".prepare", budget=120)
class _:
    """After a method is prepared its model runs on the interpolation of the control parameters of an element, in every equation; without
    controls nothing is parametrized."""
    def inputs(g):
        nu, dc, col = g.pick("case", [(0, 1, True), (1, 1, True), (1, 1, False), (2, 1, True), (1, 2, True), (3, 2, True), (1, 3, False), (2, 3, True), (1, 4, True), (2, 5, False), (0, 2, True)])
        k = problem(g, (2, 1, nu, 1, 1, 2, 2, dc, "S ineq:default eq:end"), "collocation" if col else "multiple-shooting")
        return Call(k.me).also(k=k, nu=nu, dc=dc)

    def body(R, a):
        R.call(a.self, "prepare")

    def spec(S, a):
        def post(S, a, _):
            k, m, nu, dc, o = a.k, a.self.model, a.nu, a.dc, a.self.problem
            nodes = S.nodes(dc) if dc > 1 else [1.0]
            out = [("parameters of an element", S.eq(S.n(m.u_par), nu * dc)), ("controls", S.eq(S.n(m.u_expr), nu))]
            if nu:
                u = interpolation(S, nodes, m.u_par, nu, m.tau)
                put = lambda e: S.subst(e, k.u, u)
                out.append(("the control", S.same(m.u_expr, u)))
            else:
                put = lambda e: e
            out += [("states", S.same(S.sl(m.ode, 0, 2), put(k.E["f"]))), ("cost", S.same(S.sl(m.ode, 2, 3), put(k.E["L"]))), ("algebraic", S.same(m.alg, put(k.E["a"]))),
                    ("cost of the elements", S.same(o.S, put(k.E["S"]))), ("inequalities", S.same(o.g_ineq, put(k.E["ineq"][0][0]))), ("equalities", S.same(o.g_eq, put(k.E["eq"][0][0])))]
            return out
        return Expect(result=ANY, post=post, frees=("self.*", "k.*"))
