"""C14: a simulation integrates the equations of the model, element after element, with the given inputs."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract
from contracts.c04_model import SM, model
from contracts.c06_ocp import OCP, ocp

DAE = "yaocptool.modelling.dae_system:DAESystem"


def posed(g, dae, **kw):
    """A model with an equation for each state; with algebraic variables or without."""
    k = model(g, missing=False, least=dict(kw.pop("least", {}), **({"y": 1, "alg": 1} if dae else {})), none=kw.pop("none", ()) + (() if dae else ("y", "alg")), **kw)
    if not kw.get("tau", True):
        for e in (k.f1, k.f2, k.f3, k.alg):
            g.avoid(e, k.m.tau)
    return k


def system(g, tag="", dae=None, tau=True, par=None):
    """A system of arbitrary sizes and equations."""
    v = {q: g.sym(tag + q, n, "SX") for q, n in (("x", g.size(tag + "nx", lo=1, hi=3)), ("t", 1))}
    v["p"] = g.sym(tag + "p", g.size(tag + "np", lo=1, hi=2), "SX") if (g.flag(tag + "with_p") if par is None else par) else None
    v["y"] = g.sym(tag + "y", g.size(tag + "ny", lo=1, hi=2), "SX") if (g.flag(tag + "dae") if dae is None else dae) else None
    v["tau"] = g.sym(tag + "tau", 1, "SX") if tau else None
    over = [q for q in v.values() if q is not None]
    ode = g.expr(tag + "ode", g.S.n(v["x"]), over=over, kind="SX")
    alg = g.expr(tag + "alg", g.S.n(v["y"]), over=over, kind="SX") if v["y"] is not None else None
    s = g.new(DAE, v["x"], ode, v["t"], y=v["y"], p=v["p"], alg=alg, tau=v["tau"])
    return NS(dict(s=s, over=over, ode=ode, alg=alg, **v))


@contract("C14.get_dae_system", "C14", SM + ".get_dae_system")
class _:
    """The system to integrate is that of the model: x with ode, y with alg, and [p; theta; u_par] as parameters."""
    def inputs(g):
        dae = g.flag("dae")
        k = posed(g, dae)
        return Call(k.m).also(dae=dae, k=k)

    def spec(S, a):
        m = a.self

        def post(S, a, r):
            out = [(q, S.same(getattr(r, q), getattr(m, q))) for q in ("x", "ode", "t", "tau")]
            out += [("p", S.same(r.p, S.cat(m.p, m.theta, m.u_par)))]
            out += [("y", S.same(r.y, m.y)), ("alg", S.same(r.alg, m.alg))]
            return out
        return Expect(result=ANY, post=post)


@contract("C14.dictionary", "C14", DAE + ".dae_system_dict")
class _:
    """What the integrator is made of."""
    def inputs(g):
        k = system(g, tau=g.flag("tau"))
        return Call(k.s).also(k=k)

    def body(R, a):
        s = a.self
        return R.attr(s, "dae_system_dict"), R.attr(s, "type"), R.attr(s, "is_dae"), R.attr(s, "is_ode"), R.attr(s, "has_parameters")

    def spec(S, a):
        k = a.k
        d = {"x": k.x, "ode": k.ode, "t": k.t}
        if k.y is not None:
            d.update(z=k.y, alg=k.alg)
        if k.p is not None:
            d["p"] = k.p
        dae = k.y is not None
        return Expect(result=(d, "dae" if dae else "ode", dae, not dae, k.p is not None))


def same_dict(S, got, want, label):
    if set(got) != set(want):
        return [("%s: %s for %s" % (label, sorted(got), sorted(want)), False)]
    return [("%s: %s" % (label, q), S.same(got[q], want[q])) for q in want]


@contract("C14.dae_simulate", "C14", DAE + ".simulate", runs=160)
class _:
    """One integration from t_0 to t_f of exactly these equations; refused when the horizon is empty or the equations still need tau."""
    def inputs(g):
        rec = g.integrators()
        # (integrator, system with tau, t_0 given, y_0 given, options)
        kind, tau, gt, gy, opts = g.pick("case", [
            (None, True, True, True, None), (None, False, True, True, {"abstol": 1e-5, "name": "mine"}), (None, False, False, False, {}), ("implicit", False, True, True, None),
            ("explicit", False, False, True, {"abstol": 1e-5}), ("rk", False, True, False, None), ("collocation", True, True, True, None), ("cvodes", False, True, False, None),
            ("idas", False, True, True, None), ("euler", False, True, True, None)])
        k = system(g, tau=tau)
        a = {"t_0": g.real("t_0")} if gt else {}
        if k.p is not None:
            a["p"] = g.dm("pv", g.S.n(k.p))
        if gy:
            a["y_0"] = g.dm("y0", g.S.n(k.y) if k.y is not None else 1)
        if opts is not None:
            a["integrator_options"] = g.dict(dict(opts))
        if kind is not None:
            a["integrator_type"] = kind
        return Call(k.s, g.dm("x0", g.S.n(k.x)), g.real("t_f"), **a).also(k=k, rec=rec, kind=kind, opts=opts or {})

    def spec(S, a):
        k, rec = a.k, a.rec
        t0 = a.t_0
        raises = [(ValueError, S.eq(a.t_f, t0))]
        if k.tau is not None:
            raises.append((AttributeError, S.Or(S.depends(k.ode, k.tau), k.alg is not None and S.depends(k.alg, k.tau))))
        if a.kind == "euler":
            raises.append((ValueError, S.eq(0, 0)))
        plugin = {None: "idas" if k.y is not None else "cvodes", "implicit": "idas" if k.y is not None else "cvodes", "explicit": "rk"}.get(a.kind, a.kind)

        def post(S, a, r):
            if len(rec.steps) != 1:
                return [("one integration", False)]
            st = rec.steps[0]
            dae = {"x": k.x, "ode": k.ode, "t": k.t}
            if k.y is not None:
                dae.update(z=k.y, alg=k.alg)
            if k.p is not None:
                dae["p"] = k.p
            out = same_dict(S, st.dae, dae, "equations")
            out += [("from", S.eq(st.t0, t0)), ("to", S.eq(st.tf, a.t_f)), ("integrator", st.plugin == plugin)]
            out += [("option " + q, st.options.get(q) == w) for q, w in a.opts.items() if q != "name"]
            args = {"x0": a.x_0, "p": a.p if a.p is not None else S.empty()}
            if k.y is not None and a.y_0 is not None:
                args["z0"] = a.y_0
            got = dict(st.args)
            if "p" not in got and a.p is None:
                got["p"] = S.empty()
            out += same_dict(S, got, args, "arguments")
            out += [("final state", S.same(S.get(r, "xf"), st.xf)), ("final y", S.same(S.get(r, "zf"), st.zf))]
            return out
        return Expect(raises=raises, result=ANY, post=post)


@contract("C14.tau_to_time", "C14", DAE + ".convert_from_tau_to_time")
class _:
    """tau becomes (t - t_k)/(t_k+1 - t_k) in every equation."""
    def inputs(g):
        k = system(g, tau=g.flag("tau"))
        a, b = g.real("t_k"), g.real("t_kp1")
        g.assume(g.S.ne(a, b))
        return Call(k.s, a, b).also(k=k)

    def spec(S, a):
        k = a.k
        if k.tau is None:
            return Expect(raises=[(AttributeError, S.eq(0, 0))])
        e = S.div(S.sub(k.t, a.t_k), S.sub(a.t_kp1, a.t_k))
        f = lambda v: S.subst(v, k.tau, e)
        eff = {"self.ode": f(k.ode)}
        if k.alg is not None:
            eff["self.alg"] = f(k.alg)
        return Expect(effects=eff)


@contract("C14.dae_substitute", "C14", DAE + ".substitute_variable")
class _:
    def inputs(g):
        k = system(g)
        old = g.pick("what", [lambda: k.x, lambda: k.t, lambda: k.p if k.p is not None else k.x])
        new = g.sym("new", g.S.n(old), "SX")
        return Call(k.s, old, new).also(k=k)

    def spec(S, a):
        s = a.self
        return Expect(effects={"self." + q: S.subst(getattr(s, q), a.old_var, a.new_var) for q in ("ode", "alg", "x", "y", "p")})


@contract("C14.dae_join", "C14", DAE + ".join")
class _:
    """Both systems side by side on one time axis; the other system stays as it is."""
    def inputs(g):
        k = system(g, par=True, tau=g.flag("tau1"))
        o = system(g, "o_", tau=g.flag("tau2"))
        return Call(k.s, o.s).also(k=k, o=o, other=o.s)

    def spec(S, a):
        s, k, o = a.self, a.k, a.o

        def own(v):
            v = S.subst(v, o.t, k.t)
            return S.subst(v, o.tau, k.tau) if k.tau is not None and o.tau is not None else v
        return Expect(effects={"self." + q: own(S.cat(getattr(s, q), getattr(o.s, q))) for q in ("ode", "alg", "x", "y", "p")})


@contract("C14.dae_has", "C14", DAE + ".has_variable")
class _:
    """A variable is in the system when it is one of x, y, p, t, tau."""
    def inputs(g):
        k = system(g, tau=g.flag("tau"))
        what = g.pick("what", ["x", "p", "t", "y", "tau", "new"])
        v = g.sym("v", 1, "SX")
        if what != "new":
            q = getattr(k, what)
            if q is not None:
                v = g.S.elem(q, g.index("i", g.S.n(q)))
            else:
                what = "new"
        return Call(k.s, v).also(k=k, what=what)

    def spec(S, a):
        return Expect(result=a.what != "new")


@contract("C14.model_simulate", "C14", SM + ".simulate", budget=150, runs=160)
class _:
    """Element k is integrated from the end of the one before, with the parameters, theta and control of element k; every point is
    in the result with its time, and the controls are those applied."""
    def inputs(g):
        rec = g.integrators()
        dae = g.flag("dae")
        # (elements, p given, theta given, controls, y_0 given, integrator and its options given)
        N, gp, gt, form, gy, go = g.pick("case", [
            (1, True, True, "one", True, True), (1, False, False, "none", False, False), (1, True, True, "each", True, False), (2, False, True, "one", True, False),
            (2, True, False, "each", False, True), (2, False, False, "none", True, False), (2, True, True, "each", True, False), (3, True, True, "each", True, False),
            (3, True, True, "one", False, True)])
        given = {"p": gp, "theta": gt}
        par = form != "none" and g.flag("parametrized")
        k = posed(g, dae, tau=False, least={"u": 1} if par else {}, none=tuple(q for q in given if not given[q]) + (("u",) if form == "none" else ()))
        m = k.m
        if par:
            # the controls are expressions in everything else and in new parameters
            w = g.sym("w", g.size("n_w", lo=1, hi=2), "SX")
            fu = g.expr("fu", g.S.n(k.u), over=[k.x1, k.x2, k.x3, k.y, k.p, k.theta, m.t, w], kind="SX")
            g.avoid(fu, m.tau)
            g.call(m, "parametrize_control", k.u, fu, w)
        ts = [g.real("t%d" % q) for q in range(N + 1)]
        for q in range(N):
            g.assume(g.S.ne(ts[q], ts[q + 1]))
        nx, ny, np_, nt, nu = [g.S.n(v) for v in (m.x, m.y, m.p, m.theta, m.u_par)]
        a = {"t_0": ts[0]}
        a["x_0"] = g.dm("x0", nx, inf=False)
        pv = g.dm("pv", np_, inf=False) if given["p"] else None
        if pv is not None:
            a["p"] = pv
        th = {q: g.dm("th%d" % q, nt, inf=False) for q in range(N)} if given["theta"] else None
        if th is not None:
            a["theta"] = g.dict(dict(th))
        us = {q: g.dm("u%d" % q, nu, inf=False) for q in range(N if form == "each" else 1)} if form != "none" else None
        if form == "each":
            a["u"] = g.dict(dict(us))
        elif form == "one":
            a["u"] = us[0]
        y0 = g.dm("y0", ny, inf=False) if gy else None
        if y0 is not None:
            a["y_0"] = y0
        if go:
            a["integrator_type"] = "rk"
            a["integrator_options"] = g.dict({"abstol": 1e-5})
        tf = g.list(ts[1:]) if N > 1 or g.flag("as_list") else ts[1]
        return Call(m, t_f=tf, **a).also(k=k, rec=rec, ts=ts, N=N, us=us, th=th, pv=pv, y0=y0, form=form, dae=dae)

    def spec(S, a):
        m, rec, N = a.self, a.rec, a.N

        def post(S, a, r):
            if len(rec.steps) != N:
                return [("one integration per element", False)]
            e = S.empty()
            x, y = a.x_0, a.y0
            out, xs, ys, us = [], [x], [], []
            pv = a.pv if a.pv is not None else e
            par = S.cat(m.p, m.theta, m.u_par)
            for q, st in enumerate(rec.steps):
                th = a.th[q] if a.th is not None else e
                u = a.us[q if a.form == "each" else 0] if a.us is not None else e
                lab = "element %d " % q
                out += [(lab + "from", S.eq(st.t0, a.ts[q])), (lab + "to", S.eq(st.tf, a.ts[q + 1])), (lab + "start", S.same(st.args["x0"], x)),
                        (lab + "parameters", S.same(st.args.get("p", e), S.cat(pv, th, u))),
                        (lab + "x", S.same(st.dae["x"], m.x)), (lab + "ode", S.same(st.dae["ode"], m.ode)), (lab + "t", S.same(st.dae["t"], m.t)),
                        (lab + "p", S.same(st.dae.get("p", e), par)), (lab + "z", S.same(st.dae.get("z", e), m.y)), (lab + "alg", S.same(st.dae.get("alg", e), m.alg)),
                        (lab + "integrator", st.plugin == (a.integrator_type or ("idas" if a.dae else "cvodes")))]
                if a.dae and (q > 0 or a.y0 is not None):
                    out += [(lab + "guess of y", S.same(st.args.get("z0", e), y))]
                elif a.dae:
                    out += [(lab + "no guess of y", "z0" not in st.args)]
                x, y = st.xf, st.zf
                xs.append(x)
                ys.append(y)
                us.append(S.subst(m.u_expr, S.cat(m.t, m.x, m.y, m.p, m.theta, m.u_par), S.cat(a.ts[q + 1], x, y if a.dae else e, pv, th, u)))
            d = lambda q: S.get(r.data, q)
            row = lambda ts: S.hcat(*ts)
            out += [("times of x", S.same(d("x").time, row(a.ts))), ("x", S.same(d("x").values, S.hcat(*xs))),
                    ("times of u", S.same(d("u").time, row(a.ts[1:]))), ("u", S.Or(S.eq(S.n(m.u), 0), S.same(d("u").values, S.hcat(*us)))),
                    ("times of y", S.same(d("y").time, row(a.ts[1:])))]
            if a.dae:
                out.append(("y", S.same(d("y").values, S.hcat(*ys))))
            out += [("t_0", S.eq(r.t_0, a.ts[0])), ("t_f", S.eq(r.t_f, a.ts[-1])), ("elements", S.eq(r.finite_elements, N))]
            return out
        return Expect(result=ANY, post=post)


@contract("C14.ocp_simulate", "C14", OCP + ".simulate", budget=100)
class _:
    """The model of the problem is simulated over the given or the problem's own horizon, in equal elements, from the given or the
    problem's initial state, with the given controls or the problem's guess."""
    def inputs(g):
        t0 = g.real("p_t0")
        tf = g.S.add(t0, g.real("p_len", lo=0.01))
        k = ocp(g, small=True, guess=False, t_0=t0, t_f=tf)
        m, o = k.mo, k.o
        res = g.dict({})
        rec = g.stub(m, "simulate", result=res)
        case = g.pick("case", ["none", "all", "horizon", "elements", "list", "guesses", "elements of a list"])
        a, fe = {}, None
        if case in ("all", "horizon"):
            a["t_0"] = g.real("t_0")
            a["t_f"] = g.S.add(a["t_0"], g.real("len", lo=0.01))
        if case in ("all", "elements", "elements of a list"):
            fe = a["finite_elements"] = g.size("elements", lo=1, hi=4)
        if case in ("list", "elements of a list"):
            a["t_f"] = g.reals("ts", 3)
        if case == "all":
            a.update(x_0=g.dm("x0v", g.S.n(m.x)), u=g.dm("uv", g.S.n(m.u)), p=g.dm("pv", g.S.n(m.p)), theta=g.dmdict("th", fe, g.S.n(m.theta)),
                     y_0=g.dm("y0v", g.S.n(m.y)), integrator_type="rk", integrator_options=g.dict({"abstol": 1e-3}))
        if case == "guesses":
            g.put(o, u_guess=g.dm("ug", g.S.n(m.u)), y_guess=g.dm("yg", g.S.n(m.y)))
        return Call(o, **a).also(k=k, rec=rec, case=case, given=a, res=res)

    def spec(S, a):
        o, v = a.self, a.given
        t0 = v.get("t_0", o.t_0)
        tf = v.get("t_f", o.t_f)
        fe = v.get("finite_elements")

        def post(S, a, r):
            if len(a.rec) != 1:
                return [("one simulation", False)]
            pos, kw = a.rec[0]
            args = dict(zip(("x_0", "t_f", "t_0", "u", "p", "theta", "y_0", "integrator_type", "integrator_options"), pos), **kw)
            out = [("its result", S.is_same(r, a.res)), ("t_0", S.eq(args["t_0"], t0))]
            ts = args["t_f"]
            if a.case in ("list", "elements of a list"):
                out += [("end times", S.is_same(ts, tf))]
            elif fe is None:
                out += [("t_f", S.eq(ts, tf))]
            else:
                dt = S.div(S.sub(tf, t0), fe)
                out += [("number of elements", S.eq(S.n(ts), fe)),
                        ("end times", S.forall(fe, lambda j: S.eq(S.item(ts, j), S.add(t0, S.mul(dt, S.add(j, 1))))))]
            out.append(("x_0", S.same(args["x_0"], v.get("x_0", o.x_0))))
            for q, w in (("u", o.u_guess), ("y_0", o.y_guess)):
                w = v.get(q, w)
                out.append((q, args.get(q) is None if w is None else args.get(q) is not None and S.same(args[q], w)))
            for q in ("p", "theta", "integrator_type", "integrator_options"):
                out.append((q, args.get(q) == v[q] if isinstance(v.get(q), str) else S.is_same(args.get(q), v.get(q))))
            return out
        return Expect(result=ANY, post=post, frees=["self.*"])


class _Plant:
    """A random stable model written twice: as a SystemModel, and as functions of numbers."""

    def __init__(self, g, feedback=True, par=True):
        import casadi as ca
        import numpy as np
        from yaocptool.modelling.system_model import SystemModel
        r = g.rng
        num = lambda lo=-1.0, hi=1.0: round(r.uniform(lo, hi), 2)
        self.nx, self.ny, self.nu, self.np, self.nt = r.randint(1, 3), r.randint(0, 2), r.randint(0, 2), r.randint(0, 2) * par, r.randint(0, 2) * par
        mat = lambda a, b: np.array([[num() for _ in range(b)] for _ in range(a)]).reshape(a, b)
        nx, ny, nu, npar, nt = self.nx, self.ny, self.nu, self.np, self.nt
        self.A, self.B, self.P, self.Q, self.C = mat(nx, nx) - 2 * np.eye(nx), mat(nx, nu), mat(nx, npar), mat(nx, nt), mat(nx, ny)
        self.G, self.H, self.w, self.c3 = mat(ny, nx), mat(ny, nu), num(0.2, 2), mat(nx, 1)[:, 0]
        self.name = "pl%d" % r.randint(0, 9)
        m = self.m = SystemModel(name=self.name)
        mk = dict(x=("create_state", nx), y=("create_algebraic_variable", ny), u=("create_control", nu), p=("create_parameter", npar), th=("create_theta", nt))
        s = {}
        for q, (f, n) in mk.items():
            s[q] = ca.vertcat(*[getattr(m, f)("%s%d" % (q, j)) for j in range(n)]) if n else ca.SX(0, 1)
        mul = lambda M, v: ca.mtimes(ca.DM(M), v) if M.shape[1] else ca.SX.zeros(M.shape[0], 1)
        ode = mul(self.A, s["x"]) + mul(self.B, s["u"]) + mul(self.P, s["p"]) + mul(self.Q, s["th"]) + mul(self.C, s["y"]) + ca.DM(self.c3) * ca.sin(self.w * m.t)
        m.include_equations(ode=[ode])
        if ny:
            m.include_equations(alg=[2 * s["y"] - ca.sin(mul(self.G, s["x"])) - mul(self.H, s["u"])])
        self.K = None
        if feedback and nu and r.random() < 0.4:
            # u_0 = K x + par
            self.K = mat(1, nx)[0]
            par = ca.SX.sym("par")
            m.parametrize_control(s["u"][0], ca.dot(ca.DM(self.K), s["x"]) + par, par)
        self.vec = lambda n: [num() for _ in range(n)]

    def passed(self, u):
        """The order of u_par: parameters of a control come after the other controls."""
        return u if self.K is None else u[1:] + u[:1]

    def control(self, x, u):
        import numpy as np
        u = np.array(u, float)
        if self.K is not None:
            u[0] += float(np.dot(self.K, x))
        return u

    def y(self, x, u):
        import numpy as np
        return (np.sin(self.G @ x) + self.H @ self.control(x, u)) / 2 if self.ny else np.zeros(0)

    def f(self, t, x, u, p, th):
        import numpy as np
        return self.A @ x + self.B @ self.control(x, u) + self.P @ p + self.Q @ th + self.C @ self.y(x, u) + self.c3 * np.sin(self.w * t)

    def run(self, x, t0, t1, u, p, th, n=60):
        h = (t1 - t0) / n
        for j in range(n):
            t = t0 + j * h
            k1 = self.f(t, x, u, p, th)
            k2 = self.f(t + h / 2, x + h / 2 * k1, u, p, th)
            k3 = self.f(t + h / 2, x + h / 2 * k2, u, p, th)
            k4 = self.f(t + h, x + h * k3, u, p, th)
            x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        return x


@bounded("C14.numeric", "C14", SM + ".simulate", why="casadi's integrators: compared with a Runge-Kutta integration of the same random model", runs=50)
def _numeric(g):
    import casadi as ca
    import numpy as np
    k = _Plant(g)
    r = g.rng
    N = r.randint(1, 4)
    t0 = r.choice([0.0, 0.7, -1.3])
    ts = [t0]
    for _ in range(N):
        ts.append(round(ts[-1] + r.uniform(0.1, 1.0), 3))
    x0, p = k.vec(k.nx), k.vec(k.np)
    us = {j: k.vec(k.nu) for j in range(N)}
    if r.random() < 0.3:
        us = {j: us[0] for j in range(N)}
    th = {j: k.vec(k.nt) for j in range(N)}
    g._rec("case", dict(nx=k.nx, ny=k.ny, nu=k.nu, np=k.np, nt=k.nt, feedback=k.K is not None, times=ts))
    lst = lambda v: ca.DM(v) if v else ca.DM(0, 1)
    kw = {}
    if k.np:
        kw["p"] = p if r.random() < 0.5 else lst(p)
    if k.nt:
        keys = list(range(N))
        r.shuffle(keys)
        kw["theta"] = {j: lst(th[j]) for j in keys}
    if k.nu:
        same = all(us[j] == us[0] for j in us)
        keys = list(range(N))
        r.shuffle(keys)
        v = {j: k.passed(us[j]) for j in us}
        kw["u"] = (v[0] if r.random() < 0.5 else lst(v[0])) if same else {j: lst(v[j]) for j in keys}
    if k.ny:
        kw["y_0"] = [0.1] * k.ny
    if r.random() < 0.5:
        kw["integrator_options"] = {"abstol": 1e-9, "reltol": 1e-9}
    tol = 1e-3
    before = dict(kw)
    res = k.m.simulate(x_0=x0 if r.random() < 0.5 else lst(x0), t_0=t0, t_f=ts[1:] if N > 1 or r.random() < 0.5 else ts[1], **kw)
    if set(kw) != set(before):
        raise Violation("the arguments changed")
    close = lambda a, b: np.allclose(np.array(a, float).flatten(), np.array(b, float).flatten(), atol=tol, rtol=tol)
    x = np.array(x0)
    tx, vx = res.get_entry("x")
    tu, vu = res.get_entry("u")
    ty, vy = res.get_entry("y")
    if not close(tx.full(), ts) or not close(tu.full(), ts[1:]) or (k.ny and not close(ty.full(), ts[1:])):
        raise Violation("times %s, %s for the element ends %s" % (tx, tu, ts))
    if not close(vx[:, 0].full(), x):
        raise Violation("starts at %s, given %s" % (vx[:, 0], x))
    for j in range(N):
        x = k.run(x, ts[j], ts[j + 1], np.array(us[j]), np.array(p), np.array(th[j]))
        if not close(vx[:, j + 1].full(), x):
            raise Violation("x at %s is %s, the equations give %s" % (ts[j + 1], vx[:, j + 1], x))
        if k.ny and not close(vy[:, j].full(), k.y(x, np.array(us[j]))):
            raise Violation("y at %s is %s, the equations give %s" % (ts[j + 1], vy[:, j], k.y(x, np.array(us[j]))))
        if k.nu and not close(vu[:, j].full(), k.control(x, us[j])):
            raise Violation("u at %s is %s, applied %s" % (ts[j + 1], vu[:, j], k.control(x, us[j])))
    fc = res.final_condition()
    if not close(fc["x"].full(), x):
        raise Violation("final condition %s" % fc)


@bounded("C14.linearize", "C14", SM + ".linearize", why="derivatives by casadi", runs=40)
def _linearize(g):
    import casadi as ca
    import numpy as np
    from yaocptool.modelling.system_model import SystemModel
    r = g.rng
    nx, nu = r.randint(1, 3), r.randint(1, 2)
    m = SystemModel(name="mm")
    x = ca.vertcat(*[m.create_state("x%d" % j) for j in range(nx)])
    u = ca.vertcat(*[m.create_control("u%d" % j) for j in range(nu)])
    c = [[round(r.uniform(-1, 1), 2) for _ in range(nx + nu)] for _ in range(nx)]
    d = [[round(r.uniform(-1, 1), 2) for _ in range(nx + nu)] for _ in range(nx)]
    v = ca.vertcat(x, u)
    m.include_equations(ode=[ca.vertcat(*[sum(c[i][j] * v[j] + d[i][j] * v[j] ** 2 * v[(j + 1) % (nx + nu)] for j in range(nx + nu)) for i in range(nx)])])
    fn = lambda w: np.array([sum(c[i][j] * w[j] + d[i][j] * w[j] ** 2 * w[(j + 1) % (nx + nu)] for j in range(nx + nu)) for i in range(nx)])
    w0 = [round(r.uniform(-1, 1), 2) for _ in range(nx + nu)]
    lin = m.linearize(ca.DM(w0[:nx]), ca.DM(w0[nx:]))
    if (lin.n_x, lin.n_u) != (nx, nu):
        raise Violation("sizes of the linear model %s, %s" % (lin.n_x, lin.n_u))
    F = ca.Function("F", [lin.x, lin.u], [lin.ode])
    for j in range(nx + nu):
        e = [0.0] * (nx + nu)
        e[j] = 1.0
        h = 1e-5
        up, dn = list(w0), list(w0)
        up[j] += h
        dn[j] -= h
        want = (fn(up) - fn(dn)) / (2 * h)
        got = np.array(F(e[:nx], e[nx:])).flatten()
        if not np.allclose(got, want, atol=1e-5):
            raise Violation("column %d of the linear model is %s, the derivative is %s" % (j, got, want))
    if not np.allclose(np.array(F([0] * nx, [0] * nu)).flatten(), 0):
        raise Violation("the linear model has a constant term")


@bounded("C14.equilibrium", "C14", SM + ".find_equilibrium", why="a root found by a numerical solver", runs=12)
def _equilibrium(g):
    import casadi as ca
    import numpy as np
    k = _Plant(g, feedback=False, par=False)
    m, r = k.m, g.rng
    t0 = r.choice([0.0, 0.8])
    want_u = k.vec(k.nu)
    eqs = [m.u[j] - want_u[j] for j in range(k.nu)]
    opts = dict(nlpsol="ipopt", nlpsol_options={"ipopt.print_level": 0, "print_time": False})
    x, y, u = m.find_equilibrium(eqs if r.random() < 0.5 else ca.vertcat(*eqs) if eqs else ca.SX(0, 1), t_0=t0, rootfinder_options=opts)
    x, y, u = [np.array(v, float).flatten() for v in (x, y, u)]
    if (len(x), len(y), len(u)) != (k.nx, k.ny, k.nu):
        raise Violation("sizes %s %s %s" % (len(x), len(y), len(u)))
    if not np.allclose(u, want_u, atol=1e-4) or not np.allclose(k.f(t0, x, u, np.zeros(0), np.zeros(0)), 0, atol=1e-4) or not np.allclose(y, k.y(x, u), atol=1e-4):
        raise Violation("x=%s y=%s u=%s is no equilibrium" % (x, y, u))


@bounded("C14.expm", "C14", "yaocptool.util.util:expm", why="computed by a numerical integrator", runs=20)
def _expm(g):
    import casadi as ca
    import numpy as np
    from yaocptool import expm
    n = g.rng.randint(1, 4)
    A = np.array([[round(g.rng.uniform(-1, 1), 2) for _ in range(n)] for _ in range(n)])
    g._rec("A", A.tolist())
    want, term = np.eye(n), np.eye(n)
    for j in range(1, 40):
        term = term @ A / j
        want = want + term
    got = expm(ca.DM(A)).full()
    if got.shape != (n, n) or not np.allclose(got, want, atol=1e-3, rtol=1e-3):
        raise Violation("expm gives %s, the series %s" % (got, want))
