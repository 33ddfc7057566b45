"""C17: the simulated plant and the closed loop."""
from pydv.contract import ANY, Call, Expect, NS, contract
from contracts.c09_time import interpolation

SM = "yaocptool.modelling.system_model:SystemModel"
D = "yaocptool.methods.classic.directmethod:DirectMethod"
OCP = "yaocptool.modelling.ocp:OptimalControlProblem"
RES = "yaocptool.methods.base.optimizationresult:OptimizationResult"
EST = "yaocptool.estimation.estimator_abstract:EstimatorAbstract"
MPC = "yaocptool.mpc.mpc:MPC"
PL = "yaocptool.mpc.plant:PlantSimulation"


def modelled(g, nx, ny, nu, np_=0, time=True):
    m = g.new(SM, name="m")
    x = g.call(m, "create_state", "x", nx)
    y = g.call(m, "create_algebraic_variable", "y", ny) if ny else g.S.empty("SX")
    u = g.call(m, "create_control", "u", nu) if nu else g.S.empty("SX")
    p = g.call(m, "create_parameter", "p", np_) if np_ else g.S.empty("SX")
    every = [x, y, u, p] + [m.t] * time
    f, a = g.fexpr("f", nx, every), g.fexpr("a", ny, every)
    g.call(m, "include_equations", ode=f, alg=a)
    return NS(dict(m=m, x=x, y=y, u=u, p=p, f=f, a=a, nx=nx, ny=ny, nu=nu))


def plant(g, k, np_=0, case=(1, None, True), ts=None):
    """case: (sampling points, measurements or all, initial time given)"""
    S = g.S
    form, nm, given = case
    pts = [0.25, 0.5, 1.0] if form == "list" else [(j + 1) / form for j in range(form)]
    kw = {}
    if form != 1:
        kw["super_samling"] = g.list(list(pts)) if form == "list" else form
    C = None
    if nm is not None:
        C = kw["c_matrix"] = g.matrix("C", nm, k.nx + k.ny)
    t0 = 0.0
    if given:
        t0 = kw["t_0"] = g.real("t_0")
    if ts is None:
        ts = g.real("t_s")
        g.assume(S.gt(ts, 0.0))
    x0, u0, y0 = g.dm("x_0", k.nx, inf=False), g.dm("u_0", k.nu, inf=False), g.dm("y_guess", k.ny, inf=False)
    make = (g.cls(PL), (k.m, x0, u0, y0), dict(kw, t_s=ts, verbosity=0))
    pv = g.dm("pv", np_, inf=False) if np_ else None
    return NS(dict(make=make, pts=pts, C=C, t0=t0, ts=ts, x0=x0, u0=u0, y0=y0, pv=pv, nm=nm if nm is not None else k.nx + k.ny))


def made(R, pl):
    cls, args, kw = pl.make
    o = R.fn(cls, *args, **kw)
    if pl.pv is not None:
        R.put(o, p=pl.pv)
    return o


def measured(S, pl, x, y):
    v = S.cat(x, y) if S.n(y) != 0 else x
    return v if pl.C is None else S.mtimes(pl.C, v)


def follows(S, k, pl, rec, inputs, ds, out, noise=None):
    """Obligations: the integrations recorded are those of the plant under `inputs`, one per sampling time, each a function
    (index of the sampling point, time) -> control; and the data set holds what happened. Returns [(time, measurement, control)]."""
    e = S.empty()
    n = len(pl.pts)
    out.append(("integrations", len(rec.steps) == n * len(inputs)))
    if len(rec.steps) != n * len(inputs):
        return None
    x, y, t, u = pl.x0, pl.y0, pl.t0, pl.u0
    rows = {"x": [(t, x)], "y": [(t, y)], "u": [(t, u)], "meas": [(t, measured(S, pl, x, y))]}
    seen = [(t, measured(S, pl, x, y), u)]
    clean = list(rows["meas"])
    draws = iter(noise or [])
    for i, inp in enumerate(inputs):
        start = t
        for j in range(n):
            st, lab = rec.steps[i * n + j], "control %d, point %d: " % (i, j)
            to = S.add(start, S.mul(S.num(pl.pts[j]), pl.ts))
            u = inp(j, t)
            par = S.cat(*([pl.pv] if pl.pv is not None else []), *([u] if k.nu else [])) if (pl.pv is not None or k.nu) else e
            out += [(lab + "from", S.close(st.t0, t)), (lab + "to", S.close(st.tf, to)), (lab + "start", S.same(st.args["x0"], x)), (lab + "inputs", S.same(st.args.get("p", e), par)),
                    (lab + "equations", S.And(S.same(st.dae["x"], k.x), S.same(st.dae["ode"], k.f), S.same(st.dae.get("z", e), k.y), S.same(st.dae.get("alg", e), k.a)))]
            if k.ny:
                out.append((lab + "guess", S.same(st.args["z0"], pl.y0)))
            t, x, y = to, st.xf, st.zf
            if noise is not None:
                x = S.add(x, next(draws))
            rows["x"].append((t, x))
            rows["y"].append((t, y))
            rows["u"].append((t, u))
        v = measured(S, pl, x, y)
        clean.append((t, v))
        if noise is not None:
            v = S.add(v, next(draws))
        rows["meas"].append((t, v))
        seen.append((t, v, u))
    rows["meas_wo_noise"] = clean
    out.append(("entries", S.keys(ds.data) == set(rows)))
    for q, want in rows.items():
        d = S.get(ds.data, q)
        size = {"x": k.nx, "y": k.ny, "u": k.nu}.get(q, pl.nm)
        out.append((q + " size", S.eq(d.size, size)))
        out.append((q + " times", S.same(d.time, S.hcat(*[S.mat(w) for w, _ in want]))))
        if size:
            out.append((q + " values", S.same(d.values, S.hcat(*[v for _, v in want]))))
    return seen


@contract("C17.plant", "C17", PL + ".set_control", budget=150)
class _:
    """Every control advances the plant by one sampling time through its sampling points, integrating its model from where it was."""
    def inputs(g):
        rec = g.integrators()
        # (states, algebraic variables, controls, parameters), (sampling points, measurements, initial time given)
        sizes, case = g.pick("case", [((1, 0, 1, 0), (1, None, False)), ((2, 0, 2, 1), (2, 1, True)), ((2, 1, 1, 0), (3, None, True)), ((1, 2, 0, 1), (1, 2, True)), ((2, 1, 2, 2), ("list", 2, True)),
                                      ((3, 0, 1, 0), (4, None, True))])
        k = modelled(g, *sizes)
        pl = plant(g, k, sizes[3], case)
        us = [g.dm("u_%d" % i, k.nu, inf=False) for i in range(3)]
        held = [[g.dm("held_%d_%d" % (i, j), k.nu, inf=False) for j in range(len(pl.pts))] for i in range(2)]
        fs = [g.recorder(list(h)) for h in held]
        how = g.pick("how", ["", "cc", "cf", "ffc", "fcc"])
        return Call(None).also(k=k, pl=pl, rec=rec, us=us, held=held, fs=fs, how=how)

    def body(R, a):
        o = made(R, a.pl)
        got = [R.call(o, "get_measurement")]
        for i, c in enumerate(a.how):
            if c == "c":
                R.call(o, "set_control", a.us[i])
            else:
                R.call(o, "set_control_function", a.fs[i].fn)
            got.append(R.call(o, "get_measurement"))
        return o, got

    def spec(S, a):
        def post(S, a, r):
            o, r = S.item(r, 0), S.item(r, 1)
            out = []
            ins = [(lambda j, t, i=i: a.us[i]) if c == "c" else (lambda j, t, i=i: a.held[i][j]) for i, c in enumerate(a.how)]
            seen = follows(S, a.k, a.pl, a.rec, ins, o.dataset, out)
            if seen is None:
                return out
            for i, c in enumerate(a.how):
                if c == "f":
                    f = a.fs[i]
                    out.append(("function %d asked once per point" % i, len(f.calls) == len(a.pl.pts)))
                    start = seen[i][0]
                    if len(f.calls) == len(a.pl.pts):
                        for j, (args, _) in enumerate(f.calls):
                            at = start if j == 0 else S.add(start, S.mul(S.num(a.pl.pts[j - 1]), a.pl.ts))
                            out.append(("function %d at %d" % (i, j), S.close(args[0], at)))
            for i, (t, m, u) in enumerate(seen):
                got = S.item(r, i)
                out += [("measurement %d: time" % i, S.close(S.item(got, 0), t)), ("measurement %d" % i, S.same(S.item(got, 1), m))]
                if a.k.nu:
                    out.append(("measurement %d: control" % i, S.same(S.item(got, 2), u)))
            return out
        return Expect(result=ANY, post=post)


@contract("C17.noise", "C17", PL + ".set_control", budget=60)
class _:
    """With noise, every new state has a draw with the covariance of the process and every measurement one with that of the
    measurements, and nothing else changes."""
    def inputs(g):
        rec, rnd = g.integrators(), g.normals()
        sizes, case = g.pick("case", [((1, 0, 1, 0), (1, None, False)), ((2, 1, 1, 0), (2, 1, True)), ((2, 0, 1, 0), (1, 2, True))])
        k = modelled(g, *sizes)
        pl = plant(g, k, 0, case)
        us = [g.dm("u_%d" % i, k.nu, inf=False) for i in range(2)]
        return Call(None).also(k=k, pl=pl, rec=rec, rnd=rnd, us=us, rv=g.matrix("r_v", k.nx, k.nx), rn=g.matrix("r_n", pl.nm, pl.nm))

    def body(R, a):
        o = made(R, a.pl)
        R.put(o, has_noise=True, r_v=a.rv, r_n=a.rn)
        got = [R.call(o, "get_measurement")]
        for u in a.us:
            R.call(o, "set_control", u)
            got.append(R.call(o, "get_measurement"))
        return o, got

    def spec(S, a):
        def post(S, a, r):
            o, r = S.item(r, 0), S.item(r, 1)
            n = len(a.pl.pts) + 1
            out = [("draws", len(a.rnd.draws) == 2 * n)]
            if len(a.rnd.draws) != 2 * n:
                return out
            for i, (mean, cov, v) in enumerate(a.rnd.draws):
                of = a.rn if i % n == n - 1 else a.rv
                out += [("draw %d: size" % i, len(mean) == (a.pl.nm if i % n == n - 1 else a.k.nx)), ("draw %d: mean" % i, all(m == 0 for m in mean)), ("draw %d: covariance" % i, S.same(cov, of))]
            seen = follows(S, a.k, a.pl, a.rec, [lambda j, t, u=u: u for u in a.us], o.dataset, out, noise=[v for _, _, v in a.rnd.draws])
            if seen is not None:
                out += [("measurement %d" % i, S.same(S.item(S.item(r, i), 1), seen[i][1])) for i in range(3)]
            return out
        return Expect(result=ANY, post=post)


@contract("C17.control_size", "C17", PL + ".set_control")
class _:
    """A control of another size is refused, and the plant stays where it was."""
    def inputs(g):
        rec = g.integrators()
        k = modelled(g, *g.pick("sizes", [(1, 0, 1), (2, 1, 2)]))
        pl = plant(g, k)
        n = g.pick("n", [0, 1, 2, 3])
        g.assume(n != k.nu)
        return Call(None).also(k=k, pl=pl, rec=rec, u=g.dm("u", n, inf=False))

    def body(R, a):
        o = made(R, a.pl)
        before = [R.attr(o, q) for q in ("t", "x", "u", "measurement")]
        return o, before, R.refused(o, "set_control", a.u)

    def spec(S, a):
        def post(S, a, r):
            o, before = S.item(r, 0), S.item(r, 1)
            return [("refused", S.item(r, 2)), ("no integration", len(a.rec.steps) == 0), ("time", S.eq(o.t, S.item(before, 0)))] + \
                [(q, S.same(getattr(o, q), S.item(before, i))) for i, q in ((1, "x"), (2, "u"), (3, "measurement"))]
        return Expect(result=ANY, post=post)


@contract("C17.loop", "C17", MPC + ".run", budget=200, runs=100)
class _:
    """Every iteration estimates the state from the measurement, solves from it with the last control and the parameters, and applies
    the first element of the solution, as the function of time it is, for one sampling time."""
    def inputs(g):
        S = g.S
        rec = g.integrators()
        # iterations, (states, algebraic variables, controls), sampling points, degree, degree of the control, estimator, cost state, rearranged, parameters
        n, sizes, case, d, dc, est, cost, other, par = g.pick("case", [
            (1, (1, 0, 1), (1, None, False), 2, 1, False, False, False, None), (3, (2, 0, 1), (2, None, True), 3, 3, False, True, False, None),
            (2, (2, 1, 2), (2, 2, True), 2, 3, True, False, True, "given"), (2, (1, 1, 1), ("list", None, True), 3, 2, True, True, False, "mean"),
            (2, (2, 0, 1), (1, 1, True), 1, 1, True, False, False, "cov"), (0, (1, 0, 1), (1, None, False), 2, 2, False, False, False, "both")])
        k = modelled(g, *sizes)
        nx, ny, nu = sizes
        pl = plant(g, k, 0, case, ts=g.pick("t_s", [0.5, 2.0]))
        N = 2
        o = g.new(OCP, modelled(g, *sizes).m, t_f=4.0)
        me = g.new(D, o, finite_elements=N, degree=d, degree_control=dc, discretization_scheme="collocation")
        runs = n or 3
        us = [[[g.dm("u_%d_%d_%d" % (i, el, j), nu, inf=False) for j in range(dc)] for el in range(N)] for i in range(runs)]
        found = []
        for i in range(runs):
            r = g.new(RES)
            g.put(r, u_data=g.dict({"values": g.list([g.list(list(e)) for e in us[i]]), "time": g.list([])}), raw_decision_variables=g.dm("v_%d" % i, N * ((d + 1) * nx + d * ny + dc * nu), inf=False))
            found.append(r)
        solve = g.recorder(found, stop=runs)
        g.put(me, solve=solve.fn)
        kw = {"verbosity": 0}
        xs = cov = e = None
        if est:
            xs = [g.dm("est_%d" % i, nx, inf=False) for i in range(runs)]
            cov = [g.dm("cov_%d" % i, nx * nx, inf=False) for i in range(runs)]
            e = g.recorder([(xs[i], cov[i]) for i in range(runs)])
            kw["estimator"] = g.put(g.new(EST), estimate=e.fn)
        if cost:
            kw["include_cost_in_state_vector"] = True
        sent = [g.dm("sent_%d" % i, nx + 1, inf=False) for i in range(runs)] if other else None
        f = None
        if other:
            f = g.recorder(sent)
            kw["state_rearrangement_function"] = f.fn
        pv, where = None, []
        if par:
            pv = g.dm("pv", 3, inf=False)
            kw["p"] = g.copy(pv)
            if par in ("mean", "both"):
                kw.update(mean_as_parameter=True, mean_p_indices=g.list([(0, 2), (nx - 1, 0)]))
                where += [("x", 0, 2), ("x", nx - 1, 0)]
            if par in ("cov", "both"):
                kw.update(covariance_as_parameter=True, cov_p_indices=g.list([(0, 1)]))
                where += [("P", 0, 1)]
        guess = g.dm("guess", 2, inf=False)
        kw["initial_guess"] = guess
        return Call(None).also(k=k, pl=pl, rec=rec, n=n, runs=runs, me=me, cls=g.cls(MPC), kw=kw, solve=solve, us=us, nu=nu, dc=dc, xs=xs, cov=cov, e=e, cost=cost, sent=sent, f=f, pv=pv,
                               where=where, guess=guess, nx=nx)

    def body(R, a):
        o = made(R, a.pl)
        c = R.fn(a.cls, o, a.me, **a.kw)
        if a.n == 0:
            stopped = R.refused(c, "run", a.n)
        else:
            R.call(c, "run", a.n)
            stopped = False
        return o, c, stopped

    def spec(S, a):
        def post(S, a, r):
            o, c = S.item(r, 0), S.item(r, 1)
            out = [("solves", len(a.solve.calls) == a.runs + (1 if a.n == 0 else 0)), ("goes on until stopped", S.eq(S.item(r, 2), a.n == 0))]
            if not out[0][1]:
                return out
            inputs = []
            for i in range(a.runs):
                def inp(j, t, i=i):
                    tau = 0.0 if j == 0 else a.pl.pts[j - 1]
                    if a.dc == 1:
                        return a.us[i][0][0]
                    return interpolation(S, S.nodes(a.dc), S.cat(*a.us[i][0]), a.nu, S.num(tau))
                inputs.append(inp)
            seen = follows(S, a.k, a.pl, a.rec, inputs, o.dataset, out)
            if seen is None:
                return out
            for i in range(a.runs):
                args, kw = a.solve.calls[i]
                t, m, u = seen[i]
                lab = "iteration %d: " % i
                x = S.sl(m, 0, a.nx) if a.xs is None else a.xs[i]
                P = a.cov[i] if a.cov is not None else S.full(0.0, a.nx)
                if a.e is not None:
                    out.append((lab + "estimates", len(a.e.calls) > i))
                    if len(a.e.calls) > i:
                        ea = a.e.calls[i][0]
                        out += [(lab + "estimated at", S.close(ea[0], t)), (lab + "estimated from", S.same(ea[1], m)), (lab + "estimated with", S.same(ea[2], u))]
                if a.cost:
                    x = S.cat(x, S.mat(0.0))
                if a.f is not None:
                    out.append((lab + "rearranged", len(a.f.calls) > i and S.same(a.f.calls[i][0][0], x)))
                out.append((lab + "state", S.same(kw["x_0"], x if a.sent is None else a.sent[i])))
                out.append((lab + "last control", S.same(kw["last_u"], u)))
                if a.pv is None:
                    out.append((lab + "no parameters", kw.get("p") is None))
                else:
                    want = [S.elem(a.pv, q) for q in range(3)]
                    for v, q, at in a.where:
                        want[at] = S.elem(x if v == "x" else P, q)
                    out.append((lab + "parameters", S.same(kw["p"], S.cat(*want))))
                if i == 0:
                    out.append((lab + "guess", S.same(kw["initial_guess"], a.guess)))
            return out
        return Expect(result=ANY, post=post)


@contract("C17.fixed_control", "C17", MPC + ".run_fixed_control", budget=100)
class _:
    """The given control is applied that number of times; with an estimator, it sees every measurement."""
    def inputs(g):
        rec = g.integrators()
        sizes, case = g.pick("case", [((1, 0, 1), (1, None, False)), ((2, 1, 2), (2, 1, True))])
        k = modelled(g, *sizes)
        pl = plant(g, k, 0, case)
        o = g.new(OCP, modelled(g, *sizes).m, t_f=4.0)
        me = g.new(D, o, finite_elements=2, degree=2, discretization_scheme="collocation")
        n = g.pick("n", [0, 1, 3])
        e = g.recorder([(g.dm("est", k.nx, inf=False), g.dm("cov", k.nx, inf=False))])
        est = g.put(g.new(EST), estimate=e.fn)
        u = g.dm("u", k.nu, inf=False)
        form = g.pick("form", ["dm", "list"])
        given = u if form == "dm" else g.list([g.S.at(u, i) for i in range(k.nu)])
        return Call(None).also(k=k, pl=pl, rec=rec, me=me, cls=g.cls(MPC), n=n, e=e, est=est, u=u, given=given, sees=g.flag("with estimator"))

    def body(R, a):
        o = made(R, a.pl)
        c = R.fn(a.cls, o, a.me, estimator=a.est, verbosity=0)
        R.call(c, "run_fixed_control_with_estimator" if a.sees else "run_fixed_control", a.given, a.n)
        return o, c

    def spec(S, a):
        def post(S, a, r):
            out = []
            seen = follows(S, a.k, a.pl, a.rec, [lambda j, t: a.u] * a.n, S.item(r, 0).dataset, out)
            if seen is None or not a.sees:
                return out
            out.append(("estimates", len(a.e.calls) == a.n))
            if len(a.e.calls) == a.n:
                for i in range(a.n):
                    ea = a.e.calls[i][0]
                    out += [("estimate %d at" % i, S.close(ea[0], seen[i][0])), ("estimate %d from" % i, S.same(ea[1], seen[i][1])), ("estimate %d with" % i, S.same(ea[2], seen[i][2]))]
            return out
        return Expect(result=ANY, post=post)
