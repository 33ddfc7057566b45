"""C19: the Kalman filters."""
from pydv.contract import ANY, Call, Expect, NS, contract
from contracts.c17_loop import modelled

E_ = "yaocptool.estimation."
UKF = E_ + "unscented_kalman_filter:UnscentedKalmanFilter"
EKF = E_ + "extended_kalman_filter:ExtendedKalmanFilter"
PCE = E_ + "pce_kalman_filter:PCEKalmanFilter"


def filtered(g, nx, ny, nu, np_, nm, feed=False, most=9, time=True):
    """A model, what a filter of it is given, and the measurements and controls of one or two estimates (proofs: of one beyond `most`
    variables, executions: of either)."""
    times = g.pick("estimates", [1, 2] if nx + ny <= most or hasattr(g, "rng") else [1])
    k = modelled(g, nx, ny, nu, np_, time)
    t, ts = g.real("t"), g.real("t_s")
    g.assume(g.S.gt(ts, 0.0))
    kw = dict(x_mean=g.dm("x_mean", nx, inf=False), p_k=g.covariance("p_k", nx), r_v=g.covariance("r_v", nx), r_n=g.covariance("r_n", nm), c_matrix=g.matrix("C", nm, nx + ny), t=t, t_s=ts)
    h = None
    if feed == "h":
        del kw["c_matrix"]
        h = g.fexpr("h", nm, [k.x, k.y, k.u])
        kw["h_function"] = g.fun("h", [k.x, k.y, k.u], [h])
    elif feed:
        kw["d_matrix"] = g.matrix("D", nm, nu)
    if ny:
        kw["y_guess"] = g.dm("y_guess", ny, inf=False)
    if np_:
        kw["p"] = g.dm("pv", np_, inf=False)
    ys = [g.dm("meas_%d" % i, nm, inf=False) for i in range(times)]
    us = [g.dm("u_%d" % i, nu, inf=False) for i in range(times)]
    tk = [g.real("t_%d" % i) for i in range(times)]
    return NS(dict(vars(k), kw=kw, ys=ys, us=us, tk=tk, np_=np_, nm=nm, na=nx + ny, feed=feed, h=h, times=times))


def simulated(S, k, st, e, t, x, out, lab, plugin=None):
    """Obligations: the step integrates the model from x over one sampling time with the inputs of estimate e."""
    none = S.empty()
    par = [k.kw["p"]] if k.np_ else []
    par += [k.us[e]] if k.nu else []
    out += [(lab + "from", S.close(st.t0, t)), (lab + "to", S.close(st.tf, S.add(t, k.kw["t_s"]))), (lab + "start", S.near(st.args["x0"], x, S.size(x))),
            (lab + "inputs", S.same(st.args.get("p", none), S.cat(*par) if par else none)),
            (lab + "equations", S.And(S.same(st.dae["x"], k.x), S.same(st.dae["ode"], k.f), S.same(st.dae.get("z", none), k.y), S.same(st.dae.get("alg", none), k.a)))]
    if k.ny:
        out.append((lab + "guess", S.same(st.args["z0"], k.kw["y_guess"])))


def whole(S, k, st):
    return S.cat(st.xf, st.zf) if k.ny else st.xf


def measure(S, k, e, x):
    if k.h is not None:
        return S.apply([k.x, k.y, k.u], k.h, [S.sl(x, 0, k.nx), S.sl(x, k.nx, k.na), k.us[e]])
    m = S.mtimes(k.kw["c_matrix"], x)
    return S.add(m, S.mtimes(k.kw["d_matrix"], k.us[e])) if k.feed else m


def total(S, ms):
    out = None
    for m in ms:
        out = m if out is None else S.add(out, m)
    return out


def outer(S, v, w):
    return S.mtimes(v, S.T(w))


def lifted(S, k, m):
    """A matrix of the states, with zeros for the algebraic variables."""
    if not k.ny:
        return m
    n = k.nx
    rows = [S.T(S.cat(S.T(S.block(m, i, i + 1, 0, n)), S.full(0.0, k.ny))) for i in range(n)]
    rows += [S.T(S.full(0.0, n + k.ny))] * k.ny
    return S.T(S.hcat(*[S.T(r) for r in rows]))


def recorded(S, k, o, rows, out):
    ds = o.dataset
    out.append(("entries", S.keys(ds.data) == set(rows)))
    for q, want in rows.items():
        d = S.get(ds.data, q)
        n = {"x": k.nx, "y": k.ny, "meas": k.nm, "P": k.nx ** 2, "P_y": k.ny ** 2}[q]
        out += [(q + " size", S.eq(d.size, n)), (q + " times", S.same(d.time, S.hcat(*[S.mat(t) for t, _ in want])))]
        if n:
            out.append((q + " values", S.near(d.values, S.hcat(*[v for _, v in want]), S.size(*[v for _, v in want]))))


def estimates(R, a):
    o = R.fn(a.cls, a.k.m, **a.k.kw)
    return o, [R.call(o, "estimate", a.k.tk[e], a.k.ys[e], a.k.us[e]) for e in range(a.k.times)]


@contract("C19.unscented", "C19", UKF + ".estimate", budget=200, runs=120)
class _:
    """Sigma points of the last estimate are carried through the model for one sampling time; their weighted mean and covariance are
    corrected by the measurement."""
    def inputs(g):
        rec = g.integrators(smooth=True)
        k = filtered(g, *g.pick("case", [(1, 0, 1, 0, 1, False), (2, 0, 1, 1, 1, True), (1, 1, 2, 0, 2, True), (2, 1, 0, 0, 1, False), (2, 0, 1, 0, 2, False), (1, 2, 1, 1, 1, False), (1, 1, 1, 0, 2, "h"), (2, 0, 1, 0, 1, "h")]), most=2)
        return Call(None).also(k=k, rec=rec, cls=g.cls(UKF))

    body = estimates

    def spec(S, a):
        def post(S, a, r):
            k, o, r = a.k, S.item(r, 0), S.item(r, 1)
            n = 2 * k.nx + 1
            out = [("simulations", len(a.rec.steps) == n * k.times)]
            if not out[0][1]:
                return out
            lam = 1e-3 ** 2 * k.nx
            wm = [lam / (k.nx + lam)] + [1 / (2 * (k.nx + lam))] * (n - 1)
            wc = [lam / (k.nx + lam) + (1 - 1e-3 ** 2 + 2)] + wm[1:]
            x, P, t = k.kw["x_mean"], k.kw["p_k"], k.kw["t"]
            rows = {q: [] for q in ("x", "y", "meas", "P", "P_y")}
            for e in range(k.times):
                L = S.T(S.chol(S.mul(k.nx + lam, P)))
                pts = [x] + [S.add(x, S.col(L, i)) for i in range(k.nx)] + [S.sub(x, S.col(L, i)) for i in range(k.nx)]
                st = a.rec.steps[e * n:(e + 1) * n]
                for i in range(n):
                    simulated(S, k, st[i], e, t, pts[i], out, "estimate %d, point %d: " % (e, i))
                X = [whole(S, k, q) for q in st]
                Z = [measure(S, k, e, q) for q in X]
                mx, mz = total(S, [S.mul(w, q) for w, q in zip(wm, X)]), total(S, [S.mul(w, q) for w, q in zip(wm, Z)])
                dx, dz = [S.sub(q, mx) for q in X], [S.sub(q, mz) for q in Z]
                Pxx = S.add(total(S, [S.mul(w, outer(S, d, d)) for w, d in zip(wc, dx)]), lifted(S, k, k.kw["r_v"]))
                Pzz = S.add(total(S, [S.mul(w, outer(S, d, d)) for w, d in zip(wc, dz)]), k.kw["r_n"])
                Pxz = total(S, [S.mul(w, outer(S, d, f)) for w, d, f in zip(wc, dx, dz)])
                K = S.T(S.solve(S.T(Pzz), S.T(Pxz)))
                new = S.add(mx, S.mtimes(K, S.sub(k.ys[e], mz)))
                cov = S.sub(Pxx, S.mtimes(K, S.mtimes(Pzz, S.T(K))))
                x, P, t = S.sl(new, 0, k.nx), S.block(cov, 0, k.nx, 0, k.nx), S.add(t, k.kw["t_s"])
                got = S.item(r, e)
                out += [("estimate %d: state" % e, S.near(S.item(got, 0), x, S.size(mx, new))), ("estimate %d: covariance" % e, S.near(S.item(got, 1), P, S.size(Pxx)))]
                for q, v in (("x", x), ("y", S.sl(new, k.nx, k.na)), ("meas", measure(S, k, e, new)), ("P", S.vec(P)), ("P_y", S.vec(S.block(cov, k.nx, k.na, k.nx, k.na)))):
                    rows[q].append((k.tk[e], v))
                # the second one starts from what the first one returned (the numbers of the code itself)
                x, P = S.item(got, 0), S.item(got, 1)
            recorded(S, k, o, rows, out)
            return out
        return Expect(result=ANY, post=post)


@contract("C19.polynomial_chaos", "C19", PCE + ".estimate", budget=200, runs=120)
class _:
    """Samples of the last estimate are carried through the model; mean and covariance of the polynomials fitted to them are corrected by
    the measurement."""
    def inputs(g):
        rec = g.integrators(smooth=True)
        sizes, order, more = g.pick("case", [((1, 0, 1, 0, 1, False), 2, 0), ((2, 0, 1, 1, 1, True), 1, 1), ((1, 1, 1, 0, 2, False), 1, 0), ((2, 1, 0, 0, 2, False), 1, 0), ((1, 0, 1, 0, 1, False), 3, 2), ((1, 1, 1, 0, 1, "h"), 2, 0)])
        k = filtered(g, *sizes)
        pol = {(1, 1): 2, (1, 2): 3, (1, 3): 4, (2, 1): 3}[k.nx, order]
        ns = pol + more
        ls, phi = g.matrix("ls", pol, ns), g.dm("phi", pol, inf=False)
        fit = g.recorder([(ls, phi, None)])
        drawn = [g.matrix("samples_%d" % i, k.nx, ns) for i in range(2)]
        draw = g.recorder(drawn)
        M = "yaocptool.estimation.pce_kalman_filter"
        g.replace(M, "get_ls_factor", "yaocptool.stochastic.pce", fit)
        g.replace(M, "sample_parameter_normal_distribution_with_sobol", "yaocptool.stochastic", draw)
        k.kw["pc_order"] = order
        if more:
            k.kw["n_samples"] = ns
        return Call(None).also(k=k, rec=rec, cls=g.cls(PCE), pol=pol, ns=ns, ls=ls, phi=phi, fit=fit, drawn=drawn, draw=draw, order=order)

    body = estimates

    def spec(S, a):
        def post(S, a, r):
            k, o, r = a.k, S.item(r, 0), S.item(r, 1)
            n = a.ns
            out = [("simulations", len(a.rec.steps) == n * k.times), ("fits", len(a.fit.calls) == 1), ("draws", len(a.draw.calls) == k.times)]
            if not all(c for _, c in out):
                return out
            out.append(("fit of", [a.fit.calls[0][0][i] for i in range(3)] == [k.nx, n, a.order]))
            x, P, t = k.kw["x_mean"], k.kw["p_k"], k.kw["t"]
            rows = {"x": [], "P": []}
            for e in range(k.times):
                args = a.draw.calls[e][0]
                out += [("estimate %d: drawn with mean" % e, S.near(args[0], x, S.size(x))), ("estimate %d: drawn with covariance" % e, S.near(args[1], P, S.size(P))), ("estimate %d: drawn" % e, args[2] == n)]
                st = a.rec.steps[e * n:(e + 1) * n]
                for i in range(n):
                    simulated(S, k, st[i], e, t, S.col(a.drawn[e], i), out, "estimate %d, sample %d: " % (e, i))
                X = [whole(S, k, q) for q in st]
                Z = [measure(S, k, e, q) for q in X]
                ax = [S.mtimes(a.ls, S.cat(*[S.elem(q, i) for q in X])) for i in range(k.nx)]
                az = [S.mtimes(a.ls, S.cat(*[S.elem(q, i) for q in Z])) for i in range(k.nm)]
                mx, mz = S.cat(*[S.elem(c, 0) for c in ax]), S.cat(*[S.elem(c, 0) for c in az])

                def cov(v, w):
                    cols = []
                    for d in w:
                        cols.append(S.cat(*[total(S, [S.mul(S.mul(S.at(c, q), S.at(d, q)), S.at(a.phi, q)) for q in range(1, a.pol)]) for c in v]))
                    return S.hcat(*cols)
                Pxx, Pzz, Pxz = S.add(cov(ax, ax), k.kw["r_v"]), S.add(cov(az, az), k.kw["r_n"]), cov(ax, az)
                if not S.regular(Pzz):
                    return out
                K = S.T(S.solve(S.T(Pzz), S.T(Pxz)))
                x = S.add(mx, S.mtimes(K, S.sub(k.ys[e], mz)))
                P = S.sub(Pxx, S.mtimes(K, S.mtimes(Pzz, S.T(K))))
                t = S.add(t, k.kw["t_s"])
                got = S.item(r, e)
                out += [("estimate %d: state" % e, S.near(S.item(got, 0), x, S.size(mx, mz, x))), ("estimate %d: covariance" % e, S.near(S.item(got, 1), P, S.size(Pxx)))]
                rows["x"].append((k.tk[e], x))
                rows["P"].append((k.tk[e], S.vec(P)))
                x, P = S.item(got, 0), S.item(got, 1)
            recorded(S, k, o, rows, out)
            return out
        return Expect(result=ANY, post=post)


@contract("C19.extended", "C19", EKF + ".estimate", budget=200, runs=120)
class _:
    """The model is simulated for one sampling time, the covariance carried through its linearization, and both corrected by the measurement."""
    def inputs(g):
        rec = g.integrators(smooth=True)
        k = filtered(g, *g.pick("case", [(1, 0, 1, 0, 1, False), (2, 0, 1, 1, 1, True), (1, 1, 2, 0, 2, True), (2, 1, 0, 0, 1, False), (1, 1, 1, 1, 1, False), (1, 1, 1, 0, 2, "h"), (2, 0, 1, 1, 1, "h")]), most=1, time=False)
        if not k.ny:
            k.kw["y_guess"] = g.S.empty()
        phis = [g.matrix("phi_%d" % i, k.na, k.na) for i in range(k.times)]
        trans = g.recorder(phis)
        g.replace("yaocptool.estimation.extended_kalman_filter", "expm", ("yaocptool", "yaocptool.util", "yaocptool.util.util"), trans)
        return Call(None).also(k=k, rec=rec, cls=g.cls(EKF), phis=phis, trans=trans)

    body = estimates

    def spec(S, a):
        def post(S, a, r):
            k, o, r = a.k, S.item(r, 0), S.item(r, 1)
            out = [("simulations", len(a.rec.steps) == k.times), ("exponentials", len(a.trans.calls) == k.times)]
            if not (out[0][1] and out[1][1]):
                return out
            x, t = k.kw["x_mean"], k.kw["t"]
            unit = lambda i: S.cat(*[S.mat(1.0 if j == i else 0.0) for j in range(k.na)])
            eye = S.hcat(*[unit(i) for i in range(k.na)])
            P = None
            rows = {q: [] for q in ("x", "y", "meas", "P", "P_y")}
            for e in range(k.times):
                st = a.rec.steps[e:e + 1]
                lab = "estimate %d: " % e
                simulated(S, k, st[0], e, t, x, out, lab)
                new = whole(S, k, st[0])
                pairs = [(k.x, st[0].xf), (k.y, st[0].zf), (k.u, k.us[e]), (k.p, k.kw.get("p"))]
                pairs = [(s, v) for s, v in pairs if S.n(s) != 0]
                at = lambda d: S.subst(d, S.cat(*[s for s, _ in pairs]), S.cat(*[v for _, v in pairs]))
                jac = lambda f, s: S.hcat(*[at(S.jac(f, S.elem(s, j))) for j in range(S.n(s))])
                A = jac(k.f, k.x)
                G = k.kw["c_matrix"] if k.h is None else S.hcat(*[jac(k.h, s) for s in (k.x, k.y) if S.n(s) != 0])
                if k.ny:
                    B, C, D = jac(k.f, k.y), jac(k.a, k.x), jac(k.a, k.y)
                    if not S.regular(D):
                        return out
                    M = S.mul(-1.0, S.solve(D, C))
                    F = S.T(S.hcat(S.T(S.hcat(A, B)), S.T(S.hcat(S.mtimes(M, A), S.mtimes(M, B)))))
                    Gam = S.T(S.hcat(eye_of(S, k.nx), S.T(M)))
                else:
                    F, Gam = A, eye_of(S, k.nx)
                F = S.mul(F, k.kw["t_s"])
                out.append((lab + "linearization", S.near(a.trans.calls[e][0][0], F, S.size(F))))
                Phi = a.phis[e]
                if P is None:
                    P = blocked(S, k, k.kw["p_k"])
                Pp = S.add(S.mtimes(Phi, S.mtimes(P, S.T(Phi))), S.mtimes(Gam, S.mtimes(k.kw["r_v"], S.T(Gam))))
                Szz = S.add(S.mtimes(G, S.mtimes(Pp, S.T(G))), k.kw["r_n"])
                if not S.regular(Szz):
                    return out
                K = S.mtimes(S.mtimes(Pp, S.T(G)), S.inv(Szz))
                x = S.add(new, S.mtimes(K, S.sub(k.ys[e], measure(S, k, e, new))))
                P = S.mtimes(S.sub(eye, S.mtimes(K, G)), Pp)
                t = S.add(t, k.kw["t_s"])
                got = S.item(r, e)
                Px = S.block(P, 0, k.nx, 0, k.nx)
                out += [(lab + "state", S.near(S.item(got, 0), S.sl(x, 0, k.nx), S.size(new, x))), (lab + "covariance", S.near(S.item(got, 1), Px, S.size(Pp)))]
                for q, v in (("x", S.sl(x, 0, k.nx)), ("y", S.sl(x, k.nx, k.na)), ("meas", measure(S, k, e, x)), ("P", S.vec(Px)), ("P_y", S.vec(S.block(P, k.nx, k.na, k.nx, k.na)))):
                    rows[q].append((k.tk[e], v))
                x = S.item(got, 0)
            recorded(S, k, o, rows, out)
            return out
        return Expect(result=ANY, post=post)


def eye_of(S, n):
    return S.hcat(*[S.cat(*[S.mat(1.0 if j == i else 0.0) for j in range(n)]) for i in range(n)])


def blocked(S, k, m):
    """A matrix of the states, with the identity for the algebraic variables."""
    if not k.ny:
        return m
    low = S.hcat(*[S.cat(S.full(0.0, k.nx), S.col(eye_of(S, k.ny), i)) for i in range(k.ny)])
    return S.hcat(S.T(S.hcat(S.T(m), S.T(S.hcat(*[S.full(0.0, k.ny)] * k.nx)))), low)


@contract("C19.ideal", "C19", E_ + "ideal_estimator:IdealEstimator.estimate", runs=20)
class _:
    """The ideal estimator takes the first measurements for the state, without any uncertainty."""
    def inputs(g):
        n, more = g.pick("case", [(1, 0), (2, 0), (1, 2), (2, 1)])
        return Call(None).also(n=n, y=g.dm("y", n + more, inf=False), u=g.dm("u", 1, inf=False), t=g.real("t"), cls=g.cls(E_ + "ideal_estimator:IdealEstimator"))

    def body(R, a):
        return R.call(R.fn(a.cls, 0.5, 0.0, a.n), "estimate", a.t, a.y, a.u)

    def spec(S, a):
        def post(S, a, r):
            cov = S.vec(S.item(r, 1))
            return [("state", S.same(S.item(r, 0), S.sl(a.y, 0, a.n))), ("certain", S.same(cov, S.full(0.0, S.n(cov))))]
        return Expect(result=ANY, post=post)
