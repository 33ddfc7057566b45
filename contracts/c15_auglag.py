"""C15: the augmented Lagrangian method moves the chosen equations into the cost, and updates their multipliers with their violation."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract
from contracts.c06_ocp import OCP, ocp

AL = "yaocptool.methods.augmented_lagrangian:AugmentedLagrangian"
D = "yaocptool.methods.classic.directmethod:DirectMethod"


def indices(g, name, n, count):
    """`count` different positions of a vector with n entries."""
    ix = [g.index("%s%d" % (name, q), n) for q in range(count)]
    for i in range(count):
        for j in range(i):
            g.assume(g.S.ne(ix[i], ix[j]))
    return ix


@contract("C15.relax_algebraic", "C15", AL + ".__init__", budget=150)
class _:
    """The relaxed equations leave the model and enter the cost; their variables become controls with the same bounds and guess."""
    def inputs(g):
        k = ocp(g, small=True, guess=False, least={"y": 2, "alg": 2})
        m = k.mo
        c, guess = g.pick("case", [(1, True), (2, False)])
        ix = indices(g, "eq", g.S.n(m.alg), c)
        S = g.S
        for i in ix:  # no equation stands twice
            g.assume(S.forall(S.n(m.alg), lambda j: S.Or(S.eq(i, j), S.ne(S.at(m.alg, j), S.at(m.alg, i)))))
        jx = indices(g, "var", g.S.n(m.y), c)
        if guess:
            g.put(k.o, y_guess=g.dm("y_guess", g.S.n(m.y)), u_guess=g.dm("u_guess", g.S.n(m.u)))
        old = NS({q: getattr(m, q) for q in ("alg", "y", "u", "p", "ode")})
        return Call(None).also(o=k.o, mo=m, ix=ix, jx=jx, c=c, cls=g.cls(AL), d=g.cls(D), opts=g.dict({"debug_skip_initialize": True}),
                               li=g.list(list(ix)), lj=g.list(list(jx)), old=old)

    def body(R, a):
        return R.fn(a.cls, a.o, a.d, options=a.opts, relax_algebraic_index=a.li, relax_algebraic_var_index=a.lj)

    def spec(S, a):
        o, m, old = a.o, a.mo, a.old
        L, ymin, ymax, umin, umax = o.L, o.y_min, o.y_max, o.u_min, o.u_max
        yg, ug = o.y_guess, o.u_guess

        def post(S, a, r):
            gs = [S.at(old.alg, i) for i in a.ix]
            out = [("one multiplier and one penalty each", S.And(S.eq(S.n(r.nu_sym), a.c), S.eq(S.n(r.mu_sym), a.c), S.eq(r.n_relax, a.c), S.eq(S.n(r.mu), a.c)))]
            cost = L
            for q in range(a.c):
                cost = S.add(cost, S.add(S.mul(S.at(r.nu_sym, q), gs[q]), S.mul(S.mul(0.5, S.at(r.mu_sym, q)), S.mul(gs[q], gs[q]))))
            out += [("cost", S.eq(S.at(o.L, 0), S.at(cost, 0) if not isinstance(cost, (int, float)) else cost))]
            keep = lambda v, ix: S.keep(v, lambda i: S.And(*[S.ne(i, j) for j in ix]))
            out += [("equations left", S.same(m.alg, keep(old.alg, a.ix))), ("variables left", S.same(m.y, keep(old.y, a.jx))),
                    ("controls", S.same(m.u, S.cat(old.u, *[S.elem(old.y, j) for j in a.jx]))), ("relaxed", S.same(r.relaxed_alg, S.cat(*gs))),
                    ("penalties are parameters", S.same(m.p, S.cat(old.p, r.mu_sym))), ("ode", S.same(m.ode, old.ode))]
            for q, (lo, w) in (("min", (umin, ymin)), ("max", (umax, ymax))):
                out += [("bounds of the controls " + q, S.same(getattr(o, "u_" + q), S.cat(lo, *[S.at(w, j) for j in a.jx]))),
                        ("bounds left " + q, S.same(getattr(o, "y_" + q), keep(w, a.jx)))]
            if yg is not None:
                out += [("guess", S.same(o.u_guess, S.cat(ug, *[S.at(yg, j) for j in a.jx])))]
            return out
        return Expect(result=ANY, post=post, frees=["o.*", "mo.*", "o.model.*"])


def plant(g, n_x, n_y=0, n_eq=0, x0=True):
    """A problem with n_x states, n_y algebraic variables and n_eq time equalities, in controls and parameters of arbitrary sizes."""
    SMC = "yaocptool.modelling.system_model:SystemModel"
    m = g.new(SMC, name="model")
    x, y = g.sym("x", n_x, "SX"), g.sym("y", n_y, "SX")
    u, p = g.sym("u", g.size("n_u", lo=1, hi=2), "SX"), g.sym("p", g.size("n_p", hi=2), "SX")
    g.call(m, "include_state", x)
    if n_y:
        g.call(m, "include_algebraic", y)
    g.call(m, "include_control", u)
    g.call(m, "include_parameter", p)
    over = [x, y, u, p, m.t]
    g.call(m, "include_equations", ode=g.expr("f", n_x, over=over, kind="SX"))
    if n_y:
        g.call(m, "include_equations", alg=g.expr("alg", n_y, over=over, kind="SX"))
    o = g.new(OCP, m, x_0=g.dm("x_0", n_x), t_0=0.0, t_f=1.0)
    at = {"L": g.expr("L", 1, over=over, kind="SX"), "u_min": g.dm("u_min", g.S.n(u)), "u_max": g.dm("u_max", g.S.n(u))}
    if n_eq:
        at["g_eq"] = g.expr("g_eq", n_eq, over=over, kind="SX")
        at["time_g_eq"] = g.list([["default", "start", "end"][q % 3] for q in range(n_eq)])
    g.put(o, **at)
    return NS(dict(o=o, mo=o.model, x=x, y=y, u=u, p=p, over=over))


def penalized(S, L, nu, mu, gs):
    for q, e in enumerate(gs):
        L = S.add(L, S.add(S.mul(S.at(nu, q), e), S.mul(S.mul(0.5, S.at(mu, q)), S.mul(e, e))))
    return L


@contract("C15.relax_equalities", "C15", AL + ".__init__", budget=150)
class _:
    """The relaxed time equalities leave the problem, with the times they were asked at, and enter the cost."""
    def inputs(g):
        n, ix = g.pick("case", [(1, [0]), (2, [1]), (2, [1, 0]), (3, [0, 2]), (3, [2, 0]), (3, [0, 1, 2])])
        k = plant(g, 1, n_eq=n)
        return Call(None).also(o=k.o, mo=k.mo, n=n, ix=ix, cls=g.cls(AL), d=g.cls(D), opts=g.dict({"debug_skip_initialize": True}), li=g.list(list(ix)), geq=k.o.g_eq,
                               L0=k.o.L, p0=k.mo.p)

    def body(R, a):
        return R.fn(a.cls, a.o, a.d, options=a.opts, relax_time_equality_index=a.li)

    def spec(S, a):
        def post(S, a, r):
            gs = [S.at(a.geq, i) for i in a.ix]
            rest = [i for i in range(a.n) if i not in a.ix]
            times = list(S.items(a.o.time_g_eq))
            return [("cost", S.eq(S.at(a.o.L, 0), penalized(S, S.at(a.L0, 0), r.nu_sym, r.mu_sym, gs))), ("relaxed", S.same(r.relaxed_eq, S.cat(*gs))),
                    ("left", S.same(a.o.g_eq, S.cat(*[S.at(a.geq, i) for i in rest]) if rest else S.empty())),
                    ("their times", times == [["default", "start", "end"][i % 3] for i in rest]), ("number", S.eq(r.n_relax, len(a.ix))),
                    ("penalties are parameters", S.same(a.mo.p, S.cat(a.p0, r.mu_sym)))]
        return Expect(result=ANY, post=post, frees=["o.*", "mo.*", "o.model.*"])


@contract("C15.relax_states", "C15", AL + ".__init__", budget=150)
class _:
    """A bounded state gets a control that carries its bounds and is tied to it in the cost; the state itself is free; unbounded states stay."""
    def inputs(g):
        k = plant(g, 2, n_eq=g.pick("n_eq", [0, 1]))
        S = g.S

        def fin(q):
            v = g.real(q)
            g.assume(S.And(S.lt(v, S.inf), S.lt(-S.inf, v)))
            return v
        lo = g.pick("bounds", [(0, 0), (1, 0), (0, 1), (2, 2), (2, 1)])
        # bit i of lo / hi: state i has that bound
        v = {q: [fin("x_%s%d" % (q, i)) if b & (1 << i) else (-S.inf if q == "min" else S.inf) for i in range(2)] for q, b in (("min", lo[0]), ("max", lo[1]))}
        g.put(k.o, x_min=S.cat(*v["min"]), x_max=S.cat(*v["max"]))
        bounded_ = [i for i in range(2) if (lo[0] | lo[1]) & (1 << i)]
        eq = [0] if g.S.n(k.o.g_eq) == 1 else []
        return Call(None).also(o=k.o, mo=k.mo, cls=g.cls(AL), d=g.cls(D), opts=g.dict({"debug_skip_initialize": True}), v=v, bd=bounded_, geq=k.o.g_eq, eq=eq, li=g.list(eq),
                               L0=k.o.L, u0=k.mo.u, um=(k.o.u_min, k.o.u_max), p0=k.mo.p)

    def body(R, a):
        return R.fn(a.cls, a.o, a.d, options=a.opts, relax_state_bounds=True, relax_time_equality_index=a.li)

    def spec(S, a):
        def post(S, a, r):
            nu0 = S.n(a.u0)
            new = [S.at(a.mo.u, S.add(nu0, q)) for q in range(len(a.bd))]
            gs = [S.sub(w, S.at(a.mo.x, i)) for w, i in zip(new, a.bd)] + [S.at(a.geq, i) for i in a.eq]
            out = [("controls", S.And(S.eq(S.n(a.mo.u), S.add(nu0, len(a.bd))), S.same(S.sl(a.mo.u, 0, nu0), a.u0))), ("number", S.eq(r.n_relax, len(gs))),
                   ("relaxed, in the order of the multipliers", S.same(S.cat(r.relaxed_alg, r.relaxed_eq), S.cat(*gs) if gs else S.empty())),
                   ("cost", S.eq(S.at(a.o.L, 0), penalized(S, S.at(a.L0, 0), r.nu_sym, r.mu_sym, gs))),
                   ("penalties are parameters", S.same(a.mo.p, S.cat(a.p0, r.mu_sym)))]
            for q, was, free in (("min", a.um[0], -S.inf), ("max", a.um[1], S.inf)):
                out += [("bounds of the controls " + q, S.same(getattr(a.o, "u_" + q), S.cat(was, *[a.v[q][i] for i in a.bd]))),
                        ("states are free " + q, S.same(getattr(a.o, "x_" + q), S.full(free, 2)))]
            return out
        return Expect(result=ANY, post=post, frees=["o.*", "mo.*", "o.model.*"])


def method(g, n_y, N=None, degree=2, **opts):
    """A method with n_y relaxed algebraic equations, before its multipliers are written into the problem."""
    k = plant(g, 1, n_y=n_y)
    o = g.dict(dict({"debug_skip_parametrize": True, "degree": degree, "finite_elements": N if N is not None else 2}, **opts))
    al = g.new(AL, k.o, g.cls(D), options=o)
    return NS(dict(k.__dict__, al=al))


@contract("C15.update", "C15", AL + ".update_parameters", budget=150)
class _:
    """The new multipliers are those computed at the solution with the current ones, element by element; the error of an equation is its
    largest violation; the penalties follow the rule chosen."""
    def inputs(g):
        S = g.S
        n = g.pick("n_relax", [1, 2])
        d = g.pick("degree", [1, 2])
        rule = g.pick("rule", [None, "constant", "primal", "bounded-increase"])
        N = g.size("N", lo=1, hi=3)
        more = {} if rule is None else {"mu_update_rule": rule}
        k = method(g, n, N=N, degree=d, mu_max=g.real("mu_max", lo=0.1), beta=g.real("beta", lo=0.1), mu_0=g.real("mu_0", lo=0.1), **more)
        al = k.al
        W = S.mul(N, d)
        new, rel = g.matrix("new_nu", n, W), g.matrix("violation", n, W)
        rec = g.stub(al, "new_nu_func", result=(new, rel, g.matrix("none", 0, 0)))
        g.put(al, mu=g.dm("mu", n, inf=False), nu=g.dmdict("nu", N, n * d))
        last = None
        if g.flag("again"):
            last = g.dm("last", n, inf=False)
            g.put(al, last_violation_error=last)
        a = {"p": g.dm("pv", S.n(k.p), inf=False) if g.flag("p_given") else None, "theta": None,
             "raw_solution_dict": g.dict({"x": g.dm("sol", g.size("nsol", lo=1, hi=3), inf=False)})}
        return Call(al, **a).also(k=k, rec=rec, n=n, d=d, N=N, rule=rule or "bounded-increase", new=new, rel=rel, last=last, mu0=al.mu, nu0=al.nu,
                                  o=al.options)

    def spec(S, a):
        al, n, d, N = a.self, a.n, a.d, a.N
        W = S.mul(N, d)

        def post(S, a, r):
            if len(a.rec) != 1:
                return [("one evaluation", False)]
            x, p, th = a.rec[0][0]
            o = a.o
            out = [("at the solution", S.same(x, S.get(a.raw_solution_dict, "x"))), ("with the penalties", S.same(p, S.cat(a.p, a.mu0) if a.p is not None else a.mu0)),
                   ("with the multipliers", S.same(th, S.stack(N, lambda i: S.get(a.nu0, i))))]
            for i in range(n):
                e = S.at(r, i)
                out += [("error %d bounds the violations" % i, S.forall(W, lambda c: S.And(S.le(S.ent(a.rel, i, c), e), S.le(S.sub(0, e), S.ent(a.rel, i, c))))),
                        ("error %d is attained" % i, S.exists(W, lambda c: S.Or(S.eq(S.ent(a.rel, i, c), e), S.eq(S.sub(0, e), S.ent(a.rel, i, c)))))]
                m0, m1 = S.at(a.mu0, i), S.at(al.mu, i)
                grown = S.mul(m0, S.at(o.beta, 0))
                top = S.at(o.mu_max, 0)
                up = S.ite(S.le(top, grown), top, grown)
                want = m0
                if a.rule == "bounded-increase":
                    want = up
                elif a.rule == "primal" and a.last is not None:
                    want = S.ite(S.le(e, S.mul(0.5, S.at(a.last, i))), m0, up)
                out += [("penalty %d" % i, S.eq(m1, want))]
            out += [("number of penalties", S.eq(S.n(al.mu), n)), ("errors", S.eq(S.n(r), n)), ("last error", S.same(al.last_violation_error, r))]
            for q in range(n * d):
                out.append(("multiplier %d" % q, S.forall(N, lambda i, q=q: S.eq(S.at(S.get(al.nu_tilde, i), q), S.ent(a.new, q % n, S.add(S.mul(i, d), q // n))))))
            out += [("violations", S.forall(N, lambda i: S.And(*[S.eq(S.ent(S.get(al.alg_violation, i), q % n, q // n), S.ent(a.rel, q % n, S.add(S.mul(i, d), q // n)))
                                                               for q in range(n * d)])))]
            return out
        return Expect(result=ANY, post=post, frees=["self.*"])


@contract("C15.iterations", "C15", AL + ".call_solver", budget=150)
class _:
    """Every iteration solves with the current multipliers and penalties, starting from the last solution; it stops at the first
    iteration whose errors are all below the tolerance, and after the given number otherwise."""
    def inputs(g):
        S = g.S
        n, most = g.pick("n_relax", [1, 2]), g.pick("max_iter", [1, 2, 3])
        k = method(g, n, N=2, degree=1, max_iter=most, tol=g.real("tol", lo=0.001))
        al = k.al
        update = g.flag("update")
        g.put(al, no_update_after_solving=not update)
        sols = [g.dict({"x": g.dm("sol%d" % q, 1), "stats": g.dict({"success": True})}) for q in range(most)]
        res = [g.new("yaocptool.methods.base.optimizationresult:OptimizationResult") for _ in sols]
        for q, w in zip(res, sols):
            g.put(q, raw_solution_dict=w)
        rec, upd = [], []
        errs = [g.dm("err%d" % q, n, inf=False) for q in range(most)]
        mus = [g.dm("mu%d" % q, n, inf=False) for q in range(most + 1)]
        nus = [g.dict({e: g.dm("nu%d_%d" % (q, e), n, inf=False) for e in range(2)}) for q in range(most + 1)]
        g.put(al, mu=mus[0], nu=nus[0])

        def solve(*args, **kw):
            rec.append((list(args), dict(kw)))
            return res[min(len(rec), most) - 1]

        def update_(*args, **kw):
            upd.append((list(args), dict(kw)))
            q = min(len(upd), most)
            g.put(al, mu=mus[q], nu_tilde=nus[q])
            return errs[q - 1]
        g.stub(al.ocp_solver, "solve", result=solve)
        g.stub(al, "update_parameters", result=update_)
        a = {}
        gp, gt, form = g.pick("given", [(False, False, "none"), (True, False, "vector"), (False, True, "dict"), (True, True, "none")])
        if gp:
            a["p"] = g.dm("pv", S.n(k.p), inf=False)
        th = None
        if gt:
            th = {e: g.dm("th%d" % e, 1, inf=False) for e in range(2)}
            a["theta"] = g.dict(dict(th))
        if form == "vector":
            a["initial_guess"] = g.dm("guess", 1)
        elif form == "dict":
            a["initial_guess_dict"] = g.dict({"x": g.dm("guess", 1)})
        a["x_0"] = g.dm("x0v", 1)
        a["last_u"] = g.dm("lu", 1)
        return Call(al, **a).also(k=k, rec=rec, upd=upd, errs=errs, mus=mus, nus=nus, sols=sols, n=n, most=most, update=update, th=th, form=form, tol=al.options.tol)

    def spec(S, a):
        def post(S, a, r):
            it = len(a.rec)
            out = [("at least one", it >= 1), ("at most as many as allowed", it <= a.most)]
            if not 1 <= it <= a.most:
                return out
            small = lambda e: S.And(*[S.lt(S.at(e, i), a.tol) for i in range(a.n)])
            p, th = None, None
            for q in range(it):
                pos, kw = a.rec[q]
                args = dict(zip(("initial_guess", "p", "theta", "x_0", "last_u", "initial_guess_dict"), pos), **kw)
                j = q if a.update else 0
                p = S.cat(a.p, a.mus[j]) if a.p is not None else a.mus[j]
                lab = "solve %d: " % q
                out += [(lab + "parameters", S.same(args["p"], p)), (lab + "x_0", S.same(args["x_0"], a.x_0)), (lab + "last_u", S.same(args["last_u"], a.last_u))]
                for e in range(2):
                    nu = S.get(a.nus[j], e)
                    out.append((lab + "multipliers of element %d" % e, S.same(S.get(args["theta"], e), S.cat(a.th[e], nu) if a.th is not None else nu)))
                if q == 0:
                    for w in ("initial_guess", "initial_guess_dict"):
                        out.append((lab + w, S.is_same(args.get(w), getattr(a, w))))
                else:
                    out.append((lab + "starts from the last solution", S.is_same(args["initial_guess_dict"], a.sols[q - 1])))
                if a.update:
                    more = q < it - 1
                    out.append((lab + ("goes on" if more else "stops"), S.Not(small(a.errs[q])) if more else S.Or(it == a.most, small(a.errs[q]))))
            if not a.update:
                out.append(("as many as asked", it == a.most))
            out += [("updates", len(a.upd) == (it if a.update else 0)), ("the last solution", S.is_same(S.item(r, 0), a.sols[it - 1])),
                    ("its parameters", S.same(S.item(r, 1), p)), ("x_0", S.same(S.item(r, 3), a.x_0))]
            for pos, kw in a.upd:
                args = dict(zip(("p", "theta", "raw_solution_dict"), pos), **kw)
                out += [("update with p", S.is_same(args["p"], a.p)), ("update with theta", S.is_same(args["theta"], a.theta))]
            for q, (pos, kw) in enumerate(a.upd[:it]):
                args = dict(zip(("p", "theta", "raw_solution_dict"), pos), **kw)
                out.append(("update %d with its solution" % q, S.is_same(args["raw_solution_dict"], a.sols[q])))
            return out
        return Expect(result=ANY, post=post, frees=["self.*"])


@contract("C15.set_mu", "C15", AL + ".set_mu")
class _:
    def inputs(g):
        n = g.pick("n_relax", [1, 2, 3])
        k = method(g, n)
        return Call(k.al, g.dm("new_mu", g.size("size", lo=1, hi=4), inf=False)).also(n=n)

    def spec(S, a):
        v, n = a.mu, a.n
        size = S.n(v)
        return Expect(raises=[(ValueError, S.And(S.ne(size, n), S.ne(size, 1)))], frees=["self.mu"],
                      post=lambda S, a, r: [("penalties", S.And(S.eq(S.n(a.self.mu), n), *[S.eq(S.at(a.self.mu, i), S.at(v, S.ite(S.eq(size, 1), 0, i))) for i in range(n)]))])


@contract("C15.result", "C15", AL + ".create_optimization_result", budget=100)
class _:
    """The result has, at every point of every element, the multipliers the last problem was solved with and the violations of the
    relaxed equations there, each with its time, and the largest violations."""
    def inputs(g):
        S = g.S
        n, d, N = g.pick("n_relax", [1, 2]), g.pick("degree", [1, 2, 3]), g.pick("N", [1, 2])
        k = method(g, n, N=N, degree=d)
        al = k.al
        t_0, t_f = g.real("t_0"), g.real("t_f")
        g.put(al.problem, t_0=t_0, t_f=t_f)
        nu = {e: g.dm("nu%d" % e, n * d, inf=False) for e in range(N)}
        na = g.pick("n_alg", [0, 1, 2])
        alg = {e: g.matrix("alg%d" % e, na, d) for e in range(N)}
        eq = {e: g.matrix("eq%d" % e, 1, d) for e in range(N)}
        last = g.dm("last", n, inf=False)
        g.put(al, nu=g.dict(dict(nu)), alg_violation=g.dict(dict(alg)), eq_violation=g.dict(dict(eq)), last_violation_error=last)
        res = g.new("yaocptool.methods.base.optimizationresult:OptimizationResult")
        rec = g.stub(al.ocp_solver, "create_optimization_result", result=res)
        raw = g.dict({"x": g.dm("sol", 2)})
        return Call(al, raw, p=g.dm("pv", 2), theta=g.dict({e: g.dm("th%d" % e, 1) for e in range(N)}), x_0=g.dm("x0v", 1)).also(
            nu=nu, alg=alg, eq=eq, last=last, n=n, na=na, d=d, N=N, res=res, rec=rec, raw=raw, t_0=t_0, h=S.div(S.sub(t_f, t_0), N))

    def spec(S, a):
        def post(S, a, r):
            if len(a.rec) != 1:
                return [("one result", False)]
            pos, kw = a.rec[0]
            args = dict(zip(("raw_solution_dict", "p", "theta", "x_0"), pos), **kw)
            out = [("the result of the method", S.is_same(r, a.res)), ("of the solution", S.is_same(args["raw_solution_dict"], a.raw)), ("p", S.same(args["p"], a.p)),
                   ("theta", S.is_same(args["theta"], a.theta)), ("x_0", S.same(args["x_0"], a.x_0)), ("largest violations", S.same(S.get(r.statistics, "violation_error"), a.last))]
            for q, n, at in (("nu", a.n, lambda e, i, j: S.at(a.nu[e], j * a.n + i)), ("alg_violation", a.na, lambda e, i, j: S.ent(a.alg[e], i, j)),
                             ("eq_violation", 1, lambda e, i, j: S.ent(a.eq[e], i, j))):
                vals, times = S.get(S.get(r.other_data, q), "values"), S.get(S.get(r.other_data, q), "time")
                out += [(q + " elements", S.And(S.eq(S.n(vals), a.N), S.eq(S.n(times), a.N)))]
                for e in range(a.N):
                    v, t = S.item(vals, e), S.item(times, e)
                    out.append((q + " points", S.And(S.eq(S.n(v), a.d), S.eq(S.n(t), a.d))))
                    for j, c in enumerate(S.nodes(a.d)):
                        out += [(q + " size", S.eq(S.n(S.item(v, j)), n)), (q + " time", S.same(S.mat(S.item(t, j)), S.mat(S.add(a.t_0, S.mul(a.h, S.add(e, c))))))]
                        out += [(q + " value", S.eq(S.at(S.item(v, j), i), at(e, i, j))) for i in range(n)]
            return out
        return Expect(result=ANY, post=post, frees=["res.*", "self.ocp_solver.*"])


SOLVER = {"ipopt.print_level": 0, "print_time": False, "ipopt.linear_solver": "mumps", "ipopt.sb": "yes"}


class _Random:
    """A random problem with algebraic equations, time equalities and bounded states."""

    def __init__(self, r, eq=True, easy=False):
        import casadi as ca
        from yaocptool.modelling.ocp import OptimalControlProblem
        from yaocptool.modelling.system_model import SystemModel
        num = lambda: round(r.uniform(-1, 1), 2)
        self.nx, self.ny, self.nu = r.randint(1, 2), r.randint(1, 3), r.randint(1, 2)
        self.np, self.nt = (0, 0) if easy else (r.randint(0, 2), r.randint(0, 2))
        m = self.m = SystemModel(name="m%d" % r.randint(0, 99))
        s = {}
        for q, f, n in (("x", "create_state", self.nx), ("y", "create_algebraic_variable", self.ny), ("u", "create_control", self.nu), ("p", "create_parameter", self.np),
                        ("th", "create_theta", self.nt)):
            s[q] = ca.vertcat(*[getattr(m, f)("%s%d" % (q, j)) for j in range(n)]) if n else ca.SX(0, 1)
        lin = lambda v: sum([num() * v[j] for j in range(v.numel())], 0)
        both = ca.vertcat(s["x"], s["u"], s["p"], s["th"])
        self.ode = ca.vertcat(*[lin(both) + lin(s["y"]) * 0.3 - s["x"][i] for i in range(self.nx)])
        self.alg = ca.vertcat(*[s["y"][i] - lin(s["x"]) * 0.5 - lin(s["u"]) * 0.3 - num() * m.t - (0 if easy else lin(ca.vertcat(s["p"], s["th"])) + num() * s["x"][0] ** 2) for i in range(self.ny)])
        m.include_equations(ode=self.ode, alg=self.alg)
        o = self.o = OptimalControlProblem(m, x_0=ca.DM([num() for _ in range(self.nx)]), t_0=0.0, t_f=round(r.uniform(0.5, 2), 2))
        o.t_0 = r.choice([0.0, 0.3]) if not easy else 0.0
        o.L = ca.dot(s["x"], s["x"]) + 0.1 * ca.dot(s["u"], s["u"]) + 0.1 * ca.dot(s["y"], s["y"])
        self.geq = ca.SX(0, 1)
        if eq and r.random() < 0.6:
            self.geq = ca.vertcat(*[lin(both) + s["u"][j % self.nu] for j in range(r.randint(1, 2))])
            for j in range(self.geq.numel()):
                o.include_time_equality(self.geq[j])
        self.s, self.num = s, num


@bounded("C15.multipliers", "C15", AL + ".update_parameters", why="the violations are computed by composed casadi functions", runs=60)
def _multipliers(g):
    import casadi as ca
    import numpy as np
    from yaocptool.methods import AugmentedLagrangian, DirectMethod
    r = g.rng
    k = _Random(r)
    o, m, s = k.o, k.m, k.s
    d, dc, N = r.randint(1, 4), r.randint(1, 3), r.randint(1, 4)
    c = r.randint(0, k.ny)
    ix, jx = sorted(r.sample(range(k.ny), c)), sorted(r.sample(range(k.ny), c))
    if r.random() < 0.3:
        r.shuffle(ix)
        r.shuffle(jx)
    ne = k.geq.numel()
    ex = r.sample(range(ne), r.randint(0, ne)) if ne else []
    states = r.random() < 0.5
    bd = []
    if states:
        lo, hi = [-ca.inf] * k.nx, [ca.inf] * k.nx
        for i in range(k.nx):
            if r.random() < 0.6:
                (lo if r.random() < 0.5 else hi)[i] = -9.0 if lo[i] > 0 else 9.0
                bd.append(i)
        o.x_min, o.x_max = ca.DM([min(v, 8.0) for v in lo]), ca.DM(hi)
        bd = [i for i in range(k.nx) if float(o.x_min[i]) != -ca.inf or float(o.x_max[i]) != ca.inf]
    n = c + len(bd) + len(ex)
    if n == 0:
        raise Skip()
    y0, u0 = m.y, m.u
    opts = dict(degree=d, finite_elements=N, mu_update_rule="constant")
    so = dict(degree_control=dc, discretization_scheme="collocation")
    if r.random() < 0.5:
        so.update(degree=opts.pop("degree"), finite_elements=opts.pop("finite_elements"))
    improve = r.random() < 0.3
    if improve:
        opts["only_update_if_improve"] = True
    so0 = dict(so)
    al = AugmentedLagrangian(o, DirectMethod, solver_options=so, options=opts, relax_algebraic_index=ix, relax_algebraic_var_index=jx, relax_time_equality_index=ex,
                             relax_state_bounds=states)
    g._rec("case", dict(nx=k.nx, ny=k.ny, nu=k.nu, np=k.np, nt=k.nt, d=d, dc=dc, N=N, ix=ix, jx=jx, ex=ex, states=bd, improve=improve))
    if so != so0:
        raise Violation("the solver options given became %s" % so)
    if (al.options.degree, al.options.finite_elements, al.ocp_solver.degree, al.ocp_solver.finite_elements) != (d, N, d, N):
        raise Violation("degree and elements %s" % ((al.options.degree, al.options.finite_elements, al.ocp_solver.degree, al.ocp_solver.finite_elements),))
    if al.n_relax != n or al.mu.numel() != n or any(al.nu[e].numel() != n * d for e in range(N)) or len(al.nu) != N:
        raise Violation("%s relaxed equations, %s penalties" % (al.n_relax, al.mu))
    vec = lambda q: ca.DM([k.num() for _ in range(q)]) if q else ca.DM(0, 1)
    al.create_optimization_problem()
    m = o.model
    nx, ny, nu = m.n_x, m.n_y, m.n_u
    size = N * (d + 1) * nx + N * d * ny + N * dc * nu
    if al.opt_problem.x.numel() != size or (ny, nu) != (k.ny - c, k.nu + c + len(bd)):
        raise Violation("sizes %s %s" % ((nx, ny, nu), al.opt_problem.x.numel()))
    # the symbols of the new controls
    ysyms = ca.vertcat(*[y0[j] for j in jx]) if jx else ca.SX(0, 1)
    stayed = [y0[j] for j in range(k.ny) if j not in jx]
    tied = m.u[k.nu + c:]
    G = [k.alg[i] for i in ix] + [tied[q] - s["x"][i] for q, i in enumerate(bd)] + [k.geq[i] for i in ex]
    F = ca.Function("F", [s["x"], ca.vertcat(*stayed) if stayed else ca.SX(0, 1), ca.vertcat(u0, ysyms, tied), s["p"], s["th"], m.t], [ca.vertcat(*G)])
    col = lambda q: [float(v) for v in ca.collocation_points(q, "radau")]
    tau, tc = col(d), col(dc)
    h = (o.t_f - o.t_0) / N

    def lag(vals, at):
        out = 0
        for i, v in enumerate(vals):
            w = 1.0
            for j in range(len(vals)):
                if j != i:
                    w *= (at - tc[j]) / (tc[i] - tc[j])
            out = out + w * v
        return out
    last = None
    for rep in range(3 if improve else 2):
        X = vec(size)
        p, th = vec(k.np), {e: vec(k.nt) for e in range(N)}
        mu = ca.DM([round(r.uniform(0.5, 3), 2) for _ in range(n)])
        if not improve or rep == 0:
            al.set_mu(mu)
        else:
            mu = al.mu
        if al.nu_tilde is not None:
            al.nu = al.nu_tilde
        nus = {e: np.array(al.nu[e]).reshape(d, n).T.copy() if rep else None for e in range(N)}
        if rep == 0:
            al.nu = {e: vec(n * d) for e in range(N)}
            nus = {e: np.array(al.nu[e]).reshape(d, n).T.copy() for e in range(N)}
        V = np.array(X).flatten()
        ox, oy, ou = 0, N * (d + 1) * nx, N * (d + 1) * nx + N * d * ny
        worst = np.zeros(n)
        new = {}
        for e in range(N):
            us = [V[ou + (e * dc + q) * nu: ou + (e * dc + q + 1) * nu] for q in range(dc)]
            new[e] = np.zeros((n, d))
            for j in range(d):
                x = V[ox + (e * (d + 1) + j + 1) * nx: ox + (e * (d + 1) + j + 2) * nx][:k.nx]
                y = V[oy + (e * d + j) * ny: oy + (e * d + j + 1) * ny]
                w = np.array(F(x, y, lag(us, tau[j]), p, th[e], o.t_0 + (e + tau[j]) * h)).flatten()
                worst = np.maximum(worst, abs(w))
                new[e][:, j] = nus[e][:, j] + np.array(mu).flatten() * w
        if improve and last is not None:
            for i in range(n):
                if not worst[i] < last[i]:
                    for e in range(N):
                        new[e][i, :] = nus[e][i, :]
        err = al.update_parameters(p if k.np or r.random() < 0.5 else None, th if k.nt or r.random() < 0.5 else None, {"x": X})
        err = np.array(err).flatten()
        if err.shape != worst.shape or not np.allclose(err, worst, atol=1e-7):
            raise Violation("errors %s, the largest violations are %s" % (err, worst))
        for e in range(N):
            got = np.array(al.nu_tilde[e]).flatten()
            if got.shape != (n * d,) or not np.allclose(got.reshape(d, n).T, new[e], atol=1e-7):
                raise Violation("multipliers of element %d are %s, should be %s" % (e, got.reshape(d, n).T, new[e]))
        last = worst


@bounded("C15.solve", "C15", AL + ".solve", why="iterations of a numerical solver, compared with the solution of the problem that was not relaxed", runs=8)
def _solve(g):
    import copy
    import casadi as ca
    import numpy as np
    from yaocptool.methods import AugmentedLagrangian, DirectMethod
    r = g.rng
    seed = r.randint(0, 10 ** 6)
    import random
    mk = lambda: _Random(random.Random(seed), eq=False, easy=True)
    k, k2 = mk(), mk()
    d, N = r.randint(2, 3), r.randint(2, 3)
    so = dict(degree=d, degree_control=d, finite_elements=N, discretization_scheme="collocation", nlpsol_opts=dict(SOLVER))
    ref = DirectMethod(k.o, **copy.deepcopy(so)).solve()
    al = AugmentedLagrangian(k2.o, DirectMethod, solver_options=copy.deepcopy(so), options=dict(max_iter=25, tol=1e-6), no_update_after_solving=False)
    res = al.solve()
    g._rec("case", dict(nx=k.nx, ny=k.ny, nu=k.nu, d=d, N=N))
    if not ref.raw_solution_dict["stats"]["success"] or not res.raw_solution_dict["stats"]["success"]:
        raise Skip()
    err = np.array(al.last_violation_error).flatten()
    if not (err < 1e-5).all():
        raise Violation("the relaxed equations are violated by %s after 25 iterations" % err)
    x, y = [np.hstack([np.array(v).flatten() for el in q.x_data["values"] for v in el]) for q in (ref, res)]
    if x.shape != y.shape or not np.allclose(x, y, atol=1e-3):
        raise Violation("states %s, without relaxation %s" % (y, x))
    nu = res.other_data["nu"]["values"]
    if len(nu) != N or any(len(v) != d for v in nu) or any(not np.allclose(np.array(nu[e][j]).flatten(), np.array(al.nu[e]).flatten()[j * k.ny:(j + 1) * k.ny]) for e in range(N) for j in range(d)):
        raise Violation("reported multipliers %s are not those used %s" % (nu, al.nu))
