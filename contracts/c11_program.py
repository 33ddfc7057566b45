"""C11: the nonlinear program of a collocation, for every model, cost and constraint (as functions of their variables), of the sizes listed."""
from pydv.contract import ANY, Call, Expect, NS, contract

D = "yaocptool.methods.classic.directmethod:DirectMethod"
SM = "yaocptool.modelling.system_model:SystemModel"
OCP = "yaocptool.modelling.ocp:OptimalControlProblem"

# nx, ny, nu, np, ntheta, elements, degree, degree of the controls, features
CASES = [
    (1, 0, 0, 0, 0, 1, 1, 1, ""),
    (1, 0, 1, 0, 0, 2, 1, 1, "S du last"),
    (2, 1, 1, 1, 1, 2, 2, 1, "S hf h hi ineq:default eq:end du"),
    (1, 1, 2, 2, 1, 2, 2, 2, "S popt thopt ineq:start eq:default hf eta"),
    (1, 0, 1, 1, 2, 3, 1, 1, "thopt ineq:end eq:start du last sum"),
    (1, 2, 1, 0, 0, 1, 3, 2, "ineq:default eq:default S"),
    (2, 1, 0, 2, 2, 2, 2, 1, "popt thopt h hf eta S x0"),
    (1, 0, 3, 0, 0, 3, 1, 1, "duinf last"),
    (2, 0, 2, 3, 2, 2, 2, 3, "popt thopt1 ineq:end ineq:default ineq:start eq:start eq:default eq:end last"),
    (1, 1, 1, 1, 0, 4, 1, 1, "du hi hf h S x0 eta popt"),
    (1, 1, 1, 1, 1, 1, 4, 1, "S ineq:start eq:default thopt popt"),
]


def lag(nodes, t):
    """The values at t of the polynomials that are 1 at one node and 0 at the others."""
    out = []
    for j, a in enumerate(nodes):
        w = 1
        for k, b in enumerate(nodes):
            if k != j:
                w = w * (t - b) / (a - b)
        out.append(w)
    return out


def dlag(nodes, t):
    """Their derivatives."""
    out = []
    for j, a in enumerate(nodes):
        s = 0
        for i, c in enumerate(nodes):
            if i == j:
                continue
            w = 1 / (a - c)
            for k, b in enumerate(nodes):
                if k != j and k != i:
                    w = w * (t - b) / (a - b)
            s = s + w
        out.append(s)
    return out


def pair(g, name, n):
    """A lower and an upper bound."""
    lo, w = g.dm(name + "_min", n, inf=False), g.real(name + "_width", lo=0)
    hi = g.S.vmap(n, lambda i: g.S.add(g.S.at(lo, i), w))
    for i in range(n):
        g.assume(g.S.lt(g.S.at(hi, i), g.S.inf))
    return lo, hi


def problem(g, case, scheme, more=None, **kw):
    nx, ny, nu, np_, nt, N, d, dc, feat = case
    feat = feat.split()
    S = g.S
    m = g.new(SM, name="m")
    x = g.call(m, "create_state", "x", nx)
    y = g.call(m, "create_algebraic_variable", "y", ny) if ny else g.S.empty("SX")
    u = g.call(m, "create_control", "u", nu) if nu else g.S.empty("SX")
    p = g.call(m, "create_parameter", "p", np_) if np_ else g.S.empty("SX")
    th = g.call(m, "create_theta", "th", nt) if nt else g.S.empty("SX")
    every = [x, y, u, p, th, m.t]
    ode, alg = g.fexpr("f", nx, every), g.fexpr("a", ny, every)
    g.call(m, "include_equations", ode=ode, alg=alg)
    t_0 = g.real("t_0")
    length = g.pick("length", [1.5])
    o = g.new(OCP, m, x_0=g.dm("x_0", nx, inf=False), t_0=t_0, t_f=S.add(t_0, length), name="o")
    E = dict(f=ode, a=alg, L=g.fexpr("L", 1, every), V=g.fexpr("V", 1, [x, p]), S=None)
    g.put(o, L=E["L"], V=E["V"])
    if "S" in feat:
        E["S"] = g.fexpr("S", 1, every)
        g.put(o, S=E["S"])
    eta = g.sym("eta", 1 if "eta" in feat else 0, "SX")
    if "eta" in feat:
        g.put(o, eta=eta)
    E["eta"] = eta
    E["hi"] = E["hf"] = E["h"] = None
    if "hi" in feat:
        E["hi"] = g.fexpr("hi", 1, [x, m.x_0])
        g.call(o, "include_initial_time_equality", E["hi"])
    if "hf" in feat:
        E["hf"] = g.fexpr("hf", 2, [x, p, eta])
        g.call(o, "include_final_time_equality", E["hf"])
    if "h" in feat:
        E["h"] = g.fexpr("h", 1, [p])
        g.call(o, "include_equality", E["h"])
    E["ineq"], E["eq"] = [], []
    for q in feat:
        for kind, meth in (("ineq", "include_time_inequality"), ("eq", "include_time_equality")):
            if q.startswith(kind + ":"):
                e = g.fexpr(kind, 1, every)
                g.call(o, meth, e, when=q.split(":")[1])
                E[kind].append((e, q.split(":")[1]))
    po, to = [], []
    if "popt" in feat:
        po = list(reversed(range(np_)))[:2]
        for i in po:
            g.call(o, "set_parameter_as_optimization_parameter", S.elem(p, i), *pair(g, "p%d" % i, 1))
    if "thopt" in feat:
        to = [nt - 1]
    if "thopt1" in feat:
        to = [1, 0]
    if to:
        for i in to:
            g.call(o, "set_theta_as_optimization_theta", S.elem(th, i), *pair(g, "t%d" % i, 1))
    du = None
    if "du" in feat:
        du = pair(g, "du", nu)
        g.put(o, delta_u_min=du[0], delta_u_max=du[1])
    if "duinf" in feat:
        lo, hi = pair(g, "du", 2)
        du = (S.cat(S.at(lo, 0), S.full(-S.inf, 1), S.full(-S.inf, 1)), S.cat(S.full(S.inf, 1), S.at(hi, 1), S.full(S.inf, 1)))
        g.put(o, delta_u_min=du[0], delta_u_max=du[1])
    if "last" in feat:
        g.put(o, last_u=g.dm("last_u", nu, inf=False))
    if "guess" in feat:
        g.put(o, y_guess=g.dm("y_guess", ny, inf=False))
    if more is not None:
        more(o)
    if "x0" in feat:
        kw["initial_condition_as_parameter"] = False
    if "sumcost" in feat:
        kw["cost_as_a_sum"] = True
    me = g.new(D, o, finite_elements=N, degree=d, degree_control=dc, discretization_scheme=scheme, **kw)
    return NS(dict(me=me, o=o, m=m, x=x, y=y, u=u, p=p, th=th, E=E, po=po, to=to, du=du, last="last" in feat, duinf="duinf" in feat, t_0=t_0, length=length, x0=o.x_0,
                   case=case, x0_fixed="x0" in feat, x_0=m.x_0, t=m.t))


def layout(S, k, v):
    """The blocks of the decision vector (property C10)."""
    nx, ny, nu, np_, nt, N, d, dc, _ = k.case
    nx += 1
    at, out = [0], {}

    def block(n):
        at[0] += n
        return S.sl(v, at[0] - n, at[0])
    out["x"] = [[block(nx) for _ in range(d + 1)] for _ in range(N)]
    out["y"] = [[block(ny) for _ in range(d)] for _ in range(N)]
    out["u"] = [[block(nu) for _ in range(dc)] for _ in range(N)]
    out["eta"] = block(S.n(k.E["eta"]))
    out["p_opt"] = block(len(k.po))
    out["theta_opt"] = [block(len(k.to)) for _ in range(N)]
    return out, at[0]


def parameters(S, k, v):
    """p, theta of every element, the initial value, the last control (properties C12)."""
    nx, ny, nu, np_, nt, N, d, dc, _ = k.case
    at = [0]

    def block(n):
        at[0] += n
        return S.sl(v, at[0] - n, at[0])
    p, th = block(np_), [block(nt) for _ in range(N)]
    x0 = block(nx + 1) if not k.x0_fixed else S.cat(k.x0, S.full(0, 1))
    last = block(nu) if k.last else None
    return p, th, x0, last, at[0]


def chosen(S, v, n, idx, w):
    """v with the entries idx replaced by those of w"""
    return S.cat(*[S.sl(w, idx.index(i), idx.index(i) + 1) if i in idx else S.sl(v, i, i + 1) for i in range(n)]) if n else v


def program(S, k, nlp):
    """(specified constraints, specified objective, sizes) in the decision variables and parameters of the program"""
    nx, ny, nu, np_, nt, N, d, dc, _ = k.case
    E = k.E
    B, size = layout(S, k, nlp.x)
    p, th, x0, last, psize = parameters(S, k, nlp.p)
    p = chosen(S, p, np_, k.po, B["p_opt"])
    th = [chosen(S, th[e], nt, k.to, B["theta_opt"][e]) for e in range(N)]
    r = [S.frac(q) for q in S.nodes(d)]
    full = [S.frac(0.0)] + r
    cr = [S.frac(q) for q in S.nodes(dc)]
    h = S.frac(k.length) / N
    core = lambda x: S.sl(x, 0, nx)
    cost = lambda x: S.sl(x, nx, nx + 1)

    def env(el, tau):
        """what the variables of the model are in element el at the fraction tau of it"""
        x = S.comb(lag(full, tau), B["x"][el], nx + 1)
        y = S.comb(lag(r, tau), B["y"][el], ny)
        u = S.comb(lag(cr, tau), B["u"][el], nu) if dc > 1 else B["u"][el][0]
        return core(x), y, u, S.mat(S.add(k.t_0, S.num(h * (el + tau))))

    def at(e, el, tau):
        x, y, u, t = env(el, tau)
        pairs = [(k.x, x), (k.y, y), (k.u, u), (k.p, p), (k.th, th[el]), (k.t, t)]
        pairs = [(a, b) for a, b in pairs if S.n(a)]
        return S.subst(e, S.cat(*[a for a, _ in pairs]), S.cat(*[b for _, b in pairs]))

    def of(e, pairs):
        pairs = [(a, b) for a, b in pairs if S.n(a)]
        return S.subst(e, S.cat(*[a for a, _ in pairs]), S.cat(*[b for _, b in pairs])) if pairs else e
    rows = []
    eq = lambda v: rows.append((v, 0.0, 0.0))
    first = B["x"][0][0]
    eq(S.comb([1, -1], [first, x0], nx + 1))
    if E["hi"] is not None:
        eq(of(E["hi"], [(k.x, core(first)), (k.x_0, S.sl(x0, 0, nx))]))
    obj = []
    for el in range(N):
        if el:
            eq(S.comb([1, -1], [B["x"][el - 1][d], B["x"][el][0]], nx + 1))
        for j in range(1, d + 1):
            dx = S.comb(dlag(full, full[j]), B["x"][el], nx + 1)
            eq(S.comb([1, -h], [core(dx), at(E["f"], el, full[j])], nx))
            eq(S.comb([1, -h], [cost(dx), at(E["L"], el, full[j])], 1))
            if ny:
                eq(at(E["a"], el, full[j]))
        if k.du is not None and (el or k.last):
            prev = B["u"][el - 1][0] if el else last
            for i in range(nu):
                if i < 2 or not k.duinf:
                    rows.append((S.comb([1, -1], [S.sl(B["u"][el][0], i, i + 1), S.sl(prev, i, i + 1)], 1), S.at(k.du[0], i), S.at(k.du[1], i)))
        taus = {"default": r, "start": [full[0]], "end": [S.frac(1.0)]}
        for e, w in E["ineq"]:
            for tau in taus[w]:
                rows.append((at(e, el, tau), -S.inf, 0.0))
        for e, w in E["eq"]:
            for tau in taus[w]:
                eq(at(e, el, tau))
        if E["S"] is not None:
            obj.append(at(E["S"], el, S.frac(1.0)))
    xf = B["x"][N - 1][d]
    if E["hf"] is not None:
        eq(of(E["hf"], [(k.x, core(xf)), (k.p, p), (k.E["eta"], B["eta"])]))
    if E["h"] is not None:
        eq(of(E["h"], [(k.p, p)]))
    obj += [of(E["V"], [(k.x, core(xf)), (k.p, p)]), cost(xf)]
    return rows, S.comb([1] * len(obj), obj, 1), size, psize


@contract("C11.program_collocation", "C11", D + ".create_optimization_problem", budget=300, runs=14)
class _:
    def inputs(g):
        case = g.pick("case", list(CASES))
        k = problem(g, case, "collocation")
        return Call(k.me).also(k=k)

    def body(R, a):
        R.call(a.self, "create_optimization_problem")
        return R.attr(a.self, "opt_problem")

    def spec(S, a):
        def post(S, a, nlp):
            rows, obj, size, psize = program(S, a.k, nlp)
            return ([("decision variables", S.eq(S.n(nlp.x), size)), ("parameters", S.eq(S.n(nlp.p), psize)), ("objective", S.same(nlp.f, obj))]
                    + S.match_rows(nlp.g, nlp.g_lb, nlp.g_ub, rows, over=[nlp.x, nlp.p]))
        return Expect(result=ANY, post=post, frees=("self.*", "k.*"))


# ---------------------------------------------------------------------------------------------- multiple shooting
SHOOT = [
    (1, 0, 0, 0, 0, 1, 1, 1, ""),
    (1, 0, 1, 0, 0, 2, 1, 1, "S du last"),
    (2, 1, 1, 1, 1, 2, 2, 1, "S hf h hi ineq:default eq:end du guess"),
    (1, 1, 2, 2, 1, 2, 2, 2, "S popt thopt ineq:end eq:default hf eta"),
    (1, 0, 1, 1, 2, 3, 1, 1, "thopt ineq:end eq:end du last sumcost"),
    (1, 2, 1, 0, 0, 1, 3, 3, "ineq:default eq:default S guess"),
    (2, 1, 0, 2, 2, 2, 2, 1, "popt thopt h hf eta S x0"),
    (1, 0, 3, 0, 0, 3, 1, 1, "duinf last"),
    (2, 1, 2, 3, 2, 2, 2, 2, "popt thopt1 ineq:end ineq:default eq:default eq:end last sumcost S"),
    (1, 1, 1, 1, 0, 4, 1, 1, "du hi hf h S x0 eta popt"),
]


def monomials(nodes):
    """[[coefficient of t^i]] of the polynomials of `lag`."""
    out = []
    for j, a in enumerate(nodes):
        c = [1]
        for k, b in enumerate(nodes):
            if k != j:
                up, low = [0] + c, c + [0]
                c = [(v - b * w) / (a - b) for v, w in zip(up, low)]
        out.append(c)
    return out


def shooting_layout(S, k, v):
    nx, ny, nu, np_, nt, N, d, dc, _ = k.case
    at, out = [0], {}

    def block(n):
        at[0] += n
        return S.sl(v, at[0] - n, at[0])
    out["x"] = [block(nx + 1) for _ in range(N + 1)]
    out["y"] = [block(ny) for _ in range(N)]
    out["u"] = [[block(nu) for _ in range(dc)] for _ in range(N)]
    out["eta"] = block(S.n(k.E["eta"]))
    out["p_opt"] = block(len(k.po))
    out["theta_opt"] = [block(len(k.to)) for _ in range(N)]
    return out, at[0]


@contract("C11.program_shooting", "C11", D + ".create_optimization_problem", budget=300, runs=14)
class _:
    def inputs(g):
        rec = g.integrators()
        case = g.pick("case", list(SHOOT))
        k = problem(g, case, "multiple-shooting")
        nx, ny = case[:2]
        k = NS(dict(vars(k), X=g.sym("X", nx + 1), Y=g.sym("Y", ny), T=g.sym("T", 1)))
        return Call(k.me).also(k=k, rec=rec)

    def body(R, a):
        R.call(a.self, "create_optimization_problem")
        return R.attr(a.self, "opt_problem")

    def spec(S, a):
        return Expect(result=ANY, post=shooting, frees=("self.*", "k.*"))


def dynamics(S, k, st, el, us, p, th, nodes, h):
    """[(name, condition)]: the equations that are integrated are those of the model and its cost, with the control polynomial through us."""
    nx, ny, nu, np_, nt, N, d, dc, _ = k.case

    def of(e, pairs):
        pairs = [(s, w) for s, w in pairs if S.n(s)]
        return S.subst(e, S.cat(*[s for s, _ in pairs]), S.cat(*[w for _, w in pairs])) if pairs else e

    def control(tau):
        if dc == 1 or not nu:
            return us[0]
        c, u = monomials(nodes), None
        for i in reversed(range(dc)):
            w = S.comb([q[i] for q in c], us, nu)
            u = w if u is None else S.add(S.mul(u, tau), w)
        return u
    here = [(st.dae["x"], k.X), (st.dae["t"], k.T)] + ([(st.dae["z"], k.Y)] if ny else []) + ([(st.dae["p"], st.args["p"])] if "p" in st.dae else [])
    tau = S.mul(S.sub(k.T, S.add(k.t_0, S.num(h * el))), S.num(1 / h))
    there = [(k.x, S.sl(k.X, 0, nx)), (k.y, k.Y), (k.u, control(tau)), (k.p, p), (k.th, th), (k.t, k.T)]
    got = of(st.dae["ode"], here)
    out = [("dynamics", S.same(S.sl(got, 0, nx), of(k.E["f"], there))), ("cost", S.same(S.sl(got, nx, nx + 1), of(k.E["L"], there)))]
    if ny:
        out.append(("algebraic", S.same(of(st.dae["alg"], here), of(k.E["a"], there))))
    return out


def shooting(S, a, nlp):
    k, steps = a.k, a.rec.steps
    nx, ny, nu, np_, nt, N, d, dc, feat = k.case
    E = k.E
    B, size = shooting_layout(S, k, nlp.x)
    p, th, x0, last, psize = parameters(S, k, nlp.p)
    p = chosen(S, p, np_, k.po, B["p_opt"])
    th = [chosen(S, th[e], nt, k.to, B["theta_opt"][e]) for e in range(N)]
    h = S.frac(k.length) / N
    time = lambda e: S.add(k.t_0, S.num(h * e))
    nodes = [S.frac(q) for q in S.nodes(dc)]
    core = lambda x: S.sl(x, 0, nx)
    cost = lambda x: S.sl(x, nx, nx + 1)
    out = [("decision variables", S.eq(S.n(nlp.x), size)), ("parameters", S.eq(S.n(nlp.p), psize)), ("one integration per element", len(steps) == N)]
    if len(steps) != N:
        return out

    def of(e, pairs):
        pairs = [(s, w) for s, w in pairs if S.n(s)]
        return S.subst(e, S.cat(*[s for s, _ in pairs]), S.cat(*[w for _, w in pairs])) if pairs else e

    def end(e, el, u):
        st = steps[el]
        return of(e, [(k.x, core(st.xf)), (k.y, st.zf), (k.u, u), (k.p, p), (k.th, th[el]), (k.t, S.mat(time(el + 1)))])

    rows = []
    eq = lambda v: rows.append((v, 0.0, 0.0))
    first = B["x"][0]
    eq(S.comb([1, -1], [first, x0], nx + 1))
    if E["hi"] is not None:
        eq(of(E["hi"], [(k.x, core(first)), (k.x_0, S.sl(x0, 0, nx))]))
    obj = []
    for el in range(N):
        st = steps[el]
        # ---- what is integrated
        lab = "element %d: " % el
        out += [(lab + "from", S.same(S.mat(st.t0), S.mat(time(el)))), (lab + "to", S.same(S.mat(st.tf), S.mat(time(el + 1)))), (lab + "state", S.same(st.args["x0"], B["x"][el]))]
        out += [(lab + "sizes", S.And(S.eq(S.n(st.dae["x"]), nx + 1), S.eq(S.n(st.dae["z"]), ny) if ny else "z" not in st.dae, S.n(st.dae["p"]) == S.n(st.args["p"])
                 if "p" in st.dae else S.n(st.args.get("p", S.empty())) == 0))]
        if ny and "guess" in feat.split():
            out.append((lab + "guess", "z0" in st.args and S.same(st.args["z0"], k.o.y_guess)))
        if (ny > 0) != ("z" in st.dae):
            return out
        out += [(lab + w, c) for w, c in dynamics(S, k, st, el, B["u"][el], p, th[el], nodes, h)]
        # ---- the constraints
        if "sumcost" in feat.split():
            eq(S.comb([1, -1], [core(st.xf), core(B["x"][el + 1])], nx))
            eq(S.comb([1], [cost(B["x"][el + 1])], 1))
            obj.append(cost(st.xf))
        else:
            eq(S.comb([1, -1], [st.xf, B["x"][el + 1]], nx + 1))
        if ny:
            eq(S.comb([1, -1], [st.zf, B["y"][el]], ny))
        if k.du is not None and (el or k.last):
            prev = B["u"][el - 1][0] if el else last
            for i in range(nu):
                if i < 2 or not k.duinf:
                    rows.append((S.comb([1, -1], [S.sl(B["u"][el][0], i, i + 1), S.sl(prev, i, i + 1)], 1), S.at(k.du[0], i), S.at(k.du[1], i)))
        u1 = S.comb(lag(nodes, S.frac(1.0)), B["u"][el], nu) if dc > 1 else B["u"][el][0]
        for e, _ in E["ineq"]:
            rows.append((end(e, el, u1), -S.inf, 0.0))
        for e, _ in E["eq"]:
            eq(end(e, el, u1))
        if E["S"] is not None:
            obj.append(end(E["S"], el, u1))
    xf = B["x"][N]
    if E["hf"] is not None:
        eq(of(E["hf"], [(k.x, core(xf)), (k.p, p), (E["eta"], B["eta"])]))
    if E["h"] is not None:
        eq(of(E["h"], [(k.p, p)]))
    obj += [of(E["V"], [(k.x, core(xf)), (k.p, p)]), cost(xf)]
    over = [nlp.x, nlp.p] + [st.xf for st in steps] + ([st.zf for st in steps] if ny else [])
    return out + [("objective", S.same(nlp.f, S.comb([1] * len(obj), obj, 1)))] + S.match_rows(nlp.g, nlp.g_lb, nlp.g_ub, rows, over=over)
