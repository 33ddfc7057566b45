"""C10: bounds and initial guess of the decision variables of whole programs."""
from contracts.c11_program import CASES, D, SHOOT, dynamics, layout, problem, shooting_layout
from pydv.contract import ANY, Call, Expect, NS, contract

PICK = [1, 2, 3, 4, 6, 8]


def limits(g, name, n):
    S = g.S
    lo, w = g.dm(name + "_min", n), g.dm(name + "_other", n)
    return lo, S.vmap(n, lambda i: S.ite(S.le(S.at(lo, i), S.at(w, i)), S.at(w, i), S.at(lo, i)))


@contract("C10.bounds", "C10", D + ".create_optimization_problem", budget=300, runs=14)
class _:
    """Every value of every variable has the bounds of the variable; the cost is bounded below by zero where it is said to be positive."""
    def inputs(g):
        scheme, pos, i = g.pick("case", [(s, (i % 2 == 0) == (s == "collocation"), i) for s in ("collocation", "multiple-shooting") for i in PICK])
        if scheme != "collocation":
            g.integrators()
        case = (CASES if scheme == "collocation" else SHOOT)[i]
        b = {}

        def before(o):
            for q, n in zip("xyu", case):
                b[q] = limits(g, q, n)
                g.put(o, **{q + "_min": b[q][0], q + "_max": b[q][1]})
            if pos:
                g.put(o, positive_objective=True)
        k = problem(g, case, scheme, before)
        for q in ("p_opt", "theta_opt"):
            b[q] = getattr(k.o, q + "_min"), getattr(k.o, q + "_max")
        return Call(k.me).also(k=k, b=b, col=scheme == "collocation", pos=pos)

    def body(R, a):
        R.call(a.self, "create_optimization_problem")
        return R.attr(a.self, "opt_problem")

    def spec(S, a):
        def post(S, a, nlp):
            k, out = a.k, []
            B, size = (layout if a.col else shooting_layout)(S, k, nlp.x)
            for side, (v, free) in enumerate(((nlp.x_lb, -S.inf), (nlp.x_ub, S.inf))):
                out.append(("%s: one for every variable" % "lower upper".split()[side], S.eq(S.n(v), size)))
                V = (layout if a.col else shooting_layout)(S, k, v)[0]
                lab = "lower upper".split()[side] + " bound of "
                cost = S.full(0, 1) if side == 0 and a.pos else S.full(free, 1)
                x = S.cat(a.b["x"][side], cost)
                for e, row in enumerate(V["x"]):
                    for j, w in enumerate(row if a.col else [row]):
                        out.append((lab + "x %d %d" % (e, j), S.same(w, x)))
                for e, row in enumerate(V["y"]):
                    for j, w in enumerate(row if a.col else [row]):
                        out.append((lab + "y %d %d" % (e, j), S.same(w, a.b["y"][side])))
                for e, row in enumerate(V["u"]):
                    for j, w in enumerate(row):
                        out.append((lab + "u %d %d" % (e, j), S.same(w, a.b["u"][side])))
                out.append((lab + "eta", S.same(V["eta"], S.full(free, S.n(k.E["eta"])))))
                out.append((lab + "p_opt", S.same(V["p_opt"], a.b["p_opt"][side])))
                for e, w in enumerate(V["theta_opt"]):
                    out.append((lab + "theta_opt %d" % e, S.same(w, a.b["theta_opt"][side])))
            return out
        return Expect(result=ANY, post=post, frees=("self.*", "k.*"))


@contract("C10.guess_simulation", "C10", "yaocptool.methods.classic.collocationscheme:CollocationScheme.create_initial_guess_with_simulation", budget=300, runs=14)
class _:
    """The guess by simulation: the model is integrated from the initial condition through the points of every element in turn, with the
    controls kept at the guess (or the last control, or zero) and the parameters of the element; the points are the guess."""
    def inputs(g):
        scheme, i, ug, given = g.pick("case", [("collocation", 2, "guess", True), ("collocation", 3, "last", True), ("collocation", 0, None, False), ("collocation", 4, "arg", True),
                                               ("collocation", 6, None, False), ("collocation", 8, None, True), ("collocation", 5, "both", False),
                                               ("multiple-shooting", 2, "guess", True), ("multiple-shooting", 3, "last", True), ("multiple-shooting", 0, None, False),
                                               ("multiple-shooting", 4, "arg", True), ("multiple-shooting", 6, None, False), ("multiple-shooting", 8, None, True),
                                               ("multiple-shooting", 5, "both", False)])
        col = scheme == "collocation"
        case = (CASES if col else SHOOT)[i]
        nx, ny, nu, np_, nt, N = case[:6]
        rec = g.integrators()
        v, kw = {"u": g.S.full(0, nu), "y": None, "p": g.S.full(0, np_), "th": [g.S.full(0, nt)] * N}, {}

        def before(o):
            if ug in ("last", "both"):
                v["u"] = g.dm("u_last", nu, inf=False)
                g.put(o, last_u=v["u"])
            if ug in ("guess", "both"):
                v["u"] = g.dm("u_guess", nu, inf=False)
                g.put(o, u_guess=v["u"])
            if ug is not None and ny:
                v["y"] = g.dm("y_guess", ny, inf=False)
                g.put(o, y_guess=v["y"])
        k = problem(g, case, scheme, before)
        if k.last and ug is None:
            v["u"] = k.o.last_u
        g.call(k.me, "create_optimization_problem")
        first = len(rec.steps)
        if ug == "arg":
            v["u"] = kw["u"] = g.dm("u_arg", nu, inf=False)
        if given:
            v["p"] = kw["p"] = g.dm("p_arg", np_, inf=False)
            v["th"] = [g.dm("th_arg%d" % e, nt, inf=False) for e in range(N)]
            kw["theta"] = g.dict(dict(enumerate(v["th"])))
        k = NS(dict(vars(k), X=g.sym("X", nx + 1), Y=g.sym("Y", ny), T=g.sym("T", 1)))
        return Call(k.me.discretizer).also(k=k, rec=rec, col=col, v=v, kw=kw, first=first)

    def body(R, a):
        return R.call(a.self, "create_initial_guess_with_simulation", **a.kw)

    def spec(S, a):
        def post(S, a, guess):
            k, v = a.k, a.v
            nx, ny, nu, np_, nt, N, d, dc, _ = k.case
            steps = a.rec.steps[a.first:]
            per = d if a.col else 1
            out = [("integrations", len(steps) == N * per)]
            if len(steps) != N * per:
                return out
            B, size = (layout if a.col else shooting_layout)(S, k, guess)
            out.append(("size", S.eq(S.n(guess), size)))
            h = S.frac(k.length) / N
            taus = [S.frac(0.0)] + ([S.frac(q) for q in S.nodes(d)] if a.col else [S.frac(1.0)])
            x = S.cat(k.x0, S.full(0, 1))
            nodes = [S.frac(q) for q in S.nodes(dc)]
            for q, st in enumerate(steps):
                el, j = divmod(q, per)
                lab = "element %d point %d: " % (el, j)
                time = lambda t: S.mat(S.add(k.t_0, S.num(h * (el + t))))
                out += [(lab + "from", S.same(S.mat(st.t0), time(taus[j]))), (lab + "to", S.same(S.mat(st.tf), time(taus[j + 1]))), (lab + "state", S.same(st.args["x0"], x))]
                if ny and v["y"] is not None:
                    out.append((lab + "guess", "z0" in st.args and S.same(st.args["z0"], v["y"])))
                if (ny > 0) != ("z" in st.dae):
                    return out + [(lab + "algebraic variables", False)]
                dyn = dynamics(S, k, st, el, [v["u"]] * dc, v["p"], v["th"][el], nodes, h)
                out += [(lab + w, c) for w, c in dyn]
                if a.col:
                    if j == 0:
                        out.append((lab + "first state", S.same(B["x"][el][0], x)))
                    out += [(lab + "x", S.same(B["x"][el][j + 1], st.xf)), (lab + "y", S.same(B["y"][el][j], st.zf) if ny else True)]
                else:
                    if q == 0:
                        out.append((lab + "first state", S.same(B["x"][0], x)))
                    out += [(lab + "x", S.same(B["x"][el + 1], st.xf)), (lab + "y", S.same(B["y"][el], st.zf) if ny else True)]
                x = st.xf
            for el in range(N):
                out += [("u %d" % el, S.same(w, v["u"])) for w in B["u"][el] if nu]
                out.append(("theta %d" % el, S.same(B["theta_opt"][el], S.cat(*[S.sl(v["th"][el], i, i + 1) for i in k.to]) if k.to else S.empty())))
            out.append(("eta", S.same(B["eta"], S.full(0, S.n(k.E["eta"])))))
            out.append(("p", S.same(B["p_opt"], S.cat(*[S.sl(v["p"], i, i + 1) for i in k.po]) if k.po else S.empty())))
            return out
        return Expect(result=ANY, post=post, frees=("self.*", "k.*"))
