"""C12: solves in a row: each uses its own arguments, none leaves a trace."""
from contracts.c11_program import CASES, D, SHOOT, chosen, layout, problem, shooting_layout
from pydv.contract import ANY, Call, Expect, NS, contract

PICK = [1, 2, 3, 4, 6, 8]


@contract("C12.solves", "C12", D + ".solve", budget=300, runs=16)
class _:
    """Three solves by one method, with arguments given in different forms or left out: the solver gets the parameters, initial condition, last
    control, guess and bounds of each solve; each result keeps its own; the arguments and the problem stay as they were."""
    def inputs(g):
        S = g.S
        rec = g.solvers("nlpsol")
        scheme, i = g.pick("case", [(s, i) for s in ("collocation", "multiple-shooting") for i in PICK])
        col = scheme == "collocation"
        if not col:
            g.integrators()
        case = (CASES if col else SHOOT)[i]
        nx, ny, nu, np_, nt, N, d, dc, feat = case
        k = problem(g, case, scheme, initial_guess_heuristic="problem_info")
        g.call(k.me, "create_optimization_problem")
        runs = []
        forms = [("dm", True, True), ("dm", False, False), ("list", True, False)]
        for q, (form, x0, last) in enumerate(forms):
            a = {}
            if np_:
                vals = g.dm("p%d" % q, np_, inf=False)
                a["p"] = vals if form == "dm" else g.list([S.at(vals, j) for j in range(np_)])
                if form == "dm" and q == 1 and len(k.po) == np_:
                    del a["p"]
                    vals = S.full(0, np_)
            else:
                vals = S.empty()
            ths = [g.dm("th%d_%d" % (q, e), nt, inf=False) for e in range(N)]
            if nt:
                a["theta"] = g.dict(dict(enumerate(ths)))
            x = S.cat(k.x0, S.full(0, 1))
            if x0:
                x = a["x_0"] = g.dm("x0_%d" % q, nx + 1, inf=False)
            lu = k.o.last_u if k.last else None
            if k.last and last:
                lu = a["last_u"] = g.dm("last%d" % q, nu, inf=False)
            v = g.dm("v%d" % q, S.n(k.me.opt_problem.x), inf=False)
            runs.append(NS(dict(kw=a, p=vals, th=ths, x0=x, last=lu, v=v)))
        return Call(k.me).also(k=k, rec=rec, runs=runs, col=col, **{"%s of solve %d" % (w, q): v for q, r in enumerate(runs) for w, v in r.kw.items()})

    def body(R, a):
        out = []
        for r in a.runs:
            a.rec.solution = dict(a.rec.solution, x=r.v)
            out.append(R.call(a.self, "solve", **r.kw))
        return tuple(out)

    def spec(S, a):
        def post(S, a, rs):
            k, nlp = a.k, a.k.me.opt_problem
            nx, ny, nu, np_, nt, N, d, dc, _ = k.case
            out = [("one call of the solver per solve", len(a.rec.calls) == len(a.runs))]
            if len(a.rec.calls) != len(a.runs):
                return out
            unpack = layout if a.col else shooting_layout
            for q, (w, r, (_, got)) in enumerate(zip(a.runs, rs, a.rec.calls)):
                lab = "solve %d: " % q
                par = [w.p] + w.th + ([] if k.x0_fixed else [w.x0]) + ([w.last] if k.last else [])
                out.append((lab + "parameters", S.same(got["p"], S.cat(*par)) if "p" in got else all(S.n(x) == 0 for x in par)))
                for b, v in (("lbx", nlp.x_lb), ("ubx", nlp.x_ub), ("lbg", nlp.g_lb), ("ubg", nlp.g_ub)):
                    out.append((lab + b, S.same(got[b], v)))
                G, size = unpack(S, k, got["x0"])
                out.append((lab + "size of the guess", S.eq(S.n(got["x0"]), size)))
                x = S.cat(k.x0, S.full(0, 1))
                flat = [z for row in G["x"] for z in row] if a.col else G["x"]
                out.append((lab + "guess of the states", S.And(*[S.same(z, x) for z in flat])))
                y = k.o.y_guess if k.o.y_guess is not None else S.full(0, ny)
                flat = [z for row in G["y"] for z in row] if a.col else G["y"]
                out.append((lab + "guess of y", S.And(*[S.same(z, y) for z in flat if ny])))
                out.append((lab + "guess of the controls", S.And(*[S.same(z, S.full(0, nu)) for row in G["u"] for z in row if nu])))
                out.append((lab + "guess of the parameters", S.And(*[S.eq(S.at(G["p_opt"], j), S.at(w.p, i)) for j, i in enumerate(k.po)])))
                out.append((lab + "guess of theta", S.And(*[S.eq(S.at(G["theta_opt"][e], j), S.at(w.th[e], i)) for e in range(N) for j, i in enumerate(k.to)])))
                V = unpack(S, k, w.v)[0]
                out.append((lab + "point", S.same(r.raw_decision_variables, w.v)))
                out.append((lab + "x_0 of the result", S.same(r.x_0, w.x0)))
                out.append((lab + "p of the result", S.same(r.p, chosen(S, w.p, np_, k.po, V["p_opt"]))))
                for e in range(N):
                    out.append((lab + "theta of the result %d" % e, S.same(S.get(r.theta, e), chosen(S, w.th[e], nt, k.to, V["theta_opt"][e]))))
                first = V["x"][0][0] if a.col else V["x"][0]
                out.append((lab + "first state of the result", S.same(S.item(S.item(S.get(r.x_data, "values"), 0), 0), first)))
            return out
        return Expect(result=ANY, post=post, frees=("self.*",))


@contract("C12.missing", "C12", D + ".solve", budget=200, runs=16)
class _:
    """Values that are needed and missing, or of another size, are refused before a solver is called."""
    def inputs(g):
        S = g.S
        rec = g.solvers("nlpsol")
        scheme, i, bad = g.pick("case", [(s, i, bad) for s in ("collocation", "multiple-shooting")
                                         for i, bad in ((2, "p"), (2, "theta"), (4, "theta"), (2, "x_0"), (4, "x_0 short"), (3, "p long"), (8, "p"), (8, "p short"), (7, "last_u"), (4, "theta short"), (1, "last_u long"))])
        col = scheme == "collocation"
        if not col:
            g.integrators()
        case = (CASES if col else SHOOT)[i]
        nx, ny, nu, np_, nt, N, d, dc, feat = case
        more = (lambda o: g.put(o, last_u=None)) if bad == "last_u" else None
        kw = {"last_control_as_parameter": True} if bad.startswith("last_u") else {}
        k = problem(g, case, scheme, more, initial_guess_heuristic="problem_info", **kw)
        dm = lambda name, n: g.dm(name, n, inf=False)
        a = {"p": dm("pv", np_) if np_ else None, "theta": g.dict({e: dm("th%d" % e, nt) for e in range(N)}) if nt else None, "x_0": dm("x0v", nx + 1),
             "last_u": dm("lu", nu) if bad.startswith("last_u") else None}
        q, _, size = bad.partition(" ")
        if not size and q != "x_0":
            a[q] = None
        elif q == "theta":
            a[q] = g.dict({e: dm("th%d" % e, nt - 1) for e in range(N)})
        else:
            n = {"p": np_, "x_0": nx + 1, "last_u": nu}[q]
            a[q] = dm("bad", n + (-1 if size == "short" else 1))
        return Call(k.me).also(rec=rec, kw={q: v for q, v in a.items() if v is not None})

    def body(R, a):
        return R.refused(a.self, "solve", **a.kw)

    def spec(S, a):
        return Expect(result=ANY, post=lambda S, a, r: [("refused", bool(r)), ("no solver was called", len(a.rec.calls) == 0)], frees=("self.*",))
