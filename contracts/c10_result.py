"""C10: what a result of an optimization reports."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract
from contracts.c10_layout import block, method, total

R_ = "yaocptool.methods.base.optimizationresult:OptimizationResult"


def points(g, name, N, per, n):
    """A list of N lists of `per` vectors of n entries, any values."""
    v = g.dm(name, g.S.mul(N, g.S.mul(per, n)), inf=False)
    return g.S.seq(N, lambda el: [block(g.S, v, g.S.add(g.S.mul(el, g.S.mul(per, n)), g.S.mul(j, n)), n) for j in range(per)])


@contract("C10.first_control", "C10", R_ + ".first_control")
class _:
    def inputs(g):
        N, nu = g.size("N", lo=1, hi=3), g.size("nu", lo=1, hi=3)
        r = g.new(R_)
        u = points(g, "u", N, g.pick("per", [1, 2, 3]), nu)
        g.put(r, u_data=g.dict({"values": u, "time": g.list([])}))
        return Call(r).also(u=u)

    def body(R, a):
        return R.call(a.self, "first_control"), R.call(a.self, "first_control_parameters")

    def spec(S, a):
        first = S.item(a.u, 0)
        return Expect(result=(S.item(first, 0), first))


@contract("C10.get_variable", "C10", R_ + ".get_variable")
class _:
    """One row of the values of every point of every element, by kind and position or by name."""
    def inputs(g):
        N, n, per = g.size("N", lo=1, hi=3), 3, g.pick("per", [1, 2])
        r = g.new(R_)
        v = {q: points(g, q, N, per, n) for q in ("x", "y", "u")}
        for q in v:
            g.put(r, **{q + "_data": g.dict({"values": v[q], "time": g.list([])}), q + "_names": g.list([q + "_" + c for c in "abc"])})
        return Call(r).also(v=v, N=N, per=per, kind=g.pick("kind", ["x", "y", "u", "z"]), i=g.pick("i", [0, 1, 2]), by_name=g.flag("by_name"))

    def body(R, a):
        if a.by_name:
            return R.call(a.self, "get_variable_by_name", a.kind + "_" + "abc"[a.i])
        return R.call(a.self, "get_variable", a.kind, a.i)

    def spec(S, a):
        if a.kind == "z":
            return Expect(raises=[(Exception, True)])
        pts = a.v[a.kind]
        return Expect(result=S.seq(a.N, lambda el: [S.at(S.item(S.item(pts, el), j), a.i) for j in range(a.per)]))


@contract("C10.to_dataset", "C10", R_ + ".to_dataset", budget=100)
class _:
    """Every value of every variable at the time it belongs to, with the names of the variables."""
    def inputs(g):
        N = g.pick("N", [1, 2, 3])
        n = {"x": g.pick("nx", [0, 1, 2]), "y": g.pick("ny", [0, 2]), "u": g.pick("nu", [0, 1]), "theta_opt": g.pick("nt", [0, 2])}
        dc = g.pick("dc", [1, 2])
        per = {"x": 2, "y": 1, "u": dc, "nu": 1}
        r = g.new(R_, finite_elements=N, degree_control=dc, t_f=g.real("tf"))
        data = {}
        for q in ("x", "y", "u"):
            v = [[g.dm("%s_%d_%d" % (q, el, j), n[q], inf=False) for j in range(per[q])] for el in range(N)]
            t = [[g.real("t%s_%d_%d" % (q, el, j)) for j in range(per[q])] for el in range(N)]
            if q == "x":
                v.append([g.dm("x_end", n[q], inf=False)])
            data[q] = (t + ([[r.t_f]] if q == "x" else []), v)
            g.put(r, **{q + "_data": g.dict({"values": g.list([g.list(e) for e in v]), "time": g.list([g.list(e) for e in t])}),
                        q + "_names": g.list(["%s_%s" % (q, "abc"[i]) for i in range(n[q])])})
        tb = [g.real("tb_%d" % el) for el in range(N + 1)]
        th = [g.dm("th_%d" % el, n["theta_opt"], inf=False) for el in range(N)]
        data["theta_opt"] = ([tb[:-1]], [th])
        g.put(r, time_breakpoints=g.list(tb), theta_opt=g.list(th), theta_opt_names=g.list(["th_%s" % "abc"[i] for i in range(n["theta_opt"])]))
        if g.flag("other"):
            m = g.pick("n_other", [1, 2])
            n["nu"] = m
            v = [[g.dm("o_%d" % el, m, inf=False)] for el in range(N)]
            t = [[g.real("to_%d" % el)] for el in range(N)]
            g.put(r, other_data=g.dict({"nu": g.dict({"values": g.list([g.list(e) for e in v]), "time": g.list([g.list(e) for e in t])})}))
            data["nu"] = (t, v)
        return Call(r).also(data=data, n=n, dc=dc, names={q: ["%s_%s" % (q, "abc"[i]) for i in range(n[q])] for q in ("x", "y", "u")})

    def spec(S, a):
        def post(S, a, ds):
            out = [("entries", S.keys(ds.data) == set(a.data))]
            for q, (t, v) in a.data.items():
                e = S.get(ds.data, q)
                out.append((q + " size", S.eq(e.size, a.n[q])))
                if q in a.names:
                    out.append((q + " names", [S.item(e.names, i) for i in range(a.n[q])] == a.names[q]))
                if a.n[q] == 0:
                    out.append((q + " without data", S.eq(S.n(e.values), 0)))
                    continue
                cols = [c for el in v for c in el]
                times = [c for el in t for c in el]
                out.append((q + " values", S.same(e.values, S.hcat(*cols))))
                out.append((q + " times", S.same(e.time, S.hcat(*[S.mat(w) for w in times]))))
            out.append(("controls of degree one are steps", S.same_str(S.get(ds.data, "u").plot_style, "plot" if a.dc > 1 else "step")))
            return out
        return Expect(result=ANY, post=post)


@contract("C10.result", "C10", "yaocptool.methods.base.solutionmethodsbase:SolutionMethodsBase.create_optimization_result", budget=150)
class _:
    """What a solve reports: the point, value and statistics of the solver; every variable at its times; the parameters with the optimized
    ones in place; the method and the problem. The given parameters stay as they were."""
    def inputs(g):
        S = g.S
        scheme = g.pick("scheme", ["collocation", "multiple-shooting"])
        k = method(g, scheme, degrees=(1, 2), counts=(1, 2, 3))
        t_0, t_f = g.real("t_0"), g.real("t_f")
        g.put(k.o, t_0=t_0, t_f=t_f)
        po, pi = g.select("p_opt", k.p, g.size("n_po", hi=g.upto(k.p, 2)))
        to, ti = g.select("th_opt", k.theta, g.size("n_to", hi=g.upto(k.theta, 2)))
        g.put(k.o, p_opt=po, theta_opt=to)
        n = total(S, k, scheme, S.n(po), S.n(to))[-1]
        raw = g.dict({"x": g.dm("v", n), "f": g.dm("f", 1), "g": g.dm("g", g.size("ng", hi=2)), "stats": g.dict({"success": g.flag("success")})})
        a = {"p": g.dm("pv", S.n(k.p), inf=False), "theta": g.dict({el: g.dm("tv%d" % el, S.n(k.theta), inf=False) for el in range(k.N)}), "x_0": g.dm("x0v", S.n(k.mo.x))}
        return Call(k.me, raw, **a).also(k=k, scheme=scheme, po=po, to=to, pi=pi, ti=ti, raw=raw, h=S.div(S.sub(t_f, t_0), k.N), t_0=t_0, t_f=t_f)

    def spec(S, a):
        k, m, N, o, me = a.k, a.k.mo, a.k.N, a.k.o, a.self
        npo, nto = S.n(a.po), S.n(a.to)
        v = S.get(a.raw, "x")
        col = a.scheme == "collocation"

        def post(S, a, r):
            y, u, e, p, t, _ = total(S, k, a.scheme, npo, nto)
            nx, ny, nu = S.n(m.x), S.n(m.y), S.n(m.u)
            h, t_0 = a.h, a.t_0
            out = [("raw " + q, S.is_same(S.get(r.raw_solution_dict, q), S.get(a.raw, q))) for q in ("x", "f", "g", "stats")]
            out += [("point", S.same(r.raw_decision_variables, v)), ("objective", S.same(r.objective_opt_problem, S.get(a.raw, "f"))),
                    ("statistics", S.is_same(r.stats, S.get(a.raw, "stats"))), ("success", r.success == S.get(S.get(a.raw, "stats"), "success")),
                    ("elements", S.eq(r.finite_elements, N)), ("degree", S.eq(r.degree, k.d)), ("degree of the controls", S.eq(r.degree_control, k.dc)),
                    ("scheme", r.discretization_scheme == a.scheme), ("method", r.method_name == "DirectMethod"), ("name", S.same_str(r.problem_name, o.name)),
                    ("t_0", S.eq(r.t_0, t_0)), ("t_f", S.eq(r.t_f, a.t_f)), ("x_0", S.same(r.x_0, a.x_0)),
                    ("p_opt", S.same(r.p_opt, block(S, v, p, npo))), ("eta", S.same(r.eta, block(S, v, e, S.n(o.eta)))),
                    ("number of parameters", S.eq(S.n(r.p), S.n(m.p)))]
            out += [("optimized parameters", S.forall(npo, lambda i: S.eq(S.at(r.p, a.pi(i)), S.at(v, S.add(p, i))))),
                    ("given parameters", S.forall(S.n(m.p), lambda i: S.Or(S.exists(npo, lambda j: S.eq(a.pi(j), i)), S.eq(S.at(r.p, i), S.at(a.p, i)))))]
            at = lambda start, el, per, j, w: block(S, v, S.add(start, S.add(S.mul(el, S.mul(per, w)), S.mul(j, w))), w)
            grid = lambda el, c: S.add(t_0, S.mul(h, S.add(el, c)))
            nodes = S.nodes
            uc = [0.0] if k.dc == 1 else nodes(k.dc)
            if col:
                xs = [0.0] + nodes(k.d)
                want = {"x": (0, xs), "y": (y, xs[1:]), "u": (u, uc)}
            else:
                want = {"x": (0, [0.0]), "y": (y, [1.0]), "u": (u, uc)}
            for q, (start, pts) in want.items():
                d, w = getattr(r, q + "_data"), {"x": nx, "y": ny, "u": nu}[q]
                vals, times = S.get(d, "values"), S.get(d, "time")
                rows = S.add(N, 1) if q == "x" else N
                out.append((q + ": one list per element", S.eq(S.n(vals), rows)))
                out.append((q + ": one list of times per element", S.eq(S.n(times), S.add(N, 1) if q == "x" and not col else N)))
                out.append((q + " values", S.forall(N, lambda el, vals=vals, start=start, pts=pts, w=w: S.And(
                    S.eq(S.n(S.item(vals, el)), len(pts)), *[S.same(S.item(S.item(vals, el), j), at(start, el, len(pts), j, w)) for j in range(len(pts))]))))
                out.append((q + " times", S.forall(N, lambda el, times=times, pts=pts: S.And(
                    S.eq(S.n(S.item(times, el)), len(pts)), *[S.same(S.mat(S.item(S.item(times, el), j)), S.mat(grid(el, pts[j]))) for j in range(len(pts))]))))
            last = S.item(S.item(S.get(r.x_data, "values"), N), 0)
            end = at(0, S.sub(N, 1), k.d + 1, k.d, nx) if col else at(0, N, 1, 0, nx)
            out += [("final state", S.same(last, end)),
                    ("optimized finite-element parameters", S.forall(N, lambda el: S.same(S.item(r.theta_opt, el), block(S, v, S.add(t, S.mul(el, nto)), nto)))),
                    ("finite-element parameters", S.forall(N, lambda el: S.And(S.eq(S.n(S.get(r.theta, el)), S.n(m.theta)), S.forall(nto, lambda i: S.eq(S.at(S.get(r.theta, el), a.ti(i)), S.at(v, S.add(S.add(t, S.mul(el, nto)), i)))))))]
            return out
        return Expect(result=ANY, post=post, frees=["self.time_breakpoints"])


@contract("C10.is_valid", "C10", R_ + ".is_valid")
class _:
    """A result with elements, degrees, a horizon, break points and an objective is valid; others are rejected."""
    def inputs(g):
        S = g.S
        bad = g.pick("bad", [None, "finite_elements", "degree", "degree_control", "t_0", "t_f", "time_breakpoints", "objective_opt_problem"])
        at = {"finite_elements": 2, "degree": 3, "degree_control": 1, "t_0": g.real("t_0", lo=0), "t_f": g.real("t_f", lo=0),
              "time_breakpoints": g.list([g.real("b%d" % i) for i in range(3)]), "objective_opt_problem": g.dm("f", 1)}
        if bad is not None:
            at[bad] = {"time_breakpoints": lambda: g.list([]), "objective_opt_problem": lambda: None}.get(bad, lambda: -1)()
        return Call(g.new(R_, **at)).also(bad=bad)

    def body(R, a):
        return R.attr(a.self, "is_valid")

    def spec(S, a):
        return Expect(raises=[(Exception, a.bad is not None)], result=True)
