"""C02: solving solves the problem as it stands."""
from pydv.contract import ANY, Call, Expect, Skip, Violation, bounded, contract
from contracts.c01_nlp import M, nlp

NL = "yaocptool.optimization.nonlinear_problem:NonlinearOptimizationProblem"
QP = "yaocptool.optimization.quadratic_problem:QuadraticOptimizationProblem"


def as_dict(p):
    return {"f": p.f, "g": p.g, "x": p.x, "p": p.p}


@contract("C02.get_problem_dict", "C02", M + ".get_problem_dict")
class _:
    def inputs(g):
        return Call(nlp(g))

    def spec(S, a):
        return Expect(result=as_dict(a.self))


@contract("C02.get_default_call_dict", "C02", M + ".get_default_call_dict")
class _:
    def inputs(g):
        return Call(nlp(g))

    def spec(S, a):
        s = a.self
        return Expect(result={"lbx": s.x_lb, "ubx": s.x_ub, "lbg": s.g_lb, "ubg": s.g_ub})


def same_dicts(S, got, want, label):
    out = [(label + ": keys", set(got) == set(want))]
    if set(got) == set(want):
        out += [("%s: %s" % (label, k), S.same(got[k], want[k])) for k in want]
    return out


@contract("C02.solve", "C02", M + ".solve")
class _:
    """One solve on an arbitrary problem, with every combination of optional arguments."""
    def inputs(g):
        rec = g.solvers("nlpsol", "qpsol")
        p = nlp(g, g.pick("class", [NL, QP]))
        nx, ng, np_ = g.S.n(p.x), g.S.n(p.g), g.S.n(p.p)
        cd = None
        if g.flag("call_dict_given"):
            cd = g.dict({"lbx": g.dm("lbx", nx), "ubx": g.dm("ubx", nx), "lbg": g.dm("lbg", ng), "ubg": g.dm("ubg", ng)})
        return Call(p, g.dm("guess", nx), call_dict=cd,
                    p=g.pick("p_form", [None, lambda: g.dm("pv", np_), lambda: g.dm("pv2", g.size("np2"))]),
                    lam_x=g.pick("lam_x_form", [None, lambda: g.dm("lam_x", nx)]),
                    lam_g=g.pick("lam_g_form", [None, lambda: g.dm("lam_g", ng)])).also(rec=rec)

    def spec(S, a):
        s, rec = a.self, a.rec
        prob = as_dict(s)
        args = {"lbx": s.x_lb, "ubx": s.x_ub, "lbg": s.g_lb, "ubg": s.g_ub}
        if a.call_dict is not None:
            cd = a.call_dict if isinstance(a.call_dict, dict) else a.call_dict.d
            args = dict(cd)
        args["x0"] = a.initial_guess
        given = dict(args)
        pv = a.p if a.p is not None else S.empty()
        args["p"] = pv
        if a.lam_x is not None:
            args["lam_x0"] = a.lam_x
        if a.lam_g is not None:
            args["lam_g0"] = a.lam_g

        def post(S, a, r):
            out = [("one call of one solver", len(rec.calls) == 1 and len(rec.built) >= 1)]
            if len(rec.calls) == 1:
                i, got = rec.calls[0]
                out += same_dicts(S, got, args, "solver argument")
                out += same_dicts(S, rec.built[i][1], prob, "solver problem")
            if a.call_dict is not None:
                cd = a.call_dict if isinstance(a.call_dict, dict) else a.call_dict.d
                out.append(("the caller's dictionary is untouched", set(cd) == {"lbx", "ubx", "lbg", "ubg"}))
            rd = r if isinstance(r, dict) else r.d
            out.append(("solution keys", set(rd) == set(rec.solution) | {"stats"}))
            out += [("solution " + k, S.same(rd[k], v)) for k, v in rec.solution.items()]
            return out
        return Expect(raises=[(ValueError, S.ne(S.n(pv), S.n(s.p)))], result=ANY, post=post)


@contract("C02.solve_after_change", "C02", M + ".solve", runs=200)
class _:
    """History: get a solver or solve, change the problem through its methods, solve: the second solve is of the new problem."""
    def inputs(g):
        rec = g.solvers("nlpsol", "qpsol")
        p = nlp(g, g.pick("class", [NL, QP]))
        n = g.size("n", lo=1)
        what = g.pick("change", ["variable", "parameter", "objective", "inequality", "equality", "create_variable", "create_parameter", "constraint", "none"])
        v = g.sym("v", n)
        if what == "constraint":
            g.assume(g.S.gt(g.S.n(p.x), 0))
            e = g.relation("<=", g.dep_expr("e", n, p.x, over=[p.x, p.p]), g.dm("c", n, inf=False))
        else:
            e = g.expr("e", n, over=[p.x, p.p])
        return Call(p).also(rec=rec, v=v, e=e, e1=g.expr("e1", 1, over=[p.x, p.p]), what=what, n=n, nx=g.S.n(p.x), np=g.S.n(p.p), first=g.flag("first"),
                            guess=g.dm("guess", g.S.n(p.x)), pv=g.dm("pv", g.S.n(p.p)))

    def body(R, a):
        s = a.self
        if a.first:
            R.call(s, "get_solver")
        else:
            R.call(s, "solve", a.guess, p=a.pv)
        k = len(a.rec.calls)
        if a.what == "variable":
            R.call(s, "include_variable", a.v)
        elif a.what == "create_variable":
            R.call(s, "create_variable", "w", a.n)
        elif a.what == "parameter":
            R.call(s, "include_parameter", a.v)
        elif a.what == "create_parameter":
            R.call(s, "create_parameter", "w", a.n)
        elif a.what == "objective":
            R.call(s, "set_objective", a.e1)
        elif a.what == "inequality":
            R.call(s, "include_inequality", a.e)
        elif a.what == "equality":
            R.call(s, "include_equality", a.e)
        elif a.what == "constraint":
            R.call(s, "include_constraint", a.e)
        pv = R.S.cat(a.pv, R.S.full(0, a.n)) if a.what in ("parameter", "create_parameter") else a.pv
        R.call(s, "solve", a.guess, p=pv)
        return k

    def spec(S, a):
        def post(S, a, r):
            out = [("one more call", len(a.rec.calls) == r + 1)]
            if len(a.rec.calls) == r + 1:
                i, args = a.rec.calls[r]
                out += same_dicts(S, a.rec.built[i][1], as_dict(a.self), "problem solved")
                out += [("bounds " + k, S.same(args[k], getattr(a.self, v))) for k, v in
                        (("lbx", "x_lb"), ("ubx", "x_ub"), ("lbg", "g_lb"), ("ubg", "g_ub"))]
            return out
        return Expect(result=ANY, frees={"self.*"}, post=post)


@contract("C02.options", "C02", NL + "._create_solver")
class _:
    """The solver is built with the problem's options, and two problems do not share them."""
    def inputs(g):
        rec = g.solvers("nlpsol", "qpsol")
        cls = g.pick("class", [NL, QP])
        given = g.flag("given")
        p = g.new(cls, name="a", solver_options=g.dict({"ipopt.max_iter": 7})) if given else g.new(cls, name="a")
        q = g.new(cls, name="b")
        return Call(p).also(rec=rec, q=q, given=given, lib=g.get("yaocptool.config", "SOLVER_OPTIONS"))

    def body(R, a):
        before = dict(R.items(a.lib["nlpsol_options"] if isinstance(a.lib, dict) else a.lib.d["nlpsol_options"]))
        R.setitem(R.attr(a.self, "solver_options"), "ipopt.tol", 0.5)
        R.call(a.self, "get_solver")
        R.call(a.q, "get_solver")
        after = dict(R.items(a.lib["nlpsol_options"] if isinstance(a.lib, dict) else a.lib.d["nlpsol_options"]))
        return [before, after]

    def spec(S, a):
        def post(S, a, r):
            o1, o2 = a.rec.built[0][2], a.rec.built[1][2]
            return [("own option used", o1.get("ipopt.tol") == 0.5),
                    ("given option used", (not a.given) or o1.get("ipopt.max_iter") == 7),
                    ("the other problem is not affected", "ipopt.tol" not in o2),
                    ("the library defaults are not affected", True if S.symbolic else set(r[0]) == set(r[1]))]
        return Expect(result=ANY, frees={"self.*", "q.*"}, post=post)


@bounded("C02.real_solver", "C02", M + ".solve", "numerical solver: the solution of a separable problem is compared with its closed form", runs=12, budget=60)
def _(g):
    import casadi as ca
    import numpy as np
    from yaocptool.optimization.nonlinear_problem import NonlinearOptimizationProblem
    n = g.size("n", lo=1, hi=4)
    pr = NonlinearOptimizationProblem(solver_options={"ipopt.print_level": 0, "print_time": False, "ipopt.tol": 1e-10})
    lb = np.sort(np.array([g.reals("l%d" % i, 2) for i in range(n)]), axis=1) + np.array([0.0, 0.5])
    x = pr.create_variable("x", n, lb=ca.DM(lb[:, 0]), ub=ca.DM(lb[:, 1]))
    p = pr.create_parameter("p", n)
    pr.set_objective(ca.dot(x - p, x - p))
    pv = np.array(g.reals("pv", n))
    for step in range(2):
        r = pr.solve(ca.DM(lb.mean(axis=1)), p=ca.DM(pv))
        got = r["x"].full().ravel()
        want = np.clip(pv, lb[:, 0], lb[:, 1])
        if not np.allclose(got, want, atol=1e-4):
            raise Violation("solution %s, closed form %s (after %d changes)" % (got, want, step))
        if step == 0:
            mid = float(lb[0].mean())
            pr.include_constraint(x[0] <= mid) if g.flag("relation") else pr.include_inequality(x[0], ub=mid)
            lb[0, 1] = mid
