"""C12: what a solution method passes to its nonlinear program."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract
from contracts.c06_ocp import ocp

D = "yaocptool.methods.classic.directmethod:DirectMethod"
NL = "yaocptool.optimization.nonlinear_problem:NonlinearOptimizationProblem"


@contract("C12.call_solver", "C12", D + ".call_solver", budget=150)
class _:
    """The nonlinear program is called with [p; theta of each element; x_0; last control] in this order."""
    def inputs(g):
        k = ocp(g, small=True, guess=False)
        N = g.size("N", lo=1, hi=3)
        vary = g.pick("vary", ["last", "guess"])
        kw = {}
        if g.flag("fixed_x0"):
            kw["initial_condition_as_parameter"] = False
        last = g.pick("last", ["none", "problem", "call", "both", "missing", "ignored"]) if vary == "last" else "none"
        nu, nx, np_, nt = g.S.n(k.mo.u), g.S.n(k.mo.x), g.S.n(k.mo.p), g.S.n(k.mo.theta)
        if last in ("problem", "both"):
            g.put(k.o, last_u=g.dm("last_u_p", nu))
        if last in ("call", "missing"):
            kw["last_control_as_parameter"] = True
        m = g.new(D, k.o, finite_elements=N, **kw)
        sol = g.dict({"x": g.dm("sol", g.size("nsol", hi=2))})
        pr = g.new(NL)
        rec = g.stub(pr, "solve", result=sol)
        guess = g.dm("guess", g.size("ng", hi=2))
        disc = m.discretizer
        r1 = g.stub(disc, "create_initial_guess", result=guess)
        r2 = g.stub(disc, "create_initial_guess_with_simulation", result=guess)
        g.put(m, opt_problem=pr)
        a = {}
        how = g.pick("guess_form", ["given", "dict", "simulation", "problem_info"]) if vary == "guess" else "given"
        if how == "given":
            a["initial_guess"] = g.dm("given", g.size("ng2", hi=2))
        elif how == "dict":
            a["initial_guess_dict"] = g.dict({q: g.dm("gd_" + q, g.size("n_" + q, hi=2)) for q in ("x", "lam_x", "lam_g")})
        else:
            g.put(m, initial_guess_heuristic=how)
        a["p"] = g.dm("pv", np_)
        a["theta"] = g.dmdict("th", N, nt)
        if g.flag("x0_given"):
            a["x_0"] = g.dm("x0v", g.size("nx0", hi=3))
        if last in ("call", "both", "ignored"):
            a["last_u"] = g.dm("last_u_c", nu)
        return Call(m, **a).also(rec=rec, how=how, last=last, N=N, r1=r1, r2=r2, guess=guess, sol=sol, kw=kw, ocp=k.o)

    def spec(S, a):
        s, o = a.self, a.ocp
        x0 = a.x_0 if a.x_0 is not None else o.x_0
        par = [a.p, S.stack(a.N, lambda i: S.get(a.theta, i))]
        if "initial_condition_as_parameter" not in a.kw:
            par.append(x0)
        lu = a.last_u if a.last_u is not None else o.last_u
        if a.last in ("problem", "call", "both"):
            par.append(lu)
        want = S.cat(*par)

        def post(S, a, r):
            out = [("one call", len(a.rec) == 1)]
            if len(a.rec) != 1:
                return out
            args = a.rec[0][1]
            pos = a.rec[0][0]
            g = args.get("initial_guess", pos[0] if pos else None)
            d = a.initial_guess_dict
            if a.how == "given":
                out.append(("the given guess", S.same(g, a.initial_guess)))
            elif a.how == "dict":
                d = d if isinstance(d, dict) else d.d
                out += [("the given guess", S.same(g, d["x"])), ("the given multipliers", S.And(S.same(args["lam_x"], d["lam_x"]), S.same(args["lam_g"], d["lam_g"])))]
            else:
                out += [("the guess of the scheme", S.same(g, a.guess)),
                        ("the guess asked for", (len(a.r2), len(a.r1)) == ((1, 0) if a.how == "simulation" else (0, 1)))]
            if a.how != "dict":
                out.append(("no multipliers", args.get("lam_x") is None and args.get("lam_g") is None))
            out.append(("parameter vector", S.same(args["p"], want)))
            return out
        return Expect(raises=[(Exception, S.Or(S.ne(S.n(x0), S.n(o.model.x)), a.last == "missing"))], result=ANY, post=post)
