"""C14: linearization, equilibria and the matrix exponential, for every equation (as functions of their variables) of the sizes listed."""
from pydv.contract import ANY, Call, Expect, NS, contract

SM = "yaocptool.modelling.system_model:SystemModel"
U = "yaocptool.util.util:"


def system(g, nx, ny, nu, time=True):
    m = g.new(SM, name="m")
    x = g.call(m, "create_state", "x", nx)
    y = g.call(m, "create_algebraic_variable", "y", ny) if ny else g.S.empty("SX")
    u = g.call(m, "create_control", "u", nu) if nu else g.S.empty("SX")
    every = [x, y, u] + ([m.t, m.tau] if time else [])
    f, a = g.fexpr("f", nx, every, zeros=True), g.fexpr("a", ny, every, zeros=True)
    g.call(m, "include_equations", ode=f, alg=a)
    return NS(dict(m=m, x=x, y=y, u=u, f=f, a=a, every=every, t=m.t, tau=m.tau))


@contract("C14.linear_model", "C14", SM + ".linearize", budget=100)
class _:
    """x' = A x + B u with the derivatives of the equations at the point."""
    def inputs(g):
        nx, nu = g.pick("sizes", [(1, 1), (1, 2), (2, 1), (3, 2), (2, 3), (2, 0)])
        k = system(g, nx, 0, nu, time=False)
        return Call(k.m, g.dm("x_bar", nx, inf=False), g.dm("u_bar", nu, inf=False)).also(k=k, nx=nx, nu=nu, names=None)

    def spec(S, a):
        k = a.k

        def post(S, a, r):
            out = [("states", S.eq(S.n(r.x), a.nx)), ("controls", S.eq(S.n(r.u), a.nu)), ("no algebraic variables", S.eq(S.n(r.y), 0)), ("equations", S.eq(S.n(r.ode), a.nx)),
                   ("no algebraic equations", S.eq(S.n(r.alg), 0))]
            old, new = S.cat(k.x, k.u), S.cat(a.x_bar, a.u_bar)
            for i in range(a.nx):
                e = S.sl(k.f, i, i + 1)
                want = None
                for sym, v, n in ((k.x, r.x, a.nx), (k.u, r.u, a.nu)):
                    for j in range(n):
                        d = S.mul(S.subst(S.jac(e, S.elem(sym, j)), old, new), S.elem(v, j))
                        want = d if want is None else S.add(want, d)
                out.append(("equation %d" % i, S.same(S.sl(r.ode, i, i + 1), want)))
            return out
        return Expect(result=ANY, post=post)


@contract("C14.equilibrium_equations", "C14", SM + ".find_equilibrium", budget=100)
class _:
    """The equations that are solved are those of the model, at t_0, and the additional ones; the solution is handed out as x, y, u."""
    def inputs(g):
        rec = g.rootfinders()
        nx, ny, nu = g.pick("sizes", [(1, 0, 0), (1, 0, 1), (2, 1, 1), (1, 2, 2), (3, 1, 2)])
        k = system(g, nx, ny, nu)
        eqs = g.fexpr("more", nu, k.every, zeros=True)
        form = g.pick("form", ["vector", "list"]) if nu else "vector"
        given = g.list([g.S.elem(eqs, i) for i in range(nu)]) if form == "list" else eqs
        kw = {}
        if g.flag("t_0 given"):
            kw["t_0"] = g.real("t_0")
        guess = g.pick("guess", [None, "dm", "list"])
        if guess is not None:
            v = g.dm("guess_v", nx + ny + nu, inf=False)
            kw["guess"] = v if guess == "dm" else g.list([g.S.at(v, i) for i in range(nx + ny + nu)])
        else:
            v = g.S.full(1, nx + ny + nu)
        opts = g.flag("options")
        if opts:
            kw["rootfinder_options"] = g.dict({"nlpsol": "ipopt", "mine": 3})
        P = g.sym("P", nx + ny + nu, "SX")
        return Call(k.m, given, **kw).also(k=k, rec=rec, n=(nx, ny, nu), eqs=eqs, v=v, opts=opts, P=P)

    def spec(S, a):
        k, rec = a.k, a.rec
        nx, ny, nu = a.n

        def post(S, a, r):
            out = [("one root finding", len(rec.built) == 1 and len(rec.calls) == 1)]
            if not out[0][1]:
                return out
            plugin, f, opts = rec.built[0]
            _, arg, root = rec.calls[0]
            got = S.evaluate(f, a.P)
            at = lambda e: S.subst(e, S.cat(k.x, *([k.y] if ny else []), *([k.u] if nu else []), k.t, k.tau), S.cat(a.P, S.mat(a.t_0 if a.t_0 is not None else 0.0), S.mat(0.0)))
            want = [at(k.f)] + ([at(k.a)] if ny else []) + ([at(a.eqs)] if nu else [])
            out += [("equations", S.same(got, S.cat(*want))), ("guess", S.same(S.mat(arg), a.v)), ("method", plugin == "nlpsol")]
            if a.opts:
                out.append(("options", opts.get("mine") == 3 and opts.get("nlpsol") == "ipopt"))
            for i, (q, lo, hi) in enumerate((("x", 0, nx), ("y", nx, nx + ny), ("u", nx + ny, nx + ny + nu))):
                out.append((q, S.same(S.item(r, i), S.sl(root, lo, hi))))
            return out
        return Expect(result=ANY, post=post)


@contract("C14.matrix_exponential", "C14", U + "expm", budget=60)
class _:
    """Column j is where x' = A x takes the unit vector j from time 0 to 1."""
    def inputs(g):
        rec = g.integrators()
        n = g.pick("n", [1, 2, 3, 4])
        A = g.matrix("A", n, n)
        return Call(None, A).also(rec=rec, n=n, A=A, X=g.sym("X", n))

    def spec(S, a):
        def post(S, a, r):
            n, steps = a.n, a.rec.steps
            out = [("one integration per column", len(steps) == n), ("shape", S.And(S.eq(S.rows(r), n), S.eq(S.cols(r), n)))]
            if len(steps) != n:
                return out
            for j, st in enumerate(steps):
                lab = "column %d: " % j
                out += [(lab + "times", S.And(S.eq(st.t0, 0), S.eq(st.tf, 1))), (lab + "start", S.same(st.args["x0"], S.cat(*[S.mat(1.0 if i == j else 0.0) for i in range(n)])))]
                got = S.apply([st.dae["x"], st.dae["p"]], st.dae["ode"], [a.X, st.args["p"]])
                out.append((lab + "equations", S.same(got, S.mtimes(a.A, a.X))))
                out.append((lab + "result", S.same(S.col(r, j), st.xf)))
            return out
        return Expect(result=ANY, post=post)
