"""C06: bounds, guesses and initial values of an optimal control problem stay entry by entry with its variables; costs and
constraints are what was put in.  C07 (problems): merging and connecting."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract
from contracts.c04_model import SM, model
from contracts.c07_compose import VECS, joined

OCP = "yaocptool.modelling.ocp:OptimalControlProblem"
EXPRS = ("L", "V", "S", "h", "h_initial", "h_final", "g_eq", "g_ineq")


def ocp(g, tag="", guess=True, hi=2, least={}, t_0=0.0, t_f=1.0, small=False):
    """A problem in an arbitrary consistent state: a bound pair per state, algebraic variable, control (value and move),
    optimization parameter; optional guesses; arbitrary costs and constraints."""
    k = model(g, tag, hi=hi, least=least)
    o = g.new(OCP, k.m, x_0=g.dm(tag + "x_0", g.S.n(k.m.x)), t_0=t_0, t_f=t_f)
    sz = {"x": g.S.n(k.m.x), "y": g.S.n(k.y), "u": g.S.n(k.u)}
    at = {}
    for v, n in sz.items():
        at[v + "_min"], at[v + "_max"] = g.dm(tag + v + "_min", n), g.dm(tag + v + "_max", n)
    at["delta_u_min"], at["delta_u_max"] = g.dm(tag + "du_min", sz["u"]), g.dm(tag + "du_max", sz["u"])
    if guess:
        at["y_guess"] = g.pick(tag + "y_guess_form", [None, lambda: g.dm(tag + "y_guess", sz["y"])])
        at["u_guess"] = g.pick(tag + "u_guess_form", [None, lambda: g.dm(tag + "u_guess", sz["u"])])
    for e in ("L", "V", "S"):
        at[e] = g.expr(tag + e, 1, over=k.over, kind="SX")
    for e in ("h", "h_initial", "h_final", "g_eq", "g_ineq"):
        if not small or e in ("h_initial", "g_eq"):
            at[e] = g.expr(tag + e, g.size(tag + "n_" + e, hi=hi), over=k.over, kind="SX")
    g.put(o, **at)
    return NS(dict(k.__dict__, o=o, mo=o.model))


def call(k, *args, **kw):
    return Call(k.o, *args, **kw).also(k=k, model=k.mo, base=k.m)


def form(g, name, n):
    """A bound, guess or value of an entry with n scalars: absent, a vector, a list of numbers, or of another size."""
    def other():
        m = g.size(name + "_size", hi=2)
        g.assume(g.S.ne(m, n))
        return g.dm(name + "_other", m)
    return g.pick(name + "_form", [None, lambda: g.dm(name, n), lambda: g.reals(name + "_l", n), other])


def bad(S, v, n):
    return S.eq(0, 1) if v is None else S.ne(S.n(v), n)


@contract("C06.include_state", "C06", OCP + ".include_state", budget=120)
class _:
    def inputs(g):
        k = ocp(g, guess=False, small=True)
        n = g.size("n", lo=1, hi=2)
        v = g.sym("v", n, "SX")
        one = g.pick("one", ["x_0", "x_min", "x_max"])
        val = form(g, one, n)
        kw = {one: val}
        if one != "x_0":
            kw["x_0"] = g.dm("x_0n", n)
        if g.flag("h_given"):
            kw["h_initial"] = g.expr("hv", g.size("nh", hi=2), over=k.over + [v], kind="SX")
        return call(k, v, g.pick("ode_form", [None, lambda: g.expr("fv", n, over=k.over + [v], kind="SX")]),
                    x_0_sym=g.pick("sym_form", [None, lambda: g.sym("v0", n, "SX")]), **kw)

    def spec(S, a):
        s, n, m = a.self, S.n(a.var), a.self.model
        nx, x0 = S.n(m.x), m.x_0
        none = a.x_0 is None and a.h_initial is None
        old_h = s.h_initial
        new = lambda: S.sl(m.x_0, nx, S.add(nx, n))
        if a.h_initial is not None:
            h = S.cat(old_h, a.h_initial)
        elif a.x_0 is not None:
            h = lambda r: S.cat(old_h, S.vmap(n, lambda i: S.sub(S.at(new(), i), S.at(a.var, i)), kind="SX"))
        else:
            h = old_h
        eff = {} if none else {
            "self.model.x": S.cat(m.x, a.var), "self.model.x_0": (lambda r: S.cat(x0, new())) if a.x_0_sym is None else S.cat(x0, a.x_0_sym),
            "self.model.ode": m.ode if a.ode is None else S.cat(m.ode, a.ode), "self.h_initial": h,
            "self.x_0": S.cat(s.x_0, S.full(0, n) if a.x_0 is None else a.x_0),
            "self.x_min": S.cat(s.x_min, S.full(-S.inf, n) if a.x_min is None else a.x_min),
            "self.x_max": S.cat(s.x_max, S.full(S.inf, n) if a.x_max is None else a.x_max)}
        return Expect(raises=[(Exception, S.Or(none, bad(S, a.x_0, n), bad(S, a.x_min, n), bad(S, a.x_max, n)))], result=ANY,
                      effects=eff, watch=["self.model.ode"],
                      post=lambda S, a, r: [("one initial-value symbol per state", S.eq(S.n(m.x_0), S.n(m.x)))])


@contract("C06.include_algebraic", "C06", OCP + ".include_algebraic", budget=120)
class _:
    def inputs(g):
        k = ocp(g, small=True)
        n = g.size("n", lo=1, hi=2)
        v = g.sym("v", n, "SX")
        one = g.pick("one", ["y_min", "y_max", "y_guess"])
        return call(k, v, g.pick("alg_form", [None, lambda: g.expr("fv", g.size("na", hi=2), over=k.over + [v], kind="SX")]), **{one: form(g, one, n)})

    def spec(S, a):
        s, n, m = a.self, S.n(a.var), a.self.model
        eff = {"self.model.y": S.cat(m.y, a.var), "self.model.alg": m.alg if a.alg is None else S.cat(m.alg, a.alg),
               "self.y_min": S.cat(s.y_min, S.full(-S.inf, n) if a.y_min is None else a.y_min),
               "self.y_max": S.cat(s.y_max, S.full(S.inf, n) if a.y_max is None else a.y_max)}
        post = None
        if s.y_guess is not None:
            eff["self.y_guess"] = S.cat(s.y_guess, S.full(0, n) if a.y_guess is None else a.y_guess)
        elif a.y_guess is not None:
            old = S.n(m.y)
            post = lambda S, a, r: [("a guess has one entry per variable", True if s.y_guess is None else S.eq(S.n(s.y_guess), S.n(m.y))),
                                    ("the first guess is kept", S.Implies(S.eq(old, 0), False if s.y_guess is None else S.same(s.y_guess, a.y_guess)))]
        return Expect(raises=[(ValueError, S.Or(bad(S, a.y_min, n), bad(S, a.y_max, n), bad(S, a.y_guess, n)))], effects=eff, post=post,
                      frees={"self.y_guess"} if post else (), watch=["self.model.ode"])


@contract("C06.include_control", "C06", OCP + ".include_control", budget=150)
class _:
    def inputs(g):
        k = ocp(g, small=True)
        n = g.size("n", lo=1, hi=3)
        v = g.sym("v", n, "SX")
        one = g.pick("one", ["u_min", "u_max", "delta_u_min", "delta_u_max", "u_guess"])
        f = g.pick("form", ["none", "vector", "list", "scalar", "other"])
        val = None
        if f == "vector":
            val = g.dm("val", n)
        elif f == "list":
            val = g.reals("val_l", n)
        elif f == "scalar":
            val = g.pick("scalar_form", [lambda: g.real("val_r"), lambda: g.dm("val_1", 1)])
        elif f == "other":
            q = g.size("q", lo=2, hi=4)
            g.assume(g.S.ne(q, n))
            val = g.dm("val_o", q)
        return call(k, v, **{one: val})

    def spec(S, a):
        s, n, m = a.self, S.n(a.var), a.self.model
        names = ("u_min", "u_max", "delta_u_min", "delta_u_max")
        v = {q: None if getattr(a, q) is None else S.fill(getattr(a, q), n) for q in names}
        eff = {"self." + q: S.cat(getattr(s, q), S.full(-S.inf if q.endswith("min") else S.inf, n) if v[q] is None else v[q]) for q in names}
        eff.update({"self.model.u": S.cat(m.u, a.var), "self.model.u_par": S.cat(m.u_par, a.var), "self.model.u_expr": S.cat(m.u_expr, a.var)})
        g0 = a.u_guess
        missing = g0 is None and s.u_guess is not None
        errs = [bad(S, v[q], n) for q in names] + [bad(S, g0, n), missing]
        post, frees = None, ()
        if not missing and g0 is not None:
            old_g, old_n = s.u_guess, S.n(m.u)
            frees = {"self.u_guess"}

            def post(S, a, r):
                now = s.u_guess
                out = [("a guess has one entry per control", True if now is None else S.eq(S.n(now), S.n(m.u))),
                       ("the guess of the first controls is kept", S.Implies(S.eq(old_n, 0), False if now is None else S.same(now, g0)))]
                if old_g is not None:
                    out.append(("guesses are kept in order", False if now is None else S.same(now, S.cat(old_g, g0))))
                return out
        return Expect(raises=[(ValueError, S.Or(*errs))], effects=eff, watch=["self.model.ode"], post=post, frees=frees)


@contract("C06.optimization_parameters", "C06", OCP + ".include_optimization_parameter", budget=120)
class _:
    """Parameters and finite-element parameters to be optimized: their bounds, in the order they were declared."""
    def inputs(g):
        k = ocp(g, guess=False, small=True)
        kind = g.pick("kind", ["p", "theta"])
        how = g.pick("how", ["include", "set"])
        n0 = g.size("n0", hi=2)
        w = g.sym("w", n0, "SX")
        g.call(k.o, "include_optimization_" + ("parameter" if kind == "p" else "theta"), w, g.dm("w_min", n0), g.dm("w_max", n0))
        n = g.size("n", lo=1, hi=2)
        v = g.sym("v", n, "SX") if how == "include" else getattr(k, kind)
        n = g.S.n(v)
        lo = g.pick("lo_form", [None, lambda: g.dm("lo", n)])
        hi = g.pick("hi_form", [None, lambda: g.dm("hi", n), lambda: g.dm("hi_other", g.size("hi_size", hi=2))])
        return call(k).also(kind=kind, how=how, v=v, lo=lo, hi=hi)

    def body(R, a):
        if a.how == "include":
            R.call(a.self, "include_optimization_" + ("parameter" if a.kind == "p" else "theta"), a.v, a.lo, a.hi)
        elif a.kind == "p":
            R.call(a.self, "set_parameter_as_optimization_parameter", a.v, a.lo, a.hi)
        else:
            R.call(a.self, "set_theta_as_optimization_theta", a.v, a.lo, a.hi)

    def spec(S, a):
        s, n, q = a.self, S.n(a.v), a.kind + "_opt"
        eff = {"self." + q: S.cat(getattr(s, q), a.v),
               "self.%s_min" % q: S.cat(getattr(s, q + "_min"), S.full(-S.inf, n) if a.lo is None else a.lo),
               "self.%s_max" % q: S.cat(getattr(s, q + "_max"), S.full(S.inf, n) if a.hi is None else a.hi)}
        if a.how == "include":
            eff["self.model." + a.kind] = S.cat(getattr(s.model, a.kind), a.v)
        return Expect(raises=[(ValueError, S.Or(bad(S, a.lo, n), bad(S, a.hi, n)))], effects=eff, result=ANY, watch=["self.model.ode"],
                      frees={"raise:model." + a.kind})


@contract("C06.optimization_indices", "C06", OCP + ".get_p_opt_indices")
class _:
    """The positions of the optimized parameters among all parameters, in the order they were declared."""
    def inputs(g):
        k = ocp(g, guess=False, small=True)
        kind = g.pick("kind", ["p", "theta"])
        sel, ix = g.select("ix", getattr(k, kind), g.size("m", hi=2))
        g.put(k.o, **{kind + "_opt": sel})
        return call(k).also(kind=kind, sel=sel, ix=ix)

    def body(R, a):
        return R.call(a.self, "get_%s_opt_indices" % a.kind)

    def spec(S, a):
        return Expect(result=ANY, watch=["self.model.ode"], post=lambda S, a, r: [
            ("one position each", S.eq(S.n(r), S.n(a.sel))),
            ("the right one", S.forall(S.n(a.sel), lambda j: S.eq(S.item(r, j), a.ix(j))))])


@contract("C06.time_constraints", "C06", OCP + ".include_time_inequality", budget=90)
class _:
    """A path constraint is appended with one evaluation time per scalar row; the others are appended where they say."""
    def inputs(g):
        k = ocp(g, guess=False)
        which = g.pick("which", ["time_inequality", "time_equality", "initial_time_equality", "final_time_equality", "equality"])
        n = g.size("n", hi=2)
        e = g.expr("e", n, over=k.over, kind="SX")
        e2 = g.expr("e2", g.size("n2", hi=2), over=k.over, kind="SX")
        lst = g.flag("list")
        when = g.pick("when", ["default", "start", "end"]) if which.startswith("time") else None
        return call(k).also(which=which, e=g.list([e, e2]) if lst else e, whole=g.S.cat(e, e2) if lst else e, when=when)

    def body(R, a):
        if a.when is None:
            R.call(a.self, "include_" + a.which, a.e)
        else:
            R.call(a.self, "include_" + a.which, a.e, when=a.when)

    def spec(S, a):
        s = a.self
        q = {"time_inequality": "g_ineq", "time_equality": "g_eq", "initial_time_equality": "h_initial", "final_time_equality": "h_final", "equality": "h"}[a.which]
        eff = {"self." + q: S.cat(getattr(s, q), a.whole)}
        post, frees = None, ()
        if a.when is not None:
            t, n0 = "time_" + q, S.n(getattr(s, "time_" + q))
            frees = {"self." + t}

            def post(S, a, r):
                now = getattr(s, t)
                return [("one time per row", S.eq(S.n(now), S.add(n0, S.n(a.whole)))),
                        ("the time asked for", S.forall(S.n(a.whole), lambda i: S.same_str(S.item(now, S.add(n0, i)), a.when)))]
        return Expect(effects=eff, post=post, frees=frees, watch=["self.model.ode"])


@contract("C06.remove_algebraic", "C06", OCP + ".remove_algebraic", budget=120)
class _:
    """Any selection of the algebraic variables, in any order: exactly their bounds and guesses go."""
    def inputs(g):
        k = ocp(g, small=True)
        sel, ix = g.select("ix", k.y, g.size("m", hi=2))
        foreign = g.sym("foreign", 1, "SX")
        g.avoid(k.alg, foreign)
        return call(k, sel, g.pick("eq_form", [None, lambda: foreign]))

    def spec(S, a):
        s, m = a.self, a.self.model
        y0 = m.y
        keep = lambda i: S.Not(S.exists(S.n(a.var), lambda j: S.same_sym(y0, i, a.var, j)))
        eff = {"self.model.y": S.keep(y0, keep), "self.y_min": S.keep(s.y_min, keep), "self.y_max": S.keep(s.y_max, keep)}
        if s.y_guess is not None:
            eff["self.y_guess"] = S.keep(s.y_guess, keep)
        return Expect(raises=[(ValueError, S.Or(S.eq(S.n(a.var), 0), a.eq is not None))], effects=eff if a.eq is None else {}, watch=["self.model.ode"])


@contract("C06.remove_control", "C06", OCP + ".remove_control", budget=120)
class _:
    def inputs(g):
        k = ocp(g, small=True)
        sel, ix = g.select("ix", k.u, g.size("m", hi=2))
        return call(k, sel)

    def spec(S, a):
        s, m = a.self, a.self.model
        u0 = m.u
        keep = lambda i: S.Not(S.exists(S.n(a.var), lambda j: S.same_sym(u0, i, a.var, j)))
        left = S.keep(u0, keep)
        eff = {"self.model.u": left, "self.model.u_par": left, "self.model.u_expr": left}
        for q in ("u_min", "u_max", "delta_u_min", "delta_u_max") + (("u_guess",) if s.u_guess is not None else ()):
            eff["self." + q] = S.keep(getattr(s, q), keep)
        return Expect(raises=[(ValueError, S.eq(S.n(a.var), 0))], effects=eff, watch=["self.model.ode"])


@contract("C06.replace_variable", ["C05", "C06"], OCP + ".replace_variable", budget=120)
class _:
    """Replacing reaches every cost, constraint and equation of the problem."""
    def inputs(g):
        k = ocp(g, guess=False)
        which = g.pick("which", ["u", "p", "x1", "t", "two"])
        old = {"t": lambda: k.m.t, "two": lambda: g.S.cat(k.p, k.u)}.get(which, lambda: getattr(k, which))()
        same = g.flag("same_size")
        n = g.S.n(old) if same else g.size("n")
        if not same:
            g.assume(g.S.ne(n, g.S.n(old)))
        new = g.expr("r", n, over=k.over, kind="SX")
        lst = g.flag("list")
        return call(k, g.list([old]) if lst else old, g.list([new]) if lst else new).also(same=same, old=old, new=new)

    def spec(S, a):
        s = a.self
        eff = {"self." + q: S.subst(getattr(s, q), a.old, a.new) for q in EXPRS} if a.same else {}
        if a.same:
            eff.update({"self.model." + q: S.subst(getattr(s.model, q), a.old, a.new) for q in ("ode", "alg", "u_expr")})
        return Expect(raises=[(ValueError, S.ne(S.n(a.old), S.n(a.new)))], effects=eff, watch=["self.model.ode"])


@contract("C06.parametrize_control", ["C05", "C06"], OCP + ".parametrize_control", budget=120)
class _:
    """The problem's costs and constraints see the parametrized control too."""
    def inputs(g):
        k = ocp(g, guess=False)
        sel, ix = g.select("ix", k.u, g.size("m", lo=1, hi=2))
        up = g.sym("up", g.size("nup"), "SX")
        r = g.expr("r", g.S.n(sel), over=[v for v in k.over if v is not k.u] + [up], kind="SX")
        g.avoid(r, k.u)
        return call(k, sel, r, up)

    def spec(S, a):
        s, m = a.self, a.self.model
        hit = lambda v, i: S.exists(S.n(a.u), lambda j: S.same_sym(v, i, a.u, j))
        up0 = m.u_par
        eff = {"self." + q: S.subst(getattr(s, q), a.u, a.expr) for q in EXPRS}
        eff.update({"self.model." + q: S.subst(getattr(m, q), a.u, a.expr) for q in ("ode", "alg", "u_expr")})
        eff["self.model.u_par"] = S.cat(S.keep(up0, lambda i: S.Not(hit(up0, i))), a.u_par)
        return Expect(effects=eff, watch=["self.model.ode"])


@contract("C07.ocp_connect", ["C06", "C07"], OCP + ".connect", budget=150)
class _:
    """Connecting moves the bounds and guesses of the controls to the algebraic variables they become."""
    def inputs(g):
        g.track_symbols()
        k = ocp(g)
        m = g.size("m", hi=2)
        u, iu = g.select("iu", k.u, m)
        same = g.flag("same_size")
        rep = g.flag("replace") if same else False
        if not same:
            n = g.size("n", hi=2)
            g.assume(g.S.ne(n, m))
        y, iy = g.select("iy", k.y, m if same else n)
        return call(k, u, y, replace=rep).also(same=same, rep=rep, iu=iu)

    def spec(S, a):
        s, m = a.self, a.self.model
        eff = {}
        u0, n = m.u, S.n(a.u)
        keep = lambda i: S.Not(S.exists(n, lambda j: S.same_sym(u0, i, a.u, j)))
        take = lambda v: S.vmap(n, lambda j: S.at(v, a.iu(j)), kind="DM")
        if a.same:
            left = S.keep(u0, keep)
            eff = {"self.model.u": left, "self.model.u_par": left, "self.model.u_expr": left}
            if a.rep:
                eff.update({"self.model." + q: S.subst(getattr(m, q), a.u, a.y) for q in ("ode", "alg")})
                eff.update({"self." + q: S.subst(getattr(s, q), a.u, a.y) for q in EXPRS})
            else:
                eff.update({"self.model.y": S.cat(m.y, a.u), "self.model.alg": S.cat(m.alg, S.vmap(n, lambda i: S.sub(S.at(a.u, i), S.at(a.y, i)), kind="SX")),
                            "self.y_min": S.cat(s.y_min, take(s.u_min)), "self.y_max": S.cat(s.y_max, take(s.u_max))})
                if s.y_guess is not None:
                    eff["self.y_guess"] = S.cat(s.y_guess, S.full(0, n) if s.u_guess is None else take(s.u_guess))
            for q in ("u_min", "u_max", "delta_u_min", "delta_u_max") + (("u_guess",) if s.u_guess is not None else ()):
                eff["self." + q] = S.keep(getattr(s, q), keep)
        return Expect(raises=[(ValueError, S.Or(not a.same, S.eq(n, 0)))], effects=eff, watch=["self.model.ode"])


@contract("C07.ocp_merge", ["C06", "C07"], OCP + ".merge", budget=200)
class _:
    """A merged problem has the variables, bounds, guesses and constraints of all, in order, and the sum of the costs."""
    def inputs(g):
        what = g.pick("what", ["problem", "y_guess", "u_guess", "time"])
        g.track_symbols()
        k, k2 = ocp(g, guess=False, small=what != "problem"), ocp(g, "b_", guess=False, small=what != "problem")
        if what.endswith("guess"):
            for tag, q in (("", k), ("b_", k2)):
                g.put(q.o, **{what: g.pick(tag + "form", [None, lambda: g.dm(tag + what, g.S.n(getattr(q, what[0])))])})
        bad = False
        if what == "time":
            k3 = ocp(g, "c_", guess=False, hi=1, small=True)
            later = g.flag("later")
            t = g.real("t")
            which = g.pick("end", ["t_0", "t_f"])
            g.put((k3 if later else k2).o, **{which: t})
            g.assume(g.S.ne(t, 0.0 if which == "t_0" else 1.0))
            return call(k, g.list([k2.o, k3.o])).also(o2=k2.o, m2=k2.mo, bad=True, what=what)
        return call(k, g.list([k2.o])).also(o2=k2.o, m2=k2.mo, bad=False, what=what)

    def spec(S, a):
        s, o = a.self, a.o2
        eff = {}
        if not a.bad:
            eff = {q.replace("self.", "self.model."): v for q, v in joined(S, s.model, [o.model]).items()}
            ren = lambda e: S.subst(S.subst(e, o.model.t, s.model.t), o.model.tau, s.model.tau)
            for q in ("L", "V", "S"):
                eff["self." + q] = ren(S.add(getattr(s, q), getattr(o, q)))
            for q in EXPRS[3:]:
                eff["self." + q] = ren(S.cat(getattr(s, q), getattr(o, q)))
            for q in ("x_0", "x_min", "x_max", "y_min", "y_max", "u_min", "u_max", "delta_u_min", "delta_u_max", "p_opt", "theta_opt",
                      "p_opt_min", "p_opt_max", "theta_opt_min", "theta_opt_max", "eta"):
                eff["self." + q] = S.cat(getattr(s, q), getattr(o, q))
            eff["self.time_g_eq"] = s.time_g_eq + o.time_g_eq
            eff["self.time_g_ineq"] = s.time_g_ineq + o.time_g_ineq
        post, frees = None, ()
        if a.what.endswith("guess") and not a.bad:
            frees = {"self.y_guess", "self.u_guess", "self.last_u"}
            old = {q: (getattr(s, q), getattr(o, q), S.n(getattr(s.model, q[0])), S.n(getattr(o.model, q[0]))) for q in (a.what,)}

            def post(S, a, r):
                out = []
                for q, (mine, other, n1, n2) in old.items():
                    now = getattr(s, q)
                    if mine is not None and other is not None:
                        out.append((q + " of both", False if now is None else S.same(now, S.cat(mine, other))))
                    elif mine is not None:
                        out.append((q + " kept when nothing is added", S.Implies(S.eq(n2, 0), False if now is None else S.same(now, mine))))
                    elif other is not None:
                        out.append((q + " taken when there was nothing", S.Implies(S.eq(n1, 0), False if now is None else S.same(now, other))))
                    if now is not None:
                        out.append((q + " has one entry per variable", S.eq(S.n(now), S.add(n1, n2))))
                return out
        return Expect(raises=[(ValueError, S.eq(0, 0 if a.bad else 1))], effects=eff, post=post, frees=frees, watch=["self.model.ode", "o2.h"], result=ANY)


@contract("C06.has_delta_u", "C06", OCP + ".pre_solve_check")
class _:
    """Move limits count as present exactly when one of them is finite."""
    def inputs(g):
        k = ocp(g, guess=False, small=True)
        return call(k)

    def body(R, a):
        return R.attr(a.self, "has_delta_u")

    def spec(S, a):
        s = a.self
        n = S.n(s.model.u)
        fin = S.exists(n, lambda i: S.Or(S.ne(S.at(s.delta_u_max, i), S.inf), S.ne(S.at(s.delta_u_min, i), -S.inf)))
        return Expect(result=ANY, watch=["self.model.ode"], post=lambda S, a, r: [("iff", S.eq_bool(r, fin))])


@contract("C06.pre_solve_check", "C06", OCP + ".pre_solve_check", budget=120)
class _:
    """A problem whose bounds, initial values or costs do not fit its variables is rejected; a consistent one is accepted as it is."""
    def inputs(g):
        k = ocp(g, small=True)
        which = g.pick("which", [None, "x_0", "x_max", "y_max", "u_max", "x_min", "y_min", "u_min", "delta_u_max", "delta_u_min",
                                 "p_opt_max", "p_opt_min", "theta_opt_min", "theta_opt_max", "L", "V"])
        if which in ("L", "V"):
            n = g.size("n", hi=2)
            g.assume(g.S.ne(n, 1))
            g.put(k.o, **{which: g.expr("Lo", n, over=k.over, kind="SX")})
        elif which:
            n = g.size("n")
            g.assume(g.S.ne(n, g.S.n(getattr(k.o, which))))
            g.put(k.o, **{which: g.dm("other", n)})
        return call(k).also(which=which)

    def spec(S, a):
        return Expect(raises=[(Exception, S.eq(0, 1 if a.which is None else 0))], watch=["self.model.ode"])


@contract("C06.new_problem", ["C06", "C08"], OCP + ".reset_working_model", budget=90)
class _:
    """A new problem: nothing bounded, no cost, every state starts at its initial value; it works on its own copy of the model."""
    def inputs(g):
        k = model(g)
        x_0 = g.pick("x_0_form", [None, lambda: g.dm("x_0", g.S.n(k.m.x)), lambda: g.reals("x_0_l", g.S.n(k.m.x))])
        t_0, t_f = g.real("t_0"), g.real("t_f")
        o = g.new(OCP, k.m, x_0=x_0, t_0=t_0, t_f=t_f)
        v = g.sym("v", g.size("nv", lo=1, hi=2), "SX")
        return Call(k.m).also(k=k, o=o, x0=x_0, t0=t_0, tf=t_f, v=v, mut=g.pick("mut", [None, "state", "u", "y", "p"]))

    def body(R, a):
        o = a.o
        if a.mut == "state":
            R.call(o, "include_state", a.v, ode=a.v, x_0=R.S.full(0, R.S.n(a.v)))
        elif a.mut == "u":
            R.call(o, "include_control", a.v)
        elif a.mut == "y":
            R.call(o, "include_algebraic", a.v, a.v)
        elif a.mut == "p":
            R.call(o, "include_optimization_parameter", a.v)
        if a.mut:
            R.call(o, "reset_working_model")

    def spec(S, a):
        def post(S, a, r):
            o, m, k = a.o, a.self, a.k
            out = [("model " + q, S.same(getattr(o.model, q), getattr(m, q))) for q in VECS + ("u_par", "u_expr", "ode", "alg")]
            if a.mut is None:
                for v, n in (("x", S.n(m.x)), ("y", S.n(k.y)), ("u", S.n(k.u)), ("delta_u", S.n(k.u)), ("p_opt", 0), ("theta_opt", 0)):
                    out += [(v + "_max", S.same(getattr(o, v + "_max"), S.full(S.inf, n))), (v + "_min", S.same(getattr(o, v + "_min"), S.full(-S.inf, n)))]
                out += [(q, S.eq(S.n(getattr(o, q)), 0)) for q in ("h", "h_final", "g_eq", "g_ineq", "p_opt", "theta_opt", "eta")]
                out += [(q, S.same(getattr(o, q), S.full(0, 1))) for q in ("L", "V", "S")]
                out += [("h_initial", S.And(S.eq(S.n(o.h_initial), S.n(m.x)), S.forall(S.n(m.x), lambda i: S.Or(
                    S.eq(S.at(o.h_initial, i), S.sub(S.at(m.x, i), S.at(m.x_0, i))), S.eq(S.at(o.h_initial, i), S.sub(S.at(m.x_0, i), S.at(m.x, i))))))),
                    ("x_0", S.eq(S.n(o.x_0), 0) if a.x0 is None else S.same(o.x_0, a.x0)),
                    ("t_0", S.eq(o.t_0, a.t0)), ("t_f", S.eq(o.t_f, a.tf)), ("no moves", S.Not(S.eq_bool(o.has_delta_u, True)))]
            return out
        return Expect(result=ANY, post=post, frees={"o.*"}, watch=["self.ode"])


@contract("C06.create", "C06", OCP + ".create_control", budget=90)
class _:
    """The create methods return a new variable that was included with the bounds given."""
    def inputs(g):
        k = ocp(g, guess=False, small=True)
        kind = g.pick("kind", ["x", "y", "u", "p_opt", "theta_opt"])
        n = g.size("n", lo=1, hi=2)
        lo, hi = g.dm("lo", n), g.dm("hi", n)
        return call(k).also(kind=kind, n=n, lo=lo, hi=hi, dlo=g.dm("dlo", n), dhi=g.dm("dhi", n), x0n=g.dm("x0n", n), e=g.expr("e", n, over=k.over, kind="SX"))

    def body(R, a):
        s, n = a.self, a.n
        if a.kind == "x":
            return R.call(s, "create_state", "v", size=n, ode=a.e, x_0=a.x0n, x_min=a.lo, x_max=a.hi)
        if a.kind == "y":
            return R.call(s, "create_algebraic", "v", size=n, alg=a.e, y_min=a.lo, y_max=a.hi)
        if a.kind == "u":
            return R.call(s, "create_control", "v", size=n, u_min=a.lo, u_max=a.hi, delta_u_min=a.dlo, delta_u_max=a.dhi)
        if a.kind == "p_opt":
            return R.call(s, "create_optimization_parameter", "v", n, a.lo, a.hi)
        return R.call(s, "create_optimization_theta", "v", size=n, new_theta_opt_min=a.lo, new_theta_opt_max=a.hi)

    def spec(S, a):
        s, m, q = a.self, a.self.model, a.kind
        before = {v: getattr(m, v) for v in VECS}
        more = lambda v: (lambda r: S.cat(before[v], r))
        eff = {"self.%s_min" % q: S.cat(getattr(s, q + "_min"), a.lo), "self.%s_max" % q: S.cat(getattr(s, q + "_max"), a.hi)}
        frees = set()
        if q == "x":
            eff.update({"self.model.x": more("x"), "self.model.ode": S.cat(m.ode, a.e), "self.x_0": S.cat(s.x_0, a.x0n)})
            frees = {"self.h_initial", "model.x_0"}
        elif q == "y":
            eff.update({"self.model.y": more("y"), "self.model.alg": S.cat(m.alg, a.e)})
        elif q == "u":
            up, ue = m.u_par, m.u_expr
            eff.update({"self.model.u": more("u"), "self.model.u_par": lambda r: S.cat(up, r), "self.model.u_expr": lambda r: S.cat(ue, r),
                        "self.delta_u_min": S.cat(s.delta_u_min, a.dlo), "self.delta_u_max": S.cat(s.delta_u_max, a.dhi)})
        else:
            v = q[:-4]
            old = getattr(s, q)
            eff.update({"self.model." + v: more(v), "self." + q: lambda r: S.cat(old, r)})
        return Expect(effects=eff, frees=frees, result=ANY, watch=["self.model.ode"],
                      post=lambda S, a, r: [("size", S.eq(S.n(r), a.n))] + [("new among " + v, S.Not(S.depends(r, before[v]))) for v in before])


@contract("C06.cost_state", "C06", OCP + ".create_cost_state")
class _:
    """The integral cost as a state: starts at zero, grows with L, bounded below by zero when the cost is said to be positive."""
    def inputs(g):
        k = ocp(g, guess=False, small=True)
        pos = g.flag("positive")
        g.put(k.o, positive_objective=pos)
        return call(k).also(pos=pos)

    def spec(S, a):
        s, m = a.self, a.self.model
        x = m.x
        return Expect(result=ANY, frees={"self.h_initial", "model.x_0", "self.x_cost"}, watch=["self.model.ode"],
                      effects={"self.model.x": lambda r: S.cat(x, r), "self.model.ode": S.cat(m.ode, s.L), "self.x_0": S.cat(s.x_0, S.full(0, 1)),
                               "self.x_min": S.cat(s.x_min, S.full(0 if a.pos else -S.inf, 1)), "self.x_max": S.cat(s.x_max, S.full(S.inf, 1))},
                      post=lambda S, a, r: [("recorded", S.same(s.x_cost, r)), ("one", S.eq(S.n(r), 1))])


@contract("C06.quadratic_cost", "C06", OCP + ".create_quadratic_cost", runs=150)
class _:
    """The quadratic costs around the references asked for (zero when none are given); the caller's dictionary is left alone."""
    def inputs(g):
        k = ocp(g, guess=False, small=True, hi=1)
        nx, nu = g.S.n(k.m.x), g.S.n(k.u)
        d, vals = {}, {}
        which = g.pick("which", [("Q",), ("R",), ("Qv",), ("Rv",), ("Q", "R", "Qv", "Rv"), ()])
        which += g.pick("refs", [(), ("x_ref",), ("u_ref",)])
        for q, n, m in (("Q", nx, nx), ("R", nu, nu), ("Qv", nx, nx), ("Rv", nx, nx), ("x_ref", nx, 1), ("u_ref", nu, 1)):
            vals[q] = None
            if q in which:
                d[q] = vals[q] = g.dm(q, n, inf=False) if q.endswith("ref") else g.matrix(q, n, m)
        return call(k, g.dict(d)).also(**vals).also(dx=S_sub(g, k.m.x, vals["x_ref"]), du=S_sub(g, k.u, vals["u_ref"]))

    def spec(S, a):
        m = a.self.model
        L = V = S.full(0, 1)
        if a.Q is not None:
            L = S.add(L, S.quad(a.dx, a.Q))
        if a.R is not None:
            L = S.add(L, S.quad(a.du, a.R))
        if a.Qv is not None:
            V = S.add(V, S.quad(a.dx, a.Qv))
        if a.Rv is not None:
            V = S.add(V, S.quad(m.x, a.Rv))
        return Expect(effects={"self.L": L, "self.V": V}, watch=["self.model.ode"])


def S_sub(g, v, ref):
    S = g.S
    return v if ref is None else S.vmap(S.n(v), lambda i: S.sub(S.at(v, i), S.at(ref, i)), kind="SX")
