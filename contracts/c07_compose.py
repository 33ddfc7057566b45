"""C07: including, merging and connecting models keeps every variable and equation of the parts.  C08: copies."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract
from contracts.c04_model import SM, model

VECS = ("x", "x_0", "y", "u", "p", "theta")


def joined(S, s, parts):
    """Attributes of s after the models in parts were included, in order; their time symbols become those of s."""
    eff = {"self." + q: S.cat(getattr(s, q), *[getattr(m, q) for m in parts]) for q in VECS + ("u_par",)}
    for q in ("ode", "alg", "u_expr"):
        e = getattr(s, q)
        for m in parts:
            e = S.subst(S.subst(S.cat(e, getattr(m, q)), m.t, s.t), m.tau, s.tau)
        eff["self." + q] = e
    return eff


@contract("C07.include_models", "C07", SM + ".include_models", budget=120)
class _:
    def inputs(g):
        k = model(g)
        par = g.flag("parametrized")
        k2 = model(g, "b_", missing=g.flag("missing"))
        if par:
            up = g.sym("up", g.size("nup"), "SX")
            g.assume(g.S.gt(g.S.n(k2.u), 0))
            g.call(k2.m, "parametrize_control", k2.u, g.expr("r", g.S.n(k2.u), over=k2.over + [up], kind="SX"), up)
        form = g.pick("form", ["one", "list", "two"])
        parts = [k2.m]
        if form == "two":
            parts.append(model(g, "c_").m)
        return Call(k.m, k2.m if form == "one" else g.list(parts)).also(parts=parts, k2=k2.m, u2=k2.u, par=par)

    def spec(S, a):
        s = a.self
        return Expect(effects=joined(S, s, a.parts), result=ANY, watch=["k2.ode"])


@contract("C07.include_models_parametrization", "C07", SM + ".include_models")
class _:
    """A control that was parametrized in the part is parametrized in the whole; the others are free."""
    def inputs(g):
        k, k2 = model(g), model(g, "b_", least={"u": 2})
        i, j = g.index("i", g.S.n(k2.u)), g.index("j", g.S.n(k2.u))
        g.assume(g.S.ne(i, j))
        ui, uj = g.S.elem(k2.u, i), g.S.elem(k2.u, j)
        up = g.sym("up", g.size("nup"), "SX")
        g.call(k2.m, "parametrize_control", ui, g.expr("r", 1, over=k2.over + [up], kind="SX"), up)
        return Call(k.m).also(k2=k2.m, ui=ui, uj=uj)

    def body(R, a):
        R.call(a.self, "include_models", a.k2)
        return (R.call(a.self, "control_is_parametrized", a.ui), R.call(a.self, "control_is_parametrized", a.uj), R.call(a.self, "is_parametrized"))

    def spec(S, a):
        return Expect(frees={"self.*"}, result=(True, False, True))


@contract("C07.merge", "C07", SM + ".merge")
class _:
    def inputs(g):
        k, k2 = model(g), model(g, "b_")
        eq = g.pick("eq_form", [None, lambda: g.expr("ce", g.size("nce"), over=[k.y, k.u, k2.y, k2.u], kind="SX")])
        one = g.flag("one")
        return Call(k.m, k2.m if one else g.list([k2.m]), connecting_equations=eq).also(parts=[k2.m], k2=k2.m)

    def spec(S, a):
        s = a.self
        eff = joined(S, s, a.parts)
        if a.connecting_equations is not None:
            eff["self.alg"] = S.cat(eff["self.alg"], a.connecting_equations)
        return Expect(effects=eff, result=ANY, watch=["k2.ode"])


@contract("C07.connect", "C07", SM + ".connect")
class _:
    """Connected controls, in any selection and order, become algebraic variables tied to the given ones, or disappear."""
    def inputs(g):
        k = model(g)
        m = g.size("m", hi=2)
        u, iu = g.select("iu", k.u, m)
        rep = g.flag("replace")
        same = g.flag("same_size")
        if not same:
            n = g.size("n", hi=2)
            g.assume(g.S.ne(n, m))
        y, iy = g.select("iy", k.y, m if same else n)
        return Call(k.m, u, y, replace=rep).also(same=same, rep=rep)

    def spec(S, a):
        s = a.self
        eff = {}
        hit = lambda v, i: S.exists(S.n(a.u), lambda j: S.same_sym(v, i, a.u, j))
        if a.same:
            left = S.keep(s.u, lambda i: S.Not(hit(s.u, i)))
            eff = {"self.u": left, "self.u_par": left, "self.u_expr": left}
            if a.rep:
                eff.update({"self.ode": S.subst(s.ode, a.u, a.y), "self.alg": S.subst(s.alg, a.u, a.y)})
            else:
                eff.update({"self.y": S.cat(s.y, a.u), "self.alg": S.cat(s.alg, S.vmap(S.n(a.u), lambda i: S.sub(S.at(a.u, i), S.at(a.y, i)), kind="SX"))})
        return Expect(raises=[(AssertionError, S.ne(S.n(a.u), S.n(a.y))), (ValueError, S.And(S.eq(S.n(a.u), S.n(a.y)), S.eq(S.n(a.u), 0)))],
                      effects=eff, watch=["self.ode"])


@contract("C07.connect_rejected", "C07", SM + ".connect")
class _:
    """A control that is parametrized, or not in the model, cannot be connected; the model stays as it was."""
    def inputs(g):
        k = model(g)
        what = g.pick("what", ["parametrized", "foreign"])
        i = g.index("i", g.S.n(k.u))
        u = g.S.elem(k.u, i) if what == "parametrized" else g.sym("w", 1, "SX")
        if what == "parametrized":
            up = g.sym("up", g.size("nup"), "SX")
            g.call(k.m, "parametrize_control", u, g.expr("r", 1, over=k.over + [up], kind="SX"), up)
        j = g.index("j", g.S.n(k.y))
        return Call(k.m, u, g.S.elem(k.y, j), replace=g.flag("replace"))

    def spec(S, a):
        return Expect(raises=[(ValueError, S.eq(0, 0))], watch=["self.ode"])


# ------------------------------------------------------------------------------------------------ C08
MUT = ("include_state", "equations", "parametrize", "replace", "remove_state", "remove_control", "include_models", "alg", "include_p")


def mutate(R, m, k, o):
    """One change of the model m through its public methods."""
    if o.mut == "include_state":
        R.call(m, "include_state", o.v, ode=o.fv, x_0=o.v0)
    elif o.mut == "equations":
        R.call(m, "include_equations", ode=o.f2, x=k.x2)
    elif o.mut == "parametrize":
        R.call(m, "parametrize_control", R.S.elem(k.u, 0), o.r, o.up)
    elif o.mut == "replace":
        R.call(m, "replace_variable", k.p, o.rp)
    elif o.mut == "remove_state":
        R.call(m, "remove_state", R.S.elem(k.x1, 0))
    elif o.mut == "remove_control":
        R.call(m, "remove_control", R.S.elem(k.u, 0))
    elif o.mut == "include_models":
        R.call(m, "include_models", o.other)
    elif o.mut == "alg":
        R.call(m, "include_algebraic", o.v, alg=o.fv)
    else:
        R.call(m, "include_parameter", o.v)


def operands(g, k):
    n = g.size("nv", lo=1, hi=2)
    v = g.sym("v", n, "SX")
    up = g.sym("up", g.size("nup"), "SX")
    mut = g.pick("change", list(MUT))
    return NS(dict(mut=mut, v=v, v0=g.sym("v0", n, "SX"), fv=g.expr("fv", n, over=k.over + [v], kind="SX"), up=up,
                   f2=g.expr("f2b", g.S.n(k.x2), over=k.over, kind="SX"), r=g.expr("r", 1, over=k.over + [up], kind="SX"),
                   rp=g.expr("rp", g.S.n(k.p), over=[k.theta], kind="SX"),
                   other=model(g, "b_", hi=1).m if mut == "include_models" else None))


@contract("C08.get_copy", "C08", SM + ".get_copy")
class _:
    def inputs(g):
        k = model(g)
        return Call(k.m).also(k=k)

    def spec(S, a):
        s = a.self

        def post(S, a, r):
            return [
                (q, S.same(getattr(r, q), getattr(s, q))) for q in VECS + ("u_par", "u_expr", "ode", "alg", "t", "tau")]
        return Expect(result=ANY, post=post, watch=["self.ode"])


@contract("C08.copy_isolated", "C08", SM + ".get_copy")
class _:
    """Whatever is done to the copy leaves the original as it was."""
    def inputs(g):
        k = model(g, least={"u": 1, "x1": 1})
        return Call(k.m).also(k=k, o=operands(g, k))

    def body(R, a):
        c = R.call(a.self, "get_copy")
        mutate(R, c, a.k, a.o)
        return R.call(a.self, "is_parametrized")

    def spec(S, a):
        return Expect(result=False, watch=["self.ode"])


@contract("C08.original_isolated", "C08", SM + ".get_copy")
class _:
    """Whatever is done to the original leaves the copy as it was."""
    def inputs(g):
        k = model(g, least={"u": 1, "x1": 1})
        c = g.call(k.m, "get_copy")
        return Call(c).also(k=k, o=operands(g, k), m=k.m)

    def body(R, a):
        mutate(R, a.m, a.k, a.o)
        return R.call(a.self, "is_parametrized")

    def spec(S, a):
        return Expect(result=False, watch=["self.ode"], frees={"m.*"})


@contract("C08.get_deepcopy", "C08", SM + ".get_deepcopy", runs=150,
          bounded="one new state per loop iteration rebinding the equation table: outside the loop rules of the verifier")
class _:
    """A deep copy has its own symbols, and the same equations in them."""
    def inputs(g):
        k = model(g, missing=g.flag("missing"), hi=1)
        if g.flag("parametrized"):
            g.assume(g.S.gt(g.S.n(k.u), 0))
            up = g.sym("up", g.size("nup"), "SX")
            g.call(k.m, "parametrize_control", k.u, g.expr("r", g.S.n(k.u), over=k.over[:3] + [k.m.t, up], kind="SX"), up)
        return Call(k.m).also(k=k)

    def spec(S, a):
        s = a.self
        names = ("x", "y", "u", "p", "theta", "t", "tau", "u_par")

        def post(S, a, r):
            out = [("size of " + q, S.eq(S.n(getattr(r, q)), S.n(getattr(s, q)))) for q in VECS + ("u_par", "u_expr")]
            mine = S.cat(*[getattr(s, q) for q in VECS + ("u_par", "t", "tau")])
            out += [("own " + q, S.Not(S.depends(mine, getattr(r, q)))) for q in VECS + ("u_par", "t", "tau")]
            for q in ("ode", "alg", "u_expr"):
                e = getattr(s, q)
                for w in names:
                    e = S.subst(e, getattr(s, w), getattr(r, w))
                out.append(("equations " + q, S.same(getattr(r, q), e)))
            out += [("free controls stay free, parametrized ones parametrized",
                     all(r.control_is_parametrized(r.u[i]) == s.control_is_parametrized(s.u[i]) for i in range(s.n_u))),
                    ("names", all(getattr(r, q) == getattr(s, q) for q in ("x_names", "y_names", "u_names", "p_names", "theta_names"))),
                    ("name", r.name == s.name and r.model_name_as_prefix == s.model_name_as_prefix)]
            return out
        return Expect(result=ANY, post=post, watch=["self.ode"])
