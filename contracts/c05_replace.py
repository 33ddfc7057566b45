"""C05: replacing a variable and parametrizing a control reach every equation of the model, and nothing else."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract
from contracts.c04_model import SM, model


def replaced(S, k, s, old, new):
    return {"self." + q: S.subst(getattr(s, q), old, new) for q in ("ode", "alg", "u_expr")}


@contract("C05.replace_variable", "C05", SM + ".replace_variable")
class _:
    def inputs(g):
        k = model(g, missing=g.flag("missing"))
        which = g.pick("which", ["u", "p", "y", "x1", "t", "other", "two"])
        old = {"t": lambda: k.m.t, "other": lambda: g.sym("w", g.size("nw"), "SX"), "two": lambda: g.S.cat(k.p, k.u)}.get(which, lambda: getattr(k, which))()
        same = g.flag("same_size")
        n = g.S.n(old) if same else g.size("n")
        if not same:
            g.assume(g.S.ne(n, g.S.n(old)))
        new = g.expr("r", n, over=k.over, kind="SX")
        return Call(k.m, old, new).also(k=k, same=same)

    def spec(S, a):
        k, s = a.k, a.self
        return Expect(raises=[(ValueError, S.ne(S.n(a.original), S.n(a.replacement)))], watch=["self.ode"],
                      effects=replaced(S, k, s, a.original, a.replacement) if a.same else {})


@contract("C05.parametrize_control", "C05", SM + ".parametrize_control")
class _:
    """A selection of the free controls, in any order, with or without new parameters."""
    def inputs(g):
        k = model(g)
        sel, ix = g.select("ix", k.u, g.size("m", hi=2))
        up = g.pick("u_par_form", [None, lambda: g.sym("up", g.size("nup"), "SX")])
        same = g.flag("same_size")
        n = g.S.n(sel) if same else g.size("n")
        if not same:
            g.assume(g.S.ne(n, g.S.n(sel)))
        return Call(k.m, sel, g.expr("r", n, over=k.over + ([up] if up is not None else []), kind="SX"), u_par=up).also(k=k, same=same)

    def spec(S, a):
        k, s = a.k, a.self
        hit = lambda v, i: S.exists(S.n(a.u), lambda j: S.same_sym(v, i, a.u, j))

        d = {}
        if a.same:
            left = S.keep(s.u_par, lambda i: S.Not(hit(s.u_par, i)))
            d = replaced(S, k, s, a.u, a.expr)
            d["self.u_par"] = left if a.u_par is None else S.cat(left, a.u_par)
        return Expect(raises=[(ValueError, S.Or(S.ne(S.n(a.u), S.n(a.expr)), S.eq(S.n(a.u), 0)))], effects=d, watch=["self.ode"])


@contract("C05.parametrize_twice", "C05", SM + ".parametrize_control")
class _:
    """A control is parametrized once: doing it again is rejected and changes nothing, the other controls stay free."""
    def inputs(g):
        k = model(g, least={"u": 2})
        i, j = g.index("i", g.S.n(k.u)), g.index("j", g.S.n(k.u))
        g.assume(g.S.ne(i, j))
        ui, uj = g.S.elem(k.u, i), g.S.elem(k.u, j)
        up = g.sym("up", g.size("nup"), "SX")
        g.call(k.m, "parametrize_control", ui, g.expr("r", 1, over=k.over + [up], kind="SX"), up)
        return Call(k.m).also(k=k, ui=ui, uj=uj, up=up, up2=g.sym("up2", g.size("nup2"), "SX"), r2=g.expr("r2", 1, over=k.over, kind="SX"), which=g.pick("which", ["same", "other", "both"]))

    def body(R, a):
        who = {"same": a.ui, "other": a.uj, "both": R.S.cat(a.uj, a.ui)}[a.which]
        r = R.S.cat(a.r2, a.r2) if a.which == "both" else a.r2
        before = (R.call(a.self, "control_is_parametrized", a.ui), R.call(a.self, "control_is_parametrized", a.uj), R.call(a.self, "is_parametrized"))
        R.call(a.self, "parametrize_control", who, r, a.up2)
        return before + (R.call(a.self, "control_is_parametrized", a.ui), R.call(a.self, "control_is_parametrized", a.uj))

    def spec(S, a):
        s, k = a.self, a.k
        always = S.eq(0, 0)

        d = {}
        if a.which == "other":
            d = replaced(S, k, s, a.uj, a.r2)
            d["self.u_par"] = S.cat(S.keep(s.u_par, lambda i: S.Not(S.same_sym(s.u_par, i, a.uj, 0))), a.up2)
        return Expect(raises=[] if a.which == "other" else [(ValueError, always)], watch=["self.ode"], effects=d,
                      result=(True, False, True, True, True))
