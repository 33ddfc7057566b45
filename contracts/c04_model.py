"""C04: a model keeps states, equations and initial-value symbols paired; every kind of variable in its own vector.
C05: replacement and control parametrization reach every equation.  C07: including, merging, connecting.  C08: copies."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract

SM = "yaocptool.modelling.system_model:SystemModel"
KINDS = ("y", "u", "p", "theta")


def model(g, tag="", missing=True, name="model", hi=2, least={}, tau=True, none=()):
    """A model in an arbitrary consistent state built through its public methods: x = [x1; x2; x3], x1 and x3 with
    equations, x2 without (when `missing`)."""
    m = g.new(SM, name=name)
    sz = lambda k: 0 if k in none else g.size(tag + "n_" + k, lo=least.get(k, 0), hi=max(hi, least.get(k, 0) + 1))
    x1, x2, x3 = [g.sym(tag + k, sz(k), "SX") for k in ("x1", "x2", "x3")]
    v = {k: g.sym(tag + k, sz(k), "SX") for k in KINDS}
    over = [x1, x2, x3] + list(v.values()) + [m.t] + ([m.tau] if tau else [])
    z = {}
    for k, x in (("z1", x1), ("z2", x2), ("z3", x3)):
        z[k] = g.sym(tag + k, g.S.n(x), "SX")
        g.call(m, "include_state", x, x_0=z[k])
    g.call(m, "include_algebraic", v["y"])
    g.call(m, "include_control", v["u"])
    g.call(m, "include_parameter", v["p"])
    g.call(m, "include_theta", v["theta"])
    f1, f2, f3 = [g.expr(tag + k, g.S.n(x), over=over, kind="SX") for k, x in (("f1", x1), ("f2", x2), ("f3", x3))]
    alg = g.expr(tag + "alg", sz("alg"), over=over, kind="SX")
    g.call(m, "include_equations", ode=f1, x=x1, alg=alg)
    if not missing:
        g.call(m, "include_equations", ode=f2, x=x2)
    g.call(m, "include_equations", ode=f3, x=x3)
    return NS(dict(m=m, x1=x1, x2=x2, x3=x3, f1=f1, f2=f2, f3=f3, alg=alg, over=over, **z, **v))


@contract("C04.construction", "C04", SM + ".include_state")
class _:
    """What `model` builds: every vector holds what was included, in order."""
    def inputs(g):
        k = model(g, missing=g.flag("missing"))
        return Call(k.m).also(k=k, missing=g.S.eq(0, 0))

    def body(R, a):
        return None

    def spec(S, a):
        k, m = a.k, a.self
        return Expect(post=lambda S, a, r: [
            ("x", S.same(m.x, S.cat(k.x1, k.x2, k.x3))), ("x_0", S.same(m.x_0, S.cat(k.z1, k.z2, k.z3))),
            ("ode", S.Or(S.same(m.ode, S.cat(k.f1, k.f3)), S.same(m.ode, S.cat(k.f1, k.f2, k.f3)))), ("alg", S.same(m.alg, k.alg)),
            ("y", S.same(m.y, k.y)), ("u", S.same(m.u, k.u)), ("u_par", S.same(m.u_par, k.u)), ("u_expr", S.same(m.u_expr, k.u)),
            ("p", S.same(m.p, k.p)), ("theta", S.same(m.theta, k.theta)), ("n_x", S.eq(m.n_x, S.n(m.x))), ("n_y", S.eq(m.n_y, S.n(k.y))),
            ("n_u", S.eq(m.n_u, S.n(k.u))), ("n_p", S.eq(m.n_p, S.n(k.p))), ("n_theta", S.eq(m.n_theta, S.n(k.theta)))])


@contract("C04.include_state", "C04", SM + ".include_state")
class _:
    def inputs(g):
        k = model(g)
        n = g.size("n")
        v = g.sym("v", n, "SX")
        return Call(k.m, v, ode=g.pick("ode_form", [None, lambda: g.expr("fv", n, over=k.over + [v], kind="SX", zeros=True)]), x_0=g.sym("v0", n, "SX")).also(k=k)

    def spec(S, a):
        k, s = a.k, a.self
        ode = s.ode if a.ode is None else S.cat(s.ode, a.ode)
        return Expect(result=a.x_0, effects={"self.x": S.cat(s.x, a.var), "self.x_0": S.cat(s.x_0, a.x_0), "self.ode": ode})


@contract("C04.include_state_twice", "C04", SM + ".include_state")
class _:
    """A state that is in the model already is rejected, whatever comes with it, and nothing changes."""
    def inputs(g):
        k = model(g)
        w = g.sym("w", g.size("nw"), "SX")
        i = g.index("i", g.S.n(k.m.x))
        return Call(k.m, g.S.cat(w, g.S.elem(k.m.x, i)), x_0=g.sym("v0", g.S.add(g.S.n(w), 1), "SX"))

    def spec(S, a):
        return Expect(raises=[(ValueError, S.eq(0, 0))], watch=["self.ode"])


@contract("C04.ode_for_states", "C04", SM + ".include_equations")
class _:
    """An equation given for some states, in any order, ends up with those states and no other."""
    def inputs(g):
        k = model(g)
        sel, ix = g.permute("ix", k.x2)
        return Call(k.m).also(k=k, ix=ix, ode=g.expr("f", g.S.n(k.x2), over=k.over, kind="SX", zeros=True), x=sel)

    def body(R, a):
        k = a.k
        R.call(a.self, "include_equations", ode=a.ode, x=a.x)

    def spec(S, a):
        k = a.k

        def post(S, a, r):
            ode, n1 = a.self.ode, S.n(k.x1)
            return [("length", S.eq(S.n(ode), S.n(a.self.x))),
                    ("others", S.And(S.same(S.sl(ode, 0, n1), k.f1), S.same(S.sl(ode, S.add(n1, S.n(k.x2)), S.n(ode)), k.f3))),
                    ("each state its own", S.forall(S.n(k.x2), lambda j: S.eq(S.at(ode, S.add(n1, a.ix(j))), S.at(a.ode, j))))]
        return Expect(result=ANY, post=post)


@contract("C04.ode_in_order", "C04", SM + ".include_equations")
class _:
    """Equations given without naming states belong to the first states that have none yet."""
    def inputs(g):
        m = g.new(SM)
        n, n2 = g.size("n"), g.size("n2")
        x, x2 = g.sym("x", n, "SX"), g.sym("x2", n2, "SX")
        g.call(m, "include_state", x, x_0=g.sym("z", n, "SX"))
        g.call(m, "include_state", x2, x_0=g.sym("z2", n2, "SX"))
        g.assume(g.S.gt(n, 0))
        f1 = g.expr("f1", n, over=[x, x2], kind="SX", zeros=True)
        f2 = g.expr("f2", n2, over=[x, x2], kind="SX", zeros=True)
        f = g.S.cat(f1, f2)
        return Call(m).also(x=x, x2=x2, ode=g.pick("form", [lambda: f, lambda: g.list([f]), lambda: g.list([f1, f2])]), f=f)

    def body(R, a):
        R.call(a.self, "include_equations", ode=a.ode)

    def spec(S, a):
        return Expect(effects={"self.ode": a.f})


@contract("C04.der_equations", "C04", SM + ".include_equations")
class _:
    """der(x) == e gives x the equation e, for any of the states and in any order."""
    def inputs(g):
        k = model(g)
        i, j = g.index("i", g.S.n(k.x2)), g.index("j", g.S.n(k.x2))
        g.assume(g.S.ne(i, j))
        return Call(k.m).also(k=k, i=i, j=j, ei=g.expr("ei", 1, over=k.over, kind="SX"), ej=g.expr("ej", 1, over=k.over, kind="SX"),
                              der=g.func("yaocptool.modelling.utils:der"))

    def body(R, a):
        xi, xj = R.S.elem(a.k.x2, a.i), R.S.elem(a.k.x2, a.j)
        R.call(a.self, "include_equations", R.eq(R.fn(a.der, xi), a.ei), R.eq(R.fn(a.der, xj), a.ej))
        # complete the model, so that the equations can be told apart
        rest = R.S.keep(a.k.x2, lambda q: R.S.And(R.S.ne(q, a.i), R.S.ne(q, a.j)))
        R.call(a.self, "include_equations", ode=R.S.full(0, R.S.n(rest)), x=rest)

    def spec(S, a):
        k = a.k
        want = S.vmap(S.n(k.x2), lambda q: S.ite(S.eq(q, a.i), S.at(a.ei, 0), S.ite(S.eq(q, a.j), S.at(a.ej, 0), 0)), kind="SX")
        return Expect(effects={"self.ode": S.cat(k.f1, want, k.f3)}, result=ANY)


@contract("C04.remove_state", "C04", SM + ".remove_state")
class _:
    """Removing states removes their equations and initial-value symbols, and nothing else."""
    def inputs(g):
        k = model(g)
        sel, ix = g.select("ix", k.m.x, g.size("m", hi=3))
        return Call(k.m, sel).also(k=k)

    def spec(S, a):
        k, s = a.k, a.self
        hit = lambda v, i: S.exists(S.n(a.var), lambda j: S.same_sym(v, i, a.var, j))
        return Expect(raises=[(ValueError, S.eq(S.n(a.var), 0))],
                      effects={"self.x": S.keep(s.x, lambda i: S.Not(hit(s.x, i))),
                               "self.x_0": S.keep(s.x_0, lambda i: S.Not(hit(s.x, i))),
                               "self.ode": S.cat(S.keep(k.f1, lambda i: S.Not(hit(k.x1, i))), S.keep(k.f3, lambda i: S.Not(hit(k.x3, i))))})


def creator(kind, meth, vec, extra=()):
    @contract("C04." + meth, "C04", SM + "." + meth)
    class _:
        def inputs(g):
            k = model(g)
            return Call(k.m, "v", g.size("n")).also(k=k)

        def spec(S, a):
            s, n = a.self, a.size
            old = {q: getattr(s, q) for q in (vec,) + tuple(extra)}
            known = S.cat(s.x, s.x_0, s.y, s.u, s.p, s.theta)
            eff = {"self." + q: (lambda r, q=q: S.cat(old[q], r)) for q in old}
            frees = set()
            post = [("size", lambda r: S.eq(S.n(r), n)), ("new", lambda r: S.Not(S.depends(known, r)))]
            if kind == "x":
                z0 = s.x_0
                frees = {"self.x_0"}
                post += [("initial-value symbols", lambda r: S.And(S.eq(S.n(s.x_0), S.n(s.x)), S.same(S.sl(s.x_0, 0, S.n(z0)), z0)))]
            return Expect(result=ANY, effects=eff, frees=frees, watch=["self.ode"], post=lambda S, a, r: [(w, f(r)) for w, f in post])
    return _


creator("x", "create_state", "x")
creator("y", "create_algebraic_variable", "y")
creator("u", "create_control", "u", ("u_par", "u_expr"))
creator("u", "create_input", "u", ("u_par", "u_expr"))
creator("p", "create_parameter", "p")
creator("theta", "create_theta", "theta")


@contract("C04.include_algebraic", "C04", SM + ".include_algebraic")
class _:
    def inputs(g):
        k = model(g)
        v = g.sym("v", g.size("n"), "SX")
        return Call(k.m, v, alg=g.pick("alg_form", [None, lambda: g.expr("e", g.size("ne"), over=k.over + [v], kind="SX")])).also(k=k)

    def spec(S, a):
        s = a.self
        eff = {"self.y": S.cat(s.y, a.var)}
        if a.alg is not None:
            eff["self.alg"] = S.cat(s.alg, a.alg)
        return Expect(effects=eff, watch=["self.ode"])


@contract("C04.remove_algebraic", "C04", SM + ".remove_algebraic")
class _:
    def inputs(g):
        k = model(g)
        sel, ix = g.select("ix", k.y, g.size("m", hi=3))
        return Call(k.m, sel).also(k=k)

    def spec(S, a):
        k, s = a.k, a.self
        hit = lambda v, i: S.exists(S.n(a.var), lambda j: S.same_sym(v, i, a.var, j))
        return Expect(raises=[(ValueError, S.eq(S.n(a.var), 0))], effects={"self.y": S.keep(s.y, lambda i: S.Not(hit(s.y, i)))}, watch=["self.ode"])


@contract("C04.remove_control", "C04", SM + ".remove_control")
class _:
    def inputs(g):
        k = model(g)
        sel, ix = g.select("ix", k.u, g.size("m", hi=3))
        return Call(k.m, sel).also(k=k)

    def spec(S, a):
        k, s = a.k, a.self
        hit = lambda v, i: S.exists(S.n(a.var), lambda j: S.same_sym(v, i, a.var, j))
        left = S.keep(s.u, lambda i: S.Not(hit(s.u, i)))
        return Expect(raises=[(ValueError, S.eq(S.n(a.var), 0))], effects={"self.u": left, "self.u_par": left, "self.u_expr": left}, watch=["self.ode"])


for _m, _v in (("remove_parameter", "p"), ("remove_theta", "theta")):
    def _mk(meth, vec):
        @contract("C04." + meth, "C04", SM + "." + meth)
        class _:
            def inputs(g):
                k = model(g)
                sel, ix = g.select("ix", getattr(k, vec), g.size("m", hi=3))
                return Call(k.m, sel)

            def spec(S, a):
                s = getattr(a.self, vec)
                hit = lambda v, i: S.exists(S.n(a.var), lambda j: S.same_sym(v, i, a.var, j))
                return Expect(raises=[(ValueError, S.eq(S.n(a.var), 0))], effects={"self." + vec: S.keep(s, lambda i: S.Not(hit(s, i)))}, watch=["self.ode"])
    _mk(_m, _v)


@contract("C04.alg_equations", "C04", SM + ".include_equations")
class _:
    """Algebraic equations, as expressions, lists or a == b, are appended as residuals in order."""
    def inputs(g):
        k = model(g)
        e1, e2 = g.expr("e1", g.size("ne"), over=k.over, kind="SX", zeros=True), g.expr("e2", 1, over=k.over, kind="SX", zeros=True)
        return Call(k.m).also(k=k, e1=e1, e2=e2, form=g.pick("form", ["kw", "list"]), lst=g.list([e1, e2]))

    def body(R, a):
        if a.form == "kw":
            R.call(a.self, "include_equations", alg=a.e1)
        else:
            R.call(a.self, "include_equations", alg=a.lst)

    def spec(S, a):
        add = a.e1 if a.form == "kw" else S.cat(a.e1, a.e2)
        return Expect(effects={"self.alg": S.cat(a.self.alg, add)}, watch=["self.ode"])


@contract("C04.include_variables", "C04", SM + ".include_variables")
class _:
    def inputs(g):
        k = model(g)
        kw = {}
        which = g.pick("which", [("x", "y", "u", "p", "theta"), ("x",), ("y",), ("u",), ("p",), ("theta",), ("x", "u"), ("u", "p")])
        many = g.pick("form", [False, True])
        for q in which:
            kw[q] = g.list([g.sym("va" + q, g.size("va" + q), "SX"), g.sym("vb" + q, g.size("vb" + q), "SX")]) if many else g.sym("v" + q, g.size("v" + q), "SX")
        return Call(k.m, **kw).also(k=k, which=which, many=many)

    def spec(S, a):
        s = a.self
        eff, frees = {}, set()
        for q in a.which:
            v = getattr(a, q)
            v = S.cat(*v) if a.many else v
            for t in {"u": ("u", "u_par", "u_expr")}.get(q, (q,)):
                eff["self." + t] = S.cat(getattr(s, t), v)
            if q == "x":
                frees.add("self.x_0")
        return Expect(effects=eff, frees=frees, watch=["self.ode"], post=lambda S, a, r: [("x_0 matches x", S.eq(S.n(s.x_0), S.n(s.x)))])


@contract("C04.has_variable", "C04", SM + ".has_variable")
class _:
    """True exactly for the variables of the model, of every kind, also for controls that are parametrized and their parameters."""
    def inputs(g):
        k = model(g)
        up = g.sym("up", g.size("nup", hi=2), "SX")
        if g.flag("parametrized"):
            g.assume(g.S.gt(g.S.n(k.u), 0))
            g.call(k.m, "parametrize_control", k.u, g.expr("r", g.S.n(k.u), over=k.over + [up], kind="SX"), up)
        which = g.pick("which", ["x", "y", "u", "p", "theta", "u_par", "foreign"])
        vec = g.sym("w", g.size("nw"), "SX") if which == "foreign" else getattr(k.m, which)
        i = g.index("i", g.S.n(vec))
        return Call(k.m, g.S.elem(vec, i)).also(which=which)

    def spec(S, a):
        return Expect(result=a.which != "foreign", watch=["self.ode"])


@bounded("C04.by_name", "C04", SM + ".get_variable_by_name", why="names are strings matched by Python's re module", runs=120)
def _by_name(g):
    import re
    import casadi as ca
    from yaocptool.modelling.system_model import SystemModel
    prefix = g.rng.random() < 0.5
    m = SystemModel(name="m" + g.rng.choice("ab"), model_name_as_prefix=prefix)
    made = []
    mk = dict(x=m.create_state, y=m.create_algebraic_variable, u=m.create_control, p=m.create_parameter, theta=m.create_theta)
    for q in [g.rng.choice(list(mk)) for _ in range(g.rng.randint(1, 6))]:
        n = g.rng.choice(["a", "b", "ab", "h_1", "a2"])
        v = mk[q](n)
        made.append((q, (m.name + "_" if prefix else "") + n, v))
    for q, n, v in made:
        if v.name() != n:
            raise Violation("created %s named %s, not %s" % (q, v.name(), n))
    req = g.rng.choice(["a", "b", "ab", "m._a", ".*1", "zz", "ma_ab$", "a$"])
    kinds = g.rng.choice([None, "x", "u", ["y", "p"], "theta"])
    g._rec("case", ([(q, n) for q, n, _ in made], req, kinds))
    order = ["x", "y", "u", "p", "theta"] if kinds is None else kinds if isinstance(kinds, list) else [kinds]
    want = [v for k in order for q, n, v in made if q == k and re.match(req, n)]
    got = m.get_variables_by_names(req, kinds)
    if len(got) != len(want) or not all(ca.is_equal(a, b) for a, b in zip(got, want)):
        raise Violation("requested %s in %s: got %s, want %s" % (req, kinds, got, want))
    try:
        r = m.get_variable_by_name(req, kinds)
        if len(want) != 1 or not ca.is_equal(r, want[0]):
            raise Violation("get_variable_by_name(%r) returned %s, candidates %s" % (req, r, want))
    except ValueError:
        if len(want) == 1:
            raise Violation("get_variable_by_name(%r) rejected although exactly one matches" % req)


@bounded("C04.matrix_shapes", "C04", SM + ".create_state", why="matrix-shaped symbols: the verifier's model of vec is for columns", runs=60)
def _matrix(g):
    import casadi as ca
    from yaocptool.modelling.system_model import SystemModel
    m = SystemModel()
    sx = ca.SX
    cols = {k: sx(0, 1) for k in ("x", "y", "u", "p", "theta")}
    mk = dict(x=m.create_state, y=m.create_algebraic_variable, u=g.rng.choice([m.create_control, m.create_input]), p=m.create_parameter, theta=m.create_theta)
    for q in [g.rng.choice(list(mk)) for _ in range(4)]:
        shape = (g.rng.randint(1, 3), g.rng.randint(1, 3))
        v = mk[q]("v", shape)
        g._rec("case", (q, shape))
        if v.shape != shape:
            raise Violation("%s of shape %s created with shape %s" % (q, shape, v.shape))
        cols[q] = ca.vertcat(cols[q], *[v[i, j] for j in range(shape[1]) for i in range(shape[0])])
    for q, c in cols.items():
        got = getattr(m, q)
        if got.numel() != c.numel() or not all(ca.is_equal(got[i], c[i]) for i in range(c.numel())):
            raise Violation("%s is %s, created %s" % (q, got, c))
    if m.x_0.numel() != m.x.numel() or not ca.is_equal(m.u_par, m.u) or not ca.is_equal(m.u_expr, m.u):
        raise Violation("sizes of x_0, u_par or u_expr")
    if len(set(m.x_0[i].__hash__() for i in range(m.n_x))) != m.n_x:
        raise Violation("initial-value symbols not distinct")


@contract("C04.include_control", "C04", SM + ".include_control")
class _:
    """Also when some controls are parametrized already."""
    def inputs(g):
        k = model(g)
        if g.flag("parametrized"):
            sel, ix = g.select("ix", k.u, g.size("m", lo=1, hi=2))
            up = g.sym("up", g.size("nup", hi=3), "SX")
            g.call(k.m, "parametrize_control", sel, g.expr("r", g.S.n(sel), over=k.over + [up], kind="SX"), up)
        return Call(k.m, g.sym("v", g.size("n"), "SX"))

    def spec(S, a):
        s = a.self
        return Expect(effects={"self." + q: S.cat(getattr(s, q), a.var) for q in ("u", "u_par", "u_expr")}, watch=["self.ode"])
