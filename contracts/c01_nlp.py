"""C01/C02: assembling an optimization problem and handing it to the solver."""
from pydv.contract import ANY, Call, Expect, contract

M = "yaocptool.optimization.abstract_optimization_problem:AbstractOptimizationProblem"


def nlp(g, cls=M, nx_min=0):
    """A problem in an arbitrary consistent state: one bound pair per variable and per constraint row."""
    p = g.new(cls)
    nx, ng, np_ = g.size("nx", lo=nx_min), g.size("ng"), g.size("np")
    x, par = g.sym("x", nx), g.sym("p", np_)
    return g.put(p, x=x, p=par, g=g.expr("g", ng, over=[x, par]), f=g.expr("f", 1, over=[x, par]),
                 x_lb=g.dm("x_lb", nx), x_ub=g.dm("x_ub", nx), g_lb=g.dm("g_lb", ng), g_ub=g.dm("g_ub", ng))


def bound(g, name, n):
    return g.pick(name + "_form", [lambda: g.dm(name, n, zeros=True), lambda: g.dm(name, 1), lambda: g.real(name),
                                   lambda: g.dm(name + "_other", g.size(name + "_size"))])


@contract("C01.include_variable", "C01", M + ".include_variable")
class _:
    def inputs(g):
        n = g.size("n", lo=1)
        return Call(nlp(g), g.sym("v", n), lb=bound(g, "lb", n), ub=bound(g, "ub", n))

    def spec(S, a):
        s, n = a.self, S.n(a.variable)
        lb, ub = S.fill(a.lb, n), S.fill(a.ub, n)
        bad = S.Or(S.ne(S.n(lb), n), S.ne(S.n(ub), n), S.exists(n, lambda i: S.gt(S.at(lb, i), S.at(ub, i))))
        return Expect(raises=[(ValueError, bad)],
                      effects={"self.x": S.cat(s.x, a.variable), "self.x_lb": S.cat(s.x_lb, lb), "self.x_ub": S.cat(s.x_ub, ub)})


@contract("C01.include_variable_default", "C01", M + ".include_variable")
class _:
    def inputs(g):
        return Call(nlp(g), g.sym("v", g.size("n", lo=1)))

    def spec(S, a):
        s, n = a.self, S.n(a.variable)
        return Expect(effects={"self.x": S.cat(s.x, a.variable), "self.x_lb": S.cat(s.x_lb, S.full(-S.inf, n)),
                               "self.x_ub": S.cat(s.x_ub, S.full(S.inf, n))})


@contract("C01.create_variable", "C01", M + ".create_variable")
class _:
    def inputs(g):
        n = g.size("n", lo=1)
        f = lambda nm: g.pick(nm + "_form", [lambda: g.dm(nm, n, zeros=True), lambda: g.real(nm)])
        return Call(nlp(g), "v", n, lb=f("lb"), ub=f("ub"))

    def spec(S, a):
        s, n = a.self, a.size
        lb, ub = S.fill(a.lb, n), S.fill(a.ub, n)
        bad = S.exists(n, lambda i: S.gt(S.at(lb, i), S.at(ub, i)))
        x0 = s.x
        return Expect(raises=[(ValueError, bad)], result=ANY,
                      effects={"self.x": lambda r: S.cat(x0, r), "self.x_lb": S.cat(s.x_lb, lb), "self.x_ub": S.cat(s.x_ub, ub)},
                      post=lambda S, a, r: [("size of the new variable", S.eq(S.n(r), n)),
                                            ("the variable is new", S.Not(S.depends(r, x0)))])


@contract("C01.include_parameter", "C01", M + ".include_parameter")
class _:
    def inputs(g):
        return Call(nlp(g), g.sym("q", g.size("n")))

    def spec(S, a):
        return Expect(effects={"self.p": S.cat(a.self.p, a.par)})


@contract("C01.create_parameter", "C01", M + ".create_parameter")
class _:
    def inputs(g):
        return Call(nlp(g), "q", g.size("n"))

    def spec(S, a):
        p0, n = a.self.p, a.size
        return Expect(result=ANY, effects={"self.p": lambda r: S.cat(p0, r)},
                      post=lambda S, a, r: [("size", S.eq(S.n(r), n))])


@contract("C01.set_objective", "C01", M + ".set_objective")
class _:
    def inputs(g):
        p = nlp(g)
        return Call(p, g.pick("form", [lambda: g.expr("e", g.size("n", lo=1), over=[p.x, p.p]), lambda: g.real("c"),
                                       lambda: g.list([g.expr("e", 1, over=[p.x])])]))

    def spec(S, a):
        e = S.mat(a.expr)
        return Expect(raises=[(ValueError, S.gt(S.n(e), 1))], effects={"self.f": e})


def g_bound(g, name, n):
    return g.pick(name + "_form", [None, lambda: g.dm(name, n, zeros=True), lambda: g.dm(name, 1), lambda: g.real(name),
                                   lambda: g.dm(name + "_other", g.size(name + "_size"))])


@contract("C01.include_inequality", "C01", M + ".include_inequality")
class _:
    def inputs(g):
        p = nlp(g)
        n = g.size("n", lo=1)
        return Call(p, g.expr("e", n, over=[p.x, p.p]), lb=g_bound(g, "lb", n), ub=g_bound(g, "ub", n))

    def spec(S, a):
        s, n = a.self, S.n(a.expr)
        lb = S.full(-S.inf, n) if a.lb is None else S.fill(a.lb, n)
        ub = S.full(S.inf, n) if a.ub is None else S.fill(a.ub, n)
        bad = S.Or(S.ne(S.n(lb), n), S.ne(S.n(ub), n), S.exists(n, lambda i: S.gt(S.at(lb, i), S.at(ub, i))))
        return Expect(raises=[(ValueError, bad)],
                      effects={"self.g": S.cat(s.g, a.expr), "self.g_lb": S.cat(s.g_lb, lb), "self.g_ub": S.cat(s.g_ub, ub)})


@contract("C01.include_inequality_list", "C01", M + ".include_inequality")
class _:
    def inputs(g):
        p = nlp(g)
        return Call(p, g.expr("e", 2, over=[p.x, p.p]), g.reals("lb", 2), g.reals("ub", 2))

    def spec(S, a):
        s, n = a.self, S.n(a.expr)
        lb, ub = S.mat(a.lb), S.mat(a.ub)
        bad = S.exists(n, lambda i: S.gt(S.at(lb, i), S.at(ub, i)))
        return Expect(raises=[(ValueError, bad)],
                      effects={"self.g": S.cat(s.g, a.expr), "self.g_lb": S.cat(s.g_lb, lb), "self.g_ub": S.cat(s.g_ub, ub)})


@contract("C01.include_inequality_symbolic_bound", "C01", M + ".include_inequality")
class _:
    def inputs(g):
        p = nlp(g)
        n = g.size("n", lo=1)
        b = g.expr("b", n, over=[p.x, p.p, g.sym("other", 2)])
        e = g.expr("e", n, over=[p.x, p.p])
        return g.pick("side", [lambda: Call(p, e, lb=b), lambda: Call(p, e, ub=b)]).also(b=b)

    def spec(S, a):
        s, n = a.self, S.n(a.expr)
        bad = S.depends(a.b, S.cat(s.x, s.p))
        lb = S.full(-S.inf, n) if a.lb is None else a.b
        ub = S.full(S.inf, n) if a.ub is None else a.b
        return Expect(raises=[(ValueError, bad)],
                      effects={"self.g": S.cat(s.g, a.expr), "self.g_lb": S.cat(s.g_lb, lb), "self.g_ub": S.cat(s.g_ub, ub)})


@contract("C01.include_equality", "C01", M + ".include_equality")
class _:
    def inputs(g):
        p = nlp(g)
        n = g.size("n", lo=1)
        return Call(p, g.expr("e", n, over=[p.x, p.p]), g_bound(g, "rhs", n))

    def spec(S, a):
        s, n = a.self, S.n(a.expr)
        rhs = S.full(0, n) if a.rhs is None else S.fill(a.rhs, n)
        return Expect(raises=[(ValueError, S.ne(S.n(rhs), n))],
                      effects={"self.g": S.cat(s.g, a.expr), "self.g_lb": S.cat(s.g_lb, rhs), "self.g_ub": S.cat(s.g_ub, rhs)})


@contract("C01.include_equality_symbolic_rhs", "C01", M + ".include_equality")
class _:
    def inputs(g):
        p = nlp(g)
        n = g.size("n", lo=1)
        return Call(p, g.expr("e", n, over=[p.x, p.p]), g.expr("b", n, over=[p.x, p.p, g.sym("other", 2)]))

    def spec(S, a):
        s = a.self
        return Expect(raises=[(ValueError, S.depends(a.rhs, S.cat(s.x, s.p)))],
                      effects={"self.g": S.cat(s.g, a.expr), "self.g_lb": S.cat(s.g_lb, a.rhs), "self.g_ub": S.cat(s.g_ub, a.rhs)})


@contract("C01.include_constraint", "C01", M + ".include_constraint")
class _:
    def inputs(g):
        p = nlp(g, nx_min=1)
        n = g.size("n", lo=1)
        e = g.dep_expr("e", n, p.x, over=[p.x, p.p])
        c = g.dm("c", n, inf=False)
        op = g.pick("op", ["<=", "<", "==", ">=", ">"])
        side = g.flag("constant_on_the_left")
        expr = g.relation(op, c, e) if side else g.relation(op, e, c)
        return Call(p, expr).also(e=e, c=c, op=op, left=side)

    def spec(S, a):
        s, n = a.self, S.n(a.e)
        # the bound that the written relation puts on e
        upper = (a.op in ("<=", "<")) != a.left
        if a.op == "==":
            lb, ub = a.c, a.c
        elif upper:
            lb, ub = S.full(-S.inf, n), a.c
        else:
            lb, ub = a.c, S.full(S.inf, n)
        return Expect(effects={"self.g": S.cat(s.g, a.e), "self.g_lb": S.cat(s.g_lb, lb), "self.g_ub": S.cat(s.g_ub, ub)},
                      raises=[(ValueError, S.exists(n, lambda i: S.gt(S.at(lb, i), S.at(ub, i))))] if a.op != "==" else [])


@contract("C01.include_constraint_rejects", "C01", M + ".include_constraint")
class _:
    def inputs(g):
        p = nlp(g, nx_min=1)
        n = g.size("n", lo=1)
        e = g.dep_expr("e", n, p.x, over=[p.x, p.p])
        e2 = g.dep_expr("e2", n, p.x, over=[p.x, p.p])
        op = g.pick("op", ["<=", "<", "=="])
        return Call(p, g.pick("form", [lambda: g.relation(op, e, e2), lambda: e]))

    def spec(S, a):
        return Expect(raises=[(ValueError, True)])
