"""C12: parameters given element by element."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract

U = "yaocptool.util.util:"


@contract("C12.constant", "C12", U + "create_constant_theta")
class _:
    def inputs(g):
        n, N = g.size("n", hi=3), g.size("N", hi=4)
        c = g.pick("form", [lambda: g.real("c"), 3])
        return Call(None, c, n, N).also(n=n, N=N, c=c)

    def spec(S, a):
        return Expect(result=S.rangedict(a.N, lambda i: S.full(a.c, a.n)))


@contract("C12.constant_matrix", "C12", U + "create_constant_theta")
class _:
    def inputs(g):
        n, N = g.size("n", hi=3), g.size("N", hi=4)
        m = g.pick("m", [1, 2, 3])
        return Call(None, g.real("c"), (n, m), N).also(n=n, N=N, m=m)

    def spec(S, a):
        return Expect(result=S.rangedict(a.N, lambda i: S.full(a.constant, S.mul(a.n, a.m))))


@contract("C12.join", "C12", U + "join_thetas")
class _:
    """Entries are joined key by key, in the order given; None and empty ones are skipped."""
    def inputs(g):
        N = g.size("N", lo=1, hi=3)
        parts = []
        for i in range(g.pick("count", [0, 1, 2, 3])):
            parts.append(g.pick("form%d" % i, [None, lambda: g.dict({}), lambda: g.dmdict("th%d" % i, N, g.size("n%d" % i, hi=2))]))
        return Call(None, *parts).also(parts=parts, N=N)

    def spec(S, a):
        use = [p for p in a.parts if p is not None and (p if isinstance(p, dict) else p.rng)]
        if not use:
            return Expect(result={} if not S.symbolic else S.rangedict(0, lambda i: S.empty()), check_result=not S.symbolic)
        return Expect(result=S.rangedict(a.N, lambda i: S.cat(*[S.get(p, i) for p in use])))


@contract("C12.join_rejects", "C12", U + "join_thetas")
class _:
    """Parts that are given for different numbers of elements do not fit together."""
    def inputs(g):
        N, M = g.size("N", lo=1, hi=3), g.size("M", lo=1, hi=3)
        g.assume(g.S.ne(N, M))
        parts = [g.dmdict("a", N, g.size("na", hi=2)), g.dmdict("b", M, g.size("nb", hi=2))]
        extra = g.pick("extra", ["no", "none", "same"])
        if extra != "no":
            parts.insert(g.pick("at", [0, 1, 2]), None if extra == "none" else g.dmdict("c", N, g.size("nc", hi=2)))
        return Call(None, *parts)

    def spec(S, a):
        return Expect(raises=[(ValueError, True)])
