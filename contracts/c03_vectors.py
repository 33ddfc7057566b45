"""C03: locating and removing symbols in vectors."""
from pydv.contract import ANY, Call, Expect, Skip, Violation, bounded, contract

U = "yaocptool.util.util:"


def hit(S, vector, i, var):
    return S.exists(S.n(var), lambda j: S.same_sym(vector, i, var, j))


@contract("C03.find_block", "C03", U + "find_variables_indices_in_vector")
class _:
    """A block of the vector is found at its place, in order."""
    def inputs(g):
        a, v, b = g.sym("a", g.size("na"), "SX"), g.sym("v", g.size("nv"), "SX"), g.sym("b", g.size("nb"), "SX")
        return Call(None, v, g.S.cat(a, v, b)).also(na=g.S.n(a), nv=g.S.n(v))

    def spec(S, a):
        return Expect(result=S.seq(a.nv, lambda k: S.add(a.na, k)))


@contract("C03.find_absent", "C03", U + "find_variables_indices_in_vector")
class _:
    def inputs(g):
        return Call(None, g.sym("v", g.size("nv"), "SX"), g.sym("w", g.size("nw"), "SX"))

    def spec(S, a):
        return Expect(result=S.seq(0, lambda k: k))


@contract("C03.find_selection", "C03", U + "find_variables_indices_in_vector")
class _:
    """Any distinct elements, in any order: their positions in that order."""
    def inputs(g):
        w = g.sym("w", g.size("nw"), "SX")
        v, ix = g.select("ix", w, g.size("m"))
        return Call(None, v, w).also(ix=ix, m=g.S.n(v))

    def spec(S, a):
        return Expect(result=S.seq(a.m, a.ix))


@contract("C03.remove", "C03", U + "remove_variables_from_vector")
class _:
    """The vector without the given symbols, the rest in order; an error when none of them is in it."""
    def inputs(g):
        w = g.sym("w", g.size("nw"), "SX")
        v, ix = g.select("ix", w, g.size("m"))
        o = g.sym("o", g.size("no"), "SX")
        return Call(None, g.S.cat(v, o), w).also(v=v)

    def spec(S, a):
        return Expect(raises=[(ValueError, S.eq(S.n(a.v), 0))],
                      result=S.keep(a.vector, lambda i: S.Not(hit(S, a.vector, i, a.v))))


@contract("C03.remove_by_indices", "C03", U + "remove_variables_from_vector_by_indices")
class _:
    def inputs(g):
        n = g.size("nw")
        w = g.pick("kind", [lambda: g.sym("w", n, "SX"), lambda: g.sym("w", n, "MX"), lambda: g.dm("w", n)])
        m = g.pick("m", [0, 1, 2, 3])
        ind = [g.int("i%d" % k, -4, 5) for k in range(m)]
        return Call(None, g.list(ind), w).also(ind=ind)

    def spec(S, a):
        n = S.n(a.vector)
        bad = S.Or(*[S.Or(S.le(n, i), S.lt(S.add(n, i), 0)) for i in a.ind])
        return Expect(raises=[(ValueError, bad)],
                      result=S.keep(a.vector, lambda k: S.And(*[S.And(S.ne(k, i), S.ne(k, S.add(i, n))) for i in a.ind])))


@bounded("C03.by_name", "C03", U + "find_variables_in_vector_by_name", why="names are strings matched by Python's re module", runs=200)
def _by_name(g):
    import re
    import casadi as ca
    from yaocptool.util.util import find_variables_in_vector_by_name as find
    pool = ["x", "x_1", "ax", "x1", "xx", "u[0]", "T", "t", "a.b", "x_10"]
    names = [g.rng.choice(pool) for _ in range(g.rng.randint(0, 6))]
    vec = ca.vertcat(*[ca.SX.sym(n) for n in names]) if names else ca.SX(0, 1)
    exact = g.rng.random() < 0.5
    req = [g.rng.choice(pool + ["x.*", "x_\\d+$", "^a", "nothing"]) for _ in range(g.rng.randint(1, 3))]
    if exact:
        want = [i for r in req for i, n in enumerate(names) if n == r]
    else:
        want = [i for r in req for i, n in enumerate(names) if re.match(r, n)]
    one = len(req) == 1 and g.rng.random() < 0.5
    kept = list(req)
    g._rec("case", (names, req, exact, one))
    arg = req[0] if one else req
    got = find(arg, vec, exact=exact) if exact or g.rng.random() < 0.5 else find(arg, vec)
    if kept != req:
        raise Violation("the caller's list of names was changed")
    if len(got) != len(want) or not all(ca.is_equal(a, vec[i]) for a, i in zip(got, want)):
        raise Violation("names %s requested %s exact=%s: got %s, want positions %s" % (names, req, exact, got, want))
