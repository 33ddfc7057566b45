"""C10: the layout of the decision vector."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract
from contracts.c06_ocp import ocp

D = "yaocptool.methods.classic.directmethod:DirectMethod"
COL = "yaocptool.methods.classic.collocationscheme:CollocationScheme"
MS = "yaocptool.methods.classic.multipleshooting:MultipleShootingScheme"


def method(g, scheme, degrees=(1, 2, 3, 4), controls=True, counts=None, dcs=(1, 2, 3)):
    k = ocp(g, small=True, guess=False, least={"u": 1} if controls else {})
    if not controls:
        g.assume(g.S.eq(g.S.n(k.u), 0))
    g.put(k.o, p_opt=k.p, theta_opt=k.theta)
    N = g.size("N", lo=1, hi=3) if counts is None else g.pick("N", list(counts))
    d = g.pick("degree", list(degrees))
    dc = g.pick("degree_control", list(dcs))
    g.put(k.o, eta=g.sym("eta", g.size("n_eta", hi=2), "SX"))
    for w in ("delta_u_min", "delta_u_max"):
        g.put(k.o, **{w: g.S.full(-g.S.inf if w.endswith("min") else g.S.inf, g.S.n(k.u))})
    m = g.new(D, k.o, finite_elements=N, degree=d, degree_control=dc, discretization_scheme=scheme)
    return NS(dict(k.__dict__, me=m, N=N, d=d, dc=dc))


def block(S, v, start, n):
    return S.sl(v, start, S.add(start, n))


def total(S, k, scheme, npo=None, nto=None):
    """(start of the blocks of y, u, eta, p_opt, theta_opt, and the size of the decision vector)"""
    m, N = k.mo, k.N
    nx, ny, nu, ne, np_, nt = S.n(m.x), S.n(m.y), S.n(m.u), S.n(k.o.eta), S.n(m.p) if npo is None else npo, S.n(m.theta) if nto is None else nto
    if scheme == "collocation":
        y = S.mul(N, S.mul(S.add(k.d, 1), nx))
        u = S.add(y, S.mul(N, S.mul(k.d, ny)))
    else:
        y = S.mul(S.add(N, 1), nx)
        u = S.add(y, S.mul(N, ny))
    e = S.add(u, S.mul(N, S.mul(k.dc, nu)))
    p = S.add(e, ne)
    t = S.add(p, np_)
    return y, u, e, p, t, S.add(t, S.mul(N, nt))


@contract("C10.unpack_collocation", "C10", COL + ".unpack_decision_variables", budget=100)
class _:
    """[x of every element and point; y; u; eta; p_opt; theta_opt of every element], any number of elements and any sizes."""
    def inputs(g):
        c = g.flag("controls")
        k = method(g, "collocation", controls=c)
        return Call(k.me.discretizer, g.dm("v", total(g.S, k, "collocation")[-1])).also(k=k, c=c)

    def spec(S, a):
        k, m, N, v = a.k, a.k.mo, a.k.N, a.decision_variables
        nx, ny, nu, nt = S.n(m.x), S.n(m.y), S.n(m.u), S.n(m.theta)
        y, u, e, p, t, _ = total(S, k, "collocation")
        at = lambda start, el, per, j, n: block(S, v, S.add(start, S.add(S.mul(el, S.mul(per, n)), S.mul(j, n))), n)
        rows = lambda start, per, n: S.seq(N, lambda el: S.seq(per, lambda j: at(start, el, per, j, n)))
        x = S.join(rows(0, S.add(k.d, 1), nx), [[at(0, S.sub(N, 1), S.add(k.d, 1), k.d, nx)]])
        return Expect(result=(x, rows(y, k.d, ny), rows(u, k.dc if a.c else 0, nu), block(S, v, e, S.n(k.o.eta)), block(S, v, p, S.n(m.p)),
                              S.seq(N, lambda el: block(S, v, S.add(t, S.mul(el, nt)), nt))))


@contract("C10.unpack_shooting", "C10", MS + ".unpack_decision_variables", budget=100)
class _:
    def inputs(g):
        c = g.flag("controls")
        k = method(g, "multiple-shooting", degrees=(3,), controls=c)
        return Call(k.me.discretizer, g.dm("v", total(g.S, k, "multiple-shooting")[-1])).also(k=k, c=c)

    def spec(S, a):
        k, m, N, v = a.k, a.k.mo, a.k.N, a.decision_variables
        nx, ny, nu, nt = S.n(m.x), S.n(m.y), S.n(m.u), S.n(m.theta)
        y, u, e, p, t, _ = total(S, k, "multiple-shooting")
        one = lambda start, count, n: S.seq(count, lambda el: [block(S, v, S.add(start, S.mul(el, n)), n)])
        uu = S.seq(N, lambda el: [block(S, v, S.add(u, S.add(S.mul(el, S.mul(k.dc, nu)), S.mul(j, nu))), nu) for j in range(k.dc if a.c else 0)])
        return Expect(result=(one(0, S.add(N, 1), nx), one(y, N, ny), uu, block(S, v, e, S.n(k.o.eta)), block(S, v, p, S.n(m.p)),
                              S.seq(N, lambda el: block(S, v, S.add(t, S.mul(el, nt)), nt))))


@contract("C10.repack", "C10", COL + ".repack_decision_variables", budget=60)
class _:
    """The inverse of unpacking."""
    def inputs(g):
        k = method(g, "collocation", degrees=(1, 2))
        return Call(k.me.discretizer).also(k=k, v=g.dm("v", total(g.S, k, "collocation")[-1]))

    def body(R, a):
        r = R.call(a.self, "unpack_decision_variables", a.v)
        return R.call(a.self, "repack_decision_variables", *[R.S.item(r, i) for i in range(6)])

    def spec(S, a):
        return Expect(result=a.v)


def rep(S, v, n, count):
    """v, count times one below the other"""
    return S.stack(count, lambda i: v)


@contract("C10.guess_from_problem", "C10", COL + ".create_initial_guess", budget=100)
class _:
    """Every state point starts at the initial value, y and u at their guesses or zero."""
    def inputs(g):
        scheme = g.pick("scheme", ["collocation", "multiple-shooting"])
        c = g.flag("controls")
        k = method(g, scheme, degrees=(1, 3), controls=c)
        for q, n in (("y_guess", g.S.n(k.y)), ("u_guess", g.S.n(k.u))):
            g.put(k.o, **{q: g.pick(q + "_form", [None, lambda: g.dm(q, n)])})
        return Call(k.me.discretizer).also(k=k, c=c, scheme=scheme)

    def body(R, a):
        return R.call(a.self, "create_initial_guess")

    def spec(S, a):
        k, o, m, N = a.k, a.k.o, a.k.mo, a.k.N
        nx, ny, nu = S.n(m.x), S.n(m.y), S.n(m.u)
        cx, cy = (S.mul(N, k.d + 1), S.mul(N, k.d)) if a.scheme == "collocation" else (S.add(N, 1), N)
        zero = lambda n: S.full(0, n)
        parts = [rep(S, o.x_0, nx, cx), rep(S, o.y_guess if o.y_guess is not None else zero(ny), ny, cy)]
        if a.c:
            parts.append(rep(S, o.u_guess if o.u_guess is not None else zero(nu), nu, S.mul(N, k.dc)))
        parts += [zero(S.n(o.eta)), zero(S.n(m.p)), zero(S.mul(N, S.n(m.theta)))]
        return Expect(result=S.cat(*parts))


@contract("C10.guess_parameters", "C10", COL + ".create_initial_guess", budget=100)
class _:
    """Optimized parameters start at the values given for them, for any selection of optimized parameters in any order."""
    def inputs(g):
        scheme = g.pick("scheme", ["collocation", "multiple-shooting"])
        k = method(g, scheme, degrees=(2,), controls=False)
        po, pi = g.select("p_opt", k.p, g.size("n_po", hi=g.upto(k.p, 2)))
        to, ti = g.select("th_opt", k.theta, g.size("n_to", hi=g.upto(k.theta, 2)))
        g.put(k.o, p_opt=po, theta_opt=to, y_guess=None, u_guess=None)
        a = {}
        if g.flag("p"):
            a["p"] = g.dm("pv", g.S.n(k.p))
        if g.flag("theta"):
            a["theta"] = g.dmdict("tv", k.N, g.S.n(k.theta))
        return Call(k.me.discretizer).also(pv=a.get("p"), tv=a.get("theta"), k=k, scheme=scheme, pi=pi, ti=ti, po=po, to=to)

    def body(R, a):
        return R.call(a.self, "create_initial_guess", p=a.pv, theta=a.tv)

    def spec(S, a):
        k, o, m, N = a.k, a.k.o, a.k.mo, a.k.N
        nx, ny = S.n(m.x), S.n(m.y)
        cx, cy = (S.mul(N, k.d + 1), S.mul(N, k.d)) if a.scheme == "collocation" else (S.add(N, 1), N)
        npo, nto = S.n(a.po), S.n(a.to)
        p = S.vmap(npo, lambda i: S.at(a.pv, a.pi(i))) if a.pv is not None else S.full(0, npo)
        th = (S.stack(N, lambda el: S.vmap(nto, lambda i: S.at(S.get(a.tv, el), a.ti(i)))) if a.tv is not None
              else S.full(0, S.mul(N, nto)))
        return Expect(result=S.cat(rep(S, o.x_0, nx, cx), S.full(0, S.mul(cy, ny)), S.full(0, S.n(o.eta)), p, th))
