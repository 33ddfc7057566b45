"""C18: problems with uncertain parameters, samples and polynomial chaos."""
from pydv.contract import ANY, Call, Expect, NS, Violation, bounded, contract

SM = "yaocptool.modelling.system_model:SystemModel"
SO = "yaocptool.modelling.stochastic_ocp:StochasticOCP"


def problem(g, nx=2, np_=3):
    m = g.new(SM, name="m")
    x = g.call(m, "create_state", "x", nx)
    u = g.call(m, "create_control", "u", 1)
    p = g.call(m, "create_parameter", "p", np_)
    g.call(m, "include_equations", ode=g.fexpr("f", nx, [x, u, p]))
    o = g.new(SO, m, t_f=1.0)
    return NS(dict(o=o, m=o.model, x=x, u=u, p=p))


def uncertainty(g, tag, n):
    """(mean, covariance, as they are given): n uncertain values"""
    S = g.S
    if n == 1 and g.flag(tag + " as numbers"):
        a, b = g.real(tag + "_mean"), g.real(tag + "_cov")
        return S.mat(a), S.mat(b), a, b
    mean, cov = g.dm(tag + "_mean", n, inf=False), g.matrix(tag + "_cov", n, n)
    form = g.pick(tag + " mean", ["dm", "list"])
    return mean, cov, mean if form == "dm" else g.list([S.at(mean, i) for i in range(n)]), cov


def blocks(S, covs):
    """What stands in row i, column j of the block diagonal matrix, and its size."""
    n = sum(k for k, _ in covs)

    def at(i, j):
        start = 0
        for k, c in covs:
            if start <= i < start + k and start <= j < start + k:
                return S.at2(c, i - start, j - start)
            start += k
        return 0.0
    return n, at


@contract("C18.uncertain_parameters", "C18", SO + ".set_parameter_as_uncertain_parameter", budget=100)
class _:
    """Every uncertain value has its own mean, covariance and distribution, in the order they were declared."""
    def inputs(g):
        k = problem(g, 3, 4)
        ns = g.pick("sizes", [(1,), (2,), (1, 2), (2, 1, 1)])
        kind = g.pick("kind", ["set", "create", "include", "initial"])
        sets = []
        for i, n in enumerate(ns):
            at = [(2 * i + j) % 4 if kind == "set" else (i + j) % 3 for j in range(n)]
            sets.append((n, at, uncertainty(g, "d%d" % i, n), g.pick("distribution %d" % i, [None, "uniform"]) if i == 0 else None, g.sym("q%d" % i, n, "SX")))
        return Call(k.o).also(k=k, sets=sets, kind=kind)

    def body(R, a):
        S, o = R.S, a.self
        declared = []
        for i, (n, at, (_, _, mean, cov), dist, q) in enumerate(a.sets):
            kw = {} if dist is None else {"distribution": dist}
            if a.kind == "set":
                v = S.cat(*[S.elem(a.k.p, j) for j in at])
                R.call(o, "set_parameter_as_uncertain_parameter", v, mean, cov, **kw)
            elif a.kind == "initial":
                v = S.cat(*[S.elem(a.k.m.x_0, j) for j in at])
                R.call(o, "set_initial_condition_as_uncertain", v, mean, cov, **kw)
            elif a.kind == "include":
                v = q
                R.call(o, "include_uncertain_parameter", v, mean, cov, **kw)
            else:
                v = R.call(o, "create_uncertain_parameter", "w%d" % i, mean, cov, size=n, **kw)
            declared.append(v)
        if a.kind == "initial":
            return declared, R.call(o, "get_uncertain_initial_cond_indices"), None
        return declared, R.call(o, "get_p_unc_indices"), R.call(o, "get_p_without_p_unc")

    def spec(S, a):
        def post(S, a, r):
            o, m = a.self, a.k.m
            declared, where, rest = [S.item(r, i) for i in range(3)]
            vs = S.cat(*[S.item(declared, i) for i in range(len(a.sets))])
            means = S.cat(*[s[2][0] for s in a.sets])
            n, at = blocks(S, [(s[0], s[2][1]) for s in a.sets])
            dist = [s[3] or "normal" for s in a.sets for _ in range(s[0])]
            pre = "uncertain_initial_conditions" if a.kind == "initial" else "p_unc"
            got = {"": getattr(o, pre), "mean": getattr(o, pre + "_mean"), "cov": getattr(o, pre + "_cov")}
            d = o.uncertain_initial_conditions_distribution if a.kind == "initial" else o.p_unc_dist
            out = [("variables", S.same(got[""], vs)), ("mean", S.same(got["mean"], means)), ("distribution", S.items(d) == dist),
                   ("covariance: shape", S.And(S.eq(S.rows(got["cov"]), n), S.eq(S.cols(got["cov"]), n))),
                   ("covariance", S.And(*[S.eq(S.at2(got["cov"], i, j), at(i, j)) for i in range(n) for j in range(n)]))]
            # where they stand in the vectors of the model
            if a.kind in ("set", "initial"):
                want = [j for s in a.sets for j in s[1]]
                keep = [j for j in range(4) if j not in want]
                names = [("parameters of the model", S.same(m.p, a.k.p))]
            else:
                want = [4 + j for j in range(n)]
                keep = [0, 1, 2, 3]
                names = [("parameters of the model", S.same(m.p, S.cat(a.k.p, vs)))]
            out += names + [("positions", S.items(where) == want)]
            if a.kind != "initial":
                out.append(("certain parameters", S.same(rest, S.cat(*[S.elem(a.k.p, j) for j in keep]) if keep else S.empty("SX"))))
            other = "p_unc" if a.kind == "initial" else "uncertain_initial_conditions"
            out.append(("nothing else is uncertain", S.And(S.eq(S.n(getattr(o, other)), 0), S.eq(S.n(getattr(o, other + "_mean")), 0))))
            return out
        return Expect(result=ANY, post=post, frees=("self.model", "self.p_unc", "self.p_unc_mean", "self.p_unc_cov", "self.p_unc_dist", "self.uncertain_initial_conditions",
                                                   "self.uncertain_initial_conditions_mean", "self.uncertain_initial_conditions_cov", "self.uncertain_initial_conditions_distribution"))


@contract("C18.sizes", "C18", SO + ".set_parameter_as_uncertain_parameter")
class _:
    """A mean or a covariance of another size is refused and nothing changes."""
    def inputs(g):
        k = problem(g)
        n, nm, r, c = g.pick("sizes", [(1, 2, 1, 1), (2, 1, 2, 2), (2, 2, 1, 1), (2, 2, 2, 1), (1, 1, 2, 2), (2, 2, 3, 3), (2, 2, 1, 2), (2, 1, 1, 1)])
        initial = g.flag("initial condition")
        v = g.S.sl(k.m.x_0 if initial else k.p, 0, n)
        return Call(k.o).also(v=v, mean=g.dm("mean", nm, inf=False), cov=g.matrix("cov", r, c), meth="set_initial_condition_as_uncertain" if initial else "set_parameter_as_uncertain_parameter")

    def body(R, a):
        return R.refused(a.self, a.meth, a.v, a.mean, a.cov)

    def spec(S, a):
        return Expect(result=True, watch=["self." + q for q in ("p_unc", "p_unc_mean", "p_unc_cov", "uncertain_initial_conditions", "uncertain_initial_conditions_mean", "uncertain_initial_conditions_cov")])


@contract("C18.chance_constraints", "C18", SO + ".include_time_chance_inequality")
class _:
    """Every row has its own right hand side (zero if none is given) and probability; others are refused."""
    def inputs(g):
        S = g.S
        k = problem(g)
        first = g.flag("after another")
        n = g.pick("n", [1, 2, 3])
        sizes = g.pick("fits", [(n, n), (n, n), (n + 1, n), (n, n + 1), (n, 1), (1, n)])
        e0, e = g.expr("e0", 1, over=[k.x], kind="SX"), g.expr("e", n, over=[k.x, k.u, k.p], kind="SX")
        rhs, prob = g.dm("rhs", sizes[0], inf=False), g.dm("prob", sizes[1], inf=False)
        form = g.pick("form", ["dm", "list", "no rhs", "numbers"])
        ok = sizes == (n, n) or form == "no rhs" and sizes[1] == n
        if form == "numbers":
            ok = n == 1
        if first:
            g.call(k.o, "include_time_chance_inequality", e0, 0.5, rhs=2.0)
        return Call(k.o).also(e0=e0, e=e, rhs=rhs, prob=prob, form=form, ok=ok, first=first, n=n, ns=sizes, a=g.real("a"), b=g.real("b"))

    def body(R, a):
        S, o = R.S, a.self
        if a.form == "numbers":
            return R.refused(o, "include_time_chance_inequality", a.e, a.a, rhs=a.b)
        if a.form == "list":
            es = [S.elem(a.e, i) for i in range(a.n)]
            return R.refused(o, "include_time_chance_inequality", R.list(es), R.list([S.at(a.prob, i) for i in range(a.ns[1])]), rhs=R.list([S.at(a.rhs, i) for i in range(a.ns[0])]))
        if a.form == "no rhs":
            return R.refused(o, "include_time_chance_inequality", a.e, a.prob)
        return R.refused(o, "include_time_chance_inequality", a.e, a.prob, rhs=a.rhs)

    def spec(S, a):
        s = a.self
        if not a.ok:
            return Expect(result=True, watch=["self.g_stochastic_ineq", "self.g_stochastic_rhs", "self.g_stochastic_prob"])
        rhs, prob = (S.mat(a.b), S.mat(a.a)) if a.form == "numbers" else (S.full(0.0, a.n) if a.form == "no rhs" else a.rhs, a.prob)
        pre = lambda v, w: S.cat(v, w) if a.first else w
        return Expect(result=False, effects={"self.g_stochastic_ineq": pre(a.e0, a.e), "self.g_stochastic_rhs": pre(S.mat(2.0), rhs), "self.g_stochastic_prob": pre(S.mat(0.5), prob)})


@bounded("C18.samples", "C18", "yaocptool.stochastic.util:sample_parameter_normal_distribution_with_sobol", why="Sobol points and normal quantiles by libraries", runs=40)
def _samples(g):
    import casadi as ca
    import math
    import numpy as np
    import sobol_seq
    from scipy.stats import norm
    from yaocptool.stochastic.util import sample_parameter_log_normal_distribution_with_sobol as lognormal, sample_parameter_normal_distribution_with_sobol as normal
    r = g.rng
    n, N = r.randint(1, 4), r.choice([1, 2, 3, 5, 8, 16])
    B = np.array([[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
    cov = B @ B.T + 0.3 * np.eye(n)
    log = r.random() < 0.4
    mean = [round(r.uniform(0.5, 3), 3) if log else round(r.uniform(-3, 3), 3) for _ in range(n)]
    g._rec("mean", mean)
    g._rec("cov", cov.tolist())
    g._rec("N", N)
    z = norm.ppf(sobol_seq.i4_sobol_generate(n, N, math.ceil(np.log2(N)))).T
    want = np.linalg.cholesky(cov) @ z + (np.log(np.array(mean)) if log else np.array(mean))[:, None]
    given = list(mean) if r.random() < 0.5 else ca.DM(mean)
    got = (lognormal if log else normal)(given, ca.DM(cov), N).full()
    if log:
        want = np.exp(want)
    if got.shape != want.shape or not np.allclose(got, want, atol=1e-7):
        raise Violation("samples %s instead of %s" % (got, want))


@bounded("C18.chaos", "C18", "yaocptool.stochastic.pce:get_ls_factor", why="least squares of numbers; expectations estimated by sampling", runs=3)
def _chaos(g):
    r = g.rng
    for n, order in ((1, 10), r.choice([(1, 4), (2, 3), (3, 2), (2, 4), (1, 6), (2, 1)])):
        one_expansion(g, n, order)


def one_expansion(g, n, order):
    import casadi as ca
    import itertools
    import math
    import numpy as np
    import sobol_seq
    from numpy.polynomial.hermite_e import hermeval
    from scipy.stats import norm
    from yaocptool.stochastic.pce import get_ls_factor
    r = g.rng
    count = math.comb(n + order, order)
    N = count + r.randint(0, 5)
    g._rec("n, order, samples", [n, order, N])
    ls, exp_phi, psi = get_ls_factor(n, N, order)
    ls = ls.full()
    exps = [e for e in itertools.product(range(order + 1), repeat=n) if sum(e) <= order]
    basis = lambda x: np.array([np.prod([hermeval(x[j], [0] * e[j] + [1]) for j in range(n)]) for e in exps])
    for _ in range(3):
        x = [r.uniform(-2, 2) for _ in range(n)]
        got, want = psi(ca.DM(x)).full().flatten(), basis(x)
        if got.shape != want.shape or not np.allclose(got, want, atol=1e-6, rtol=1e-6):
            raise Violation("polynomials at %s: %s instead of %s" % (x, got, want))
    z = norm.ppf(sobol_seq.i4_sobol_generate(n, N, math.ceil(np.log2(N))))
    A = np.array([basis(z[i]) for i in range(N)])
    if ls.shape != (count, N) or order <= 4 and not np.allclose(ls @ A, np.eye(count), atol=1e-2):
        raise Violation("the fit of a polynomial at the samples does not give the polynomial back")
    want = np.array([np.prod([math.factorial(q) for q in e]) for e in exps], float)
    low = [i for i, e in enumerate(exps) if sum(e) <= 2]
    if exp_phi.numel() != count or not np.allclose(exp_phi.full().flatten()[low], want[low], rtol=0.25):
        raise Violation("expectations of the squares %s instead of %s" % (exp_phi, want))
