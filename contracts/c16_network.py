"""C16: a network is the composition of its nodes and connections."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract
from contracts.c04_model import SM, model
from contracts.c06_ocp import EXPRS, OCP, ocp
from contracts.c07_compose import VECS

NET = "yaocptool.modelling.network.network:Network"
NODE = "yaocptool.modelling.network.node:Node"


@contract("C16.nodes", "C16", NET + ".include_nodes")
class _:
    """Every node has an id of its own and is found by it and by its name; nodes included again stay one."""
    def inputs(g):
        net = g.new(NET)
        given = g.pick("ids", [(None, None, None), (0, None, None), (1, None, None), (None, 2, None), (7, None, 1), (2, 1, 0), (None, 0, None), (None, 1, 0)])
        nodes = [g.new(NODE, node_id=i, name="n%d" % q) for q, i in enumerate(given)]
        form = g.pick("form", ["one by one", "list", "again", "constructor"] if given not in ((None, 0, None), (None, 1, 0)) else ["list", "constructor"])
        return Call(net).also(nodes=nodes, given=given, form=form, li=g.list(list(nodes)), cls=g.cls(NET))

    def body(R, a):
        if a.form == "constructor":
            net = R.fn(a.cls, a.li)
        else:
            net = a.self
            for q in ([a.li] if a.form == "list" else a.nodes):
                R.call(net, "include_nodes", q)
            if a.form == "again":
                R.call(net, "include_nodes", a.nodes[0])
        ids = [q.node_id for q in a.nodes]
        out = [ids, R.S.items(net.nodes)]
        if all(isinstance(i, int) for i in ids):
            out.append([R.call(net, "get_node_by_id", i) for i in ids] + [R.call(net, "__getitem__", i) for i in ids] + [R.call(net, "__getitem__", "n%d" % q) for q in range(3)])
        else:
            out.append([])
        out += [[R.call(net, "get_node_by_name", "n%d" % q) for q in range(3)], R.call(net, "get_node_by_id", 99), R.call(net, "get_node_by_name", "none")]
        return out

    def spec(S, a):
        def post(S, a, r):
            ids, nodes, by_id, by_name, none, none2 = r
            return [("ids", all(isinstance(i, int) for i in ids) and len(set(ids)) == 3), ("given ids stay", all(i is None or i == j for i, j in zip(a.given, ids))),
                    ("nodes", len(nodes) == 3 and all(S.is_same(x, y) for x, y in zip(nodes, a.nodes))),
                    ("by id", len(by_id) == 9 and all(S.is_same(x, y) for x, y in zip(by_id, a.nodes * 3))),
                    ("by name", all(S.is_same(x, y) for x, y in zip(by_name, a.nodes))), ("absent", none is None and none2 is None)]
        return Expect(result=ANY, post=post, frees=["self.*", "nodes.*"], check_result=False)


@contract("C16.absent", "C16", NET + ".__getitem__")
class _:
    """Asking for a node that is not there fails instead of giving another one."""
    def inputs(g):
        net = g.new(NET)
        for q in range(2):
            g.call(net, "create_node", name="n%d" % q)
        key = g.pick("key", [2, -1, 7, "n2", "", "n"])
        return Call(net, key).also(key=key)

    def spec(S, a):
        return Expect(raises=[(IndexError if isinstance(a.key, int) else KeyError, S.eq(0, 0))])


@contract("C16.disconnect", "C16", NET + ".remove_connection")
class _:
    """A removed connection is gone, in its direction only."""
    def inputs(g):
        net = g.new(NET)
        ms = [model(g, t, hi=1, least={"u": 1, "y": 1}) for t in ("a_", "b_")]
        ns = [g.call(net, "create_node", name="n%d" % q, model=k.m) for q, k in enumerate(ms)]
        for i, j in ((0, 1), (1, 0)):
            g.call(net, "connect", g.S.elem(ms[i].y, 0), g.S.elem(ms[j].u, 0), ns[i], ns[j])
        i = g.pick("which", [0, 1])
        return Call(net, ns[i], ns[1 - i]).also(ns=ns, i=i)

    def spec(S, a):
        def post(S, a, r):
            left = [tuple(z) for z in S.items(a.self.connections)]
            return [("one left", len(left) == 1), ("the other one", len(left) == 1 and S.is_same(left[0][0], a.ns[1 - a.i]) and S.is_same(left[0][1], a.ns[a.i])),
                    ("nodes", len(S.items(a.self.nodes)) == 2)]
        return Expect(post=post, frees=["self.graph", "self.graph.*"], result=ANY)


def two(g, problems=True, n=2, hi=2, least={}):
    """A network of n nodes with arbitrary problems (or models), with ids in the order of creation or against it."""
    ks = []
    for q in range(n):
        tag = "abc"[q] + "_"
        ks.append(ocp(g, tag, guess=False, small=True, hi=hi, least=least, t_0=0.5, t_f=1.5) if problems else model(g, tag, hi=hi, least=least))
    net = g.new(NET)
    order = list(range(n))
    if g.pick("ids", ["counted", "given"]) == "given":
        order.reverse()
    nodes = [g.call(net, "create_node", name="n%d" % q, node_id=3 + order[q] if order[0] else None, **({"problem": k.o} if problems else {"model": k.m}))
             for q, k in enumerate(ks)]
    return NS(dict(net=net, ks=ks, nodes=nodes, order=order, parts=[ks[q].o if problems else ks[q].m for q in order]))


def edge(g, w, i, j, tag):
    """A selection of controls of node j and as many algebraic variables of node i."""
    if g.pick("form" + tag, ["one", "several"]) == "one":
        at = g.index("iu" + tag, g.S.n(w.ks[j].u))
        iu = lambda q: at
        u, y = g.S.elem(w.ks[j].u, at), g.S.elem(w.ks[i].y, g.index("iy" + tag, g.S.n(w.ks[i].y)))
    else:
        m = g.size("m" + tag, lo=1, hi=2)
        u, iu = g.select("iu" + tag, w.ks[j].u, m)
        y, _ = g.select("iy" + tag, w.ks[i].y, m)
    return NS(dict(u=u, y=y, i=i, j=j, iu=iu))


@contract("C16.connect", "C16", NET + ".connect", budget=90)
class _:
    """A connection keeps which output feeds which input, after those made before; variables of other nodes are rejected."""
    def inputs(g):
        g.track_symbols()
        w = two(g, problems=False, least={"u": 1, "y": 1})
        first = g.pick("before", ["none", "same", "reverse"])
        e0 = None
        if first == "same":
            e0 = edge(g, w, 0, 1, "0")
        elif first == "reverse":
            e0 = edge(g, w, 1, 0, "0")
        if e0 is not None:
            g.call(w.net, "connect", e0.y, e0.u, w.nodes[e0.i], w.nodes[e0.j])
        e = edge(g, w, 0, 1, "1")
        swap = g.pick("given", ["right", "swapped", "u", "y", "foreign u", "foreign y"])
        a, b = (0, 1) if swap != "swapped" else (1, 0)
        if swap == "u":
            e.u = g.S.elem(w.ks[0].u, 0)
        elif swap == "y":
            e.y = g.S.elem(w.ks[1].y, 0)
        elif swap.startswith("foreign"):
            setattr(e, swap[-1], g.sym("w", 1, "SX"))
        return Call(w.net, e.y, e.u, w.nodes[a], w.nodes[b]).also(w=w, e0=e0, e=e, first=first, swap=swap)

    def spec(S, a):
        def post(S, a, r):
            got = {}
            for x in S.items(a.self.connections):
                key = tuple([i for i in range(2) if S.is_same(a.w.nodes[i], z)][0] for z in x)
                d = S.get(a.self.connections, x)
                got[key] = (S.get(d, "y"), S.get(d, "u"))
            want = {}
            if a.e0 is not None:
                want[(a.e0.i, a.e0.j)] = (a.e0.y, a.e0.u)
            if a.swap == "right":
                b = want.get((0, 1))
                want[(0, 1)] = (S.cat(b[0], a.e.y), S.cat(b[1], a.e.u)) if b else (a.e.y, a.e.u)
            out = [("connections", sorted(got) == sorted(want))]
            for k in want:
                if k in got:
                    out += [("y of %s" % (k,), S.same(got[k][0], want[k][0])), ("u of %s" % (k,), S.same(got[k][1], want[k][1]))]
            return out
        return Expect(raises=[(ValueError, S.eq(0, 0 if a.swap != "right" else 1))], post=post, frees=["self.graph", "self.graph.*"])


def edges(g, w, form):
    """Connections of the network: none, from the first node to the second, or back as well."""
    out = []
    for q, (i, j) in enumerate([] if form == "none" else [(0, 1)] if form == "one" else [(0, 1), (1, 0)]):
        e = edge(g, w, i, j, str(q))
        g.call(w.net, "connect", e.y, e.u, w.nodes[i], w.nodes[j])
        out.append(e)
    return out


def composed(S, r, parts, es):
    """What the model r is when it is composed of the models in parts (in that order) and the connections es."""
    want = {q: S.cat(*[getattr(m, q) for m in parts]) for q in VECS}
    want["ode"], want["alg"] = [_ren(S, [getattr(m, q) for m in parts], parts, r, S.cat) for q in ("ode", "alg")]
    u = want["u"]
    for e in es:
        want["y"] = S.cat(want["y"], e.u)
        want["alg"] = S.cat(want["alg"], S.vmap(S.n(e.u), lambda i, e=e: S.sub(S.at(e.u, i), S.at(e.y, i)), kind="SX"))
    for e in es:
        u = S.keep(u, lambda i, e=e, u=u: S.Not(S.exists(S.n(e.u), lambda j: S.same_sym(u, i, e.u, j))))
    want["u"] = want["u_par"] = want["u_expr"] = u
    return want


def _ren(S, es, parts, r, op):
    """The expressions es of the parts, joined one after the other, each with its time symbols replaced by those of r."""
    e = None
    for x, m in zip(es, parts):
        e = S.subst(S.subst(x if e is None else op(e, x), m.t, r.t), m.tau, r.tau)
    return e


@contract("C16.get_model", "C16", NET + ".get_model", budget=150)
class _:
    """The model of a network is that of its nodes, in the order of their ids, with every connected input tied to its output."""
    def inputs(g):
        g.track_symbols()
        form = g.pick("edges", ["none", "one"])
        w = two(g, problems=False, least={} if form == "none" else {"u": 1, "y": 1})
        return Call(w.net).also(w=w, es=edges(g, w, form), m0=w.ks[0].m, m1=w.ks[1].m)

    def spec(S, a):
        parts = a.w.parts

        def post(S, a, r):
            want = composed(S, r, parts, a.es)
            return [(q, S.same(getattr(r, q), want[q])) for q in want]
        return Expect(result=ANY, post=post, watch=["m0.ode", "m1.ode"])


@contract("C16.get_problem", "C16", NET + ".get_problem", budget=200)
class _:
    """The problem of a network: that of its nodes, in the order of their ids, the sum of their costs, every connected input
    an algebraic variable within its old bounds and tied to its output."""
    def inputs(g):
        g.track_symbols()
        form = g.pick("edges", ["none", "one"])
        w = two(g, hi=1, least={} if form == "none" else {"u": 1, "y": 1})
        return Call(w.net).also(w=w, es=edges(g, w, form), models=[q.model for q in w.parts], m0=w.ks[0].mo, m1=w.ks[1].mo, o0=w.ks[0].o, o1=w.ks[1].o)

    def spec(S, a):
        ps = a.w.parts

        def post(S, a, r):
            want = composed(S, r.model, a.models, a.es)
            out = [("model " + q, S.same(getattr(r.model, q), want[q])) for q in want]
            ren = lambda q, op: _ren(S, [getattr(p, q) for p in ps], a.models, r.model, op)
            for q in ("L", "V", "S"):
                out.append((q, S.same(getattr(r, q), ren(q, S.add))))
            both = lambda q: S.cat(getattr(ps[0], q), getattr(ps[1], q))
            for q in EXPRS[3:]:
                out.append((q, S.same(getattr(r, q), ren(q, S.cat))))
            u0 = S.cat(*[m.u for m in a.models])
            keep = lambda i: S.And(*[S.Not(S.exists(S.n(e.u), lambda j: S.same_sym(u0, i, e.u, j))) for e in a.es])
            out += [(q, S.same(getattr(r, q), both(q))) for q in ("x_0", "x_min", "x_max")]
            out += [(q, S.same(getattr(r, q), S.keep(both(q), keep))) for q in ("u_min", "u_max", "delta_u_min", "delta_u_max")]
            for q in ("y_min", "y_max"):
                v = both(q)
                for e in a.es:
                    k = a.w.ks[e.j].o
                    v = S.cat(v, S.vmap(S.n(e.u), lambda i, k=k, e=e: S.at(getattr(k, "u" + q[1:]), e.iu(i)), kind="DM"))
                out.append((q, S.same(getattr(r, q), v)))
            out += [("t_0", S.eq(r.t_0, 0.5)), ("t_f", S.eq(r.t_f, 1.5))]
            return out
        return Expect(result=ANY, post=post, watch=["m0.ode", "m1.ode"])


def _net(g, problems=True):
    """A network of two to four nodes with one or two inputs and outputs each, and random connections of them, together with its description."""
    import casadi as ca
    from yaocptool.modelling import Network, OptimalControlProblem, SystemModel
    n = g.rng.randint(1, 4)
    t_0 = g.rng.choice([0.0, 0.0, 0.5])
    parts = []
    for q in range(n):
        m = SystemModel(name="m%d" % q)
        x, u, y = m.create_state("x%d" % q, g.rng.randint(1, 2)), m.create_control("u%d" % q, g.rng.randint(1, 2)), m.create_algebraic_variable("y%d" % q, g.rng.randint(1, 2))
        A = ca.DM([[g.rng.uniform(-0.5, 0.5) for _ in range(x.numel())] for _ in range(x.numel())]) - ca.DM.eye(x.numel())
        B = ca.DM([[g.rng.uniform(-0.5, 0.5) for _ in range(u.numel())] for _ in range(x.numel())])
        C = ca.DM([[g.rng.uniform(-0.5, 0.5) for _ in range(x.numel())] for _ in range(y.numel())])
        d = ca.DM([g.rng.uniform(-1, 1) for _ in range(x.numel())])
        m.include_equations(ode=ca.mtimes(A, x) + ca.mtimes(B, u) + d, alg=y - ca.mtimes(C, x))
        o = OptimalControlProblem(m, x_0=ca.DM([g.rng.uniform(-1, 1) for _ in range(x.numel())]), t_0=t_0, t_f=t_0 + 2.0, name="p%d" % q)
        o.u_max, o.u_min = ca.DM([g.rng.uniform(1, 5) for _ in range(u.numel())]), -ca.DM([g.rng.uniform(1, 5) for _ in range(u.numel())])
        o.L = ca.dot(x, x) * (q + 1)
        parts.append(NS(dict(m=m, x=x, u=u, y=y, A=A, B=B, C=C, d=d, o=o, q=q)))
    net = Network(name="net", intermediary_nodes=g.rng.random() < 0.2)
    if g.rng.random() < 0.3:
        ids = g.rng.sample(range(10), n)
    else:
        ids = [None] * n
    nodes = [net.create_node(name="n%d" % q, node_id=ids[q], problem=p.o) for q, p in enumerate(parts)]
    free = [(q, i) for q in range(n) for i in range(parts[q].u.numel())]
    outs = [(q, i) for q in range(n) for i in range(parts[q].y.numel())]
    g.rng.shuffle(free)
    ties = []
    for q, i in free[:g.rng.randint(0, len(free))]:
        r, j = g.rng.choice([o for o in outs if o[0] == (q + 1) % n] if g.rng.random() < 0.6 else outs)
        if r != q:
            ties.append(((r, j), (q, i)))
    if g.rng.random() < 0.5:
        for (r, j), (q, i) in ties:
            net.connect(parts[r].y[j], parts[q].u[i], nodes[r], nodes[q])
    else:
        for r, q in sorted({(x[0], z[0]) for x, z in ties}):
            t = [(j, i) for (r1, j), (q1, i) in ties if (r1, q1) == (r, q)]
            net.connect(ca.vertcat(*[parts[r].y[j] for j, i in t]), ca.vertcat(*[parts[q].u[i] for j, i in t]), nodes[r], nodes[q])
    g._rec("case", (n, ids, ties, net.intermediary_nodes))
    return NS(dict(net=net, nodes=nodes, parts=parts, ties=ties, t_0=t_0, inter=net.intermediary_nodes))


@contract("C16.intermediary", "C16", NET + ".insert_intermediary_node", budget=120)
class _:
    """An intermediary node passes every output on to its input: its own equations say that output and input are the same, in order."""
    def inputs(g):
        g.track_symbols()
        w = two(g, hi=2, least={"u": 1, "y": 1})
        e = edge(g, w, 0, 1, "0")
        return Call(w.net, e.y, e.u, w.nodes[0], w.nodes[1]).also(w=w, e=e)

    def spec(S, a):
        def post(S, a, r):
            new = [q for q in S.items(a.self.nodes) if not any(S.is_same(q, z) for z in a.w.nodes)]
            if len(new) != 1:
                return [("one new node", False)]
            k = new[0]
            m, n = k.model, S.n(a.e.u)
            d = {}
            for x in S.items(a.self.connections):
                d[tuple([i for i, z in enumerate(a.w.nodes + [k]) if S.is_same(z, q)][0] for q in x)] = S.get(a.self.connections, x)
            out = [("one new node", True), ("connections", sorted(d) == [(0, 2), (2, 1)])]
            if sorted(d) != [(0, 2), (2, 1)]:
                return out
            i, o = d[(0, 2)], d[(2, 1)]
            out += [("input", S.same(S.get(i, "y"), a.e.y)), ("output", S.same(S.get(o, "u"), a.e.u)), ("its input", S.same(S.get(i, "u"), m.u)),
                    ("its output", S.same(S.get(o, "y"), m.y)), ("sizes", S.And(S.eq(S.n(m.u), n), S.eq(S.n(m.y), n), S.eq(S.n(m.alg), n), S.eq(S.n(m.x), 0))),
                    ("equations", S.forall(n, lambda q: S.Or(S.eq(S.at(m.alg, q), S.sub(S.at(m.u, q), S.at(m.y, q))), S.eq(S.at(m.alg, q), S.sub(S.at(m.y, q), S.at(m.u, q)))))),
                    ("t_0", S.eq(k.problem.t_0, 0.5)), ("t_f", S.eq(k.problem.t_f, 1.5)), ("model of its problem", S.same(k.problem.model.u, m.u)), ("id", k.node_id not in [q.node_id for q in a.w.nodes])]
            return out
        return Expect(result=ANY, post=post, frees=["self.graph", "self.graph.*", "self._nodes_id_counter"])


@bounded("C16.behaviour", "C16", NET + ".insert_intermediary_nodes", why="random networks of one to four nodes, names and dictionaries of graphs", runs=120)
def _behaviour(g):
    """Whole networks, with and without intermediary nodes: same states in the order of the ids, the closed loop of the equations
    of the nodes with every connected input equal to its output, the free inputs free with their own bounds, the costs summed."""
    import casadi as ca
    w = _net(g)
    net = w.net
    given = {q.node_id: p for q, p in zip(w.nodes, w.parts)}
    if len(given) != len(w.parts) or None in given:
        raise Violation("the ids of the nodes are not their own")
    if not w.inter and g.rng.random() < 0.4:
        net.insert_intermediary_nodes()
        w.inter = True
    order = [given[i] for i in sorted(given)]
    if not all(any(q is r for r in net.nodes) for q in w.nodes):
        raise Violation("a node is missing from the network")
    val = {}
    for p in w.parts:
        for v in list(p.x.nz):
            val[v.name()] = g.rng.uniform(-2, 2)
    xs = lambda p: ca.DM([val[v.name()] for v in p.x.nz])
    ys = {p.q: ca.mtimes(p.C, xs(p)) for p in w.parts}
    tied = {b: a for a, b in w.ties}
    for p in w.parts:
        for i, v in enumerate(p.y.nz):
            val[v.name()] = float(ys[p.q][i])
        for i, v in enumerate(p.u.nz):
            val[v.name()] = float(ys[tied[(p.q, i)][0]][tied[(p.q, i)][1]]) if (p.q, i) in tied else g.rng.uniform(-2, 2)
    free = [v.name() for p in order for i, v in enumerate(p.u.nz) if (p.q, i) not in tied]
    both = [net.get_model()]
    prob = net.get_problem()
    both.append(prob.model)
    for m in both:
        if [v.name() for v in m.x.nz] != [v.name() for p in order for v in p.x.nz]:
            raise Violation("states of the network: %s" % m.x)
        if [v.name() for v in m.u.nz] != free:
            raise Violation("free inputs of the network: %s, not %s" % (m.u, free))
        want_y = sorted([v.name() for p in w.parts for v in p.y.nz] + [v.name() for p in w.parts for i, v in enumerate(p.u.nz) if (p.q, i) in tied])
        own = sorted(v.name() for v in m.y.nz if not v.name().startswith("Dummy_"))
        if own != want_y:
            raise Violation("algebraic variables of the network: %s, not %s" % (own, want_y))
        dummies = [v for v in m.y.nz if v.name().startswith("Dummy_")]
        if not w.inter and dummies:
            raise Violation("intermediary variables without intermediary nodes")
        if m.alg.numel() != m.y.numel() or m.ode.numel() != m.x.numel():
            raise Violation("%d algebraic equations for %d variables" % (m.alg.numel(), m.y.numel()))
        f = ca.Function("f", [m.x, m.y, m.u], [m.ode, m.alg, ca.jacobian(m.alg, m.y)])
        x = ca.DM([val[v.name()] for v in m.x.nz])
        u = ca.DM([val[v.name()] for v in m.u.nz])
        y0 = ca.DM.zeros(m.y.numel())
        _, r, J = f(x, y0, u)                              # linear in y: one solve
        y = y0 - ca.solve(J, r) if m.y.numel() else y0
        for v, z in zip(m.y.nz, y.nz):
            if not v.name().startswith("Dummy_") and abs(val[v.name()] - z) > 1e-8:
                raise Violation("%s is %s in the network, not %s" % (v.name(), z, val[v.name()]))
        ode = f(x, y, u)[0]
        k = 0
        for p in order:
            want = ca.mtimes(p.A, xs(p)) + ca.mtimes(p.B, ca.DM([val[v.name()] for v in p.u.nz])) + p.d
            if ca.norm_inf(ode[k:k + p.x.numel()] - want) > 1e-8:
                raise Violation("equation of the states of node %d" % p.q)
            k += p.x.numel()
    if not (prob.t_0 == w.t_0 and prob.t_f == w.t_0 + 2.0):
        raise Violation("times of the problem: %s to %s" % (prob.t_0, prob.t_f))
    want = {v.name(): (float(p.o.u_min[i]), float(p.o.u_max[i])) for p in w.parts for i, v in enumerate(p.u.nz)}
    for vec, lo, hi in ((prob.model.u, prob.u_min, prob.u_max), (prob.model.y, prob.y_min, prob.y_max)):
        if not (vec.numel() == lo.numel() == hi.numel()):
            raise Violation("bounds of another size")
        for i, v in enumerate(vec.nz):
            b = want.get(v.name(), (-ca.inf, ca.inf))
            if (float(lo[i]), float(hi[i])) != b:
                raise Violation("bounds of %s: %s %s, not %s" % (v.name(), lo[i], hi[i], b))
    if ca.norm_inf(prob.x_0 - ca.vertcat(*[p.o.x_0 for p in order])) > 0:
        raise Violation("initial values")
    L = ca.Function("L", [prob.model.x], [prob.L])(ca.vertcat(*[xs(p) for p in order]))
    if abs(float(L) - sum((p.q + 1) * float(ca.dot(xs(p), xs(p))) for p in order)) > 1e-8:
        raise Violation("the cost is not the sum of those of the nodes")


@bounded("C16.initial_condition", "C16", NET + ".get_initial_condition", why="a numerical simulation", runs=12)
def _initial(g):
    """The initial condition proposed for every node is the end of the simulation of the whole network, variable by variable."""
    import casadi as ca
    w = _net(g)
    t_f = w.t_0 + g.rng.choice([0.5, 1.0, 2.0])
    got = w.net.get_initial_condition(t_f)
    # the closed loop x' = M x + c, integrated here in small steps
    tied = {b: a for a, b in w.ties}
    X = {p.q: p.o.x_0 for p in w.parts}

    def inputs(X):
        Y = {p.q: ca.mtimes(p.C, X[p.q]) for p in w.parts}
        U = {p.q: ca.DM([float(Y[tied[(p.q, i)][0]][tied[(p.q, i)][1]]) if (p.q, i) in tied else 0.0 for i in range(p.u.numel())]) for p in w.parts}
        return Y, U

    def rhs(X):
        Y, U = inputs(X)
        return {p.q: ca.mtimes(p.A, X[p.q]) + ca.mtimes(p.B, U[p.q]) + p.d for p in w.parts}
    N = 40
    h = (t_f - w.t_0) / N
    for _ in range(N):
        k1 = rhs(X)
        k2 = rhs({q: X[q] + h / 2 * k1[q] for q in X})
        k3 = rhs({q: X[q] + h / 2 * k2[q] for q in X})
        k4 = rhs({q: X[q] + h * k3[q] for q in X})
        X = {q: X[q] + h / 6 * (k1[q] + 2 * k2[q] + 2 * k3[q] + k4[q]) for q in X}
    Y, U = inputs(X)
    for p in w.parts:
        d = got["n%d" % p.q]
        for k, v in (("x", X), ("y", Y), ("u", U)):
            if d[k].numel() != v[p.q].numel() or ca.norm_inf(d[k] - v[p.q]) > 1e-4:
                raise Violation("%s of node %d: %s, not %s" % (k, p.q, d[k], v[p.q]))


@bounded("C16.colors", "C16", NET + ".get_map_coloring_groups", why="the colouring is networkx's", runs=60)
def _colors(g):
    """The groups partition the nodes, and no two nodes of a group are connected."""
    w = _net(g)
    groups = w.net.get_map_coloring_groups()
    flat = [q for x in groups for q in x]
    if len(flat) != len(list(w.net.nodes)) or not all(any(q is r for r in flat) for q in w.net.nodes):
        raise Violation("the groups are not a partition of the nodes")
    for a, b in w.net.connections:
        if any(any(q is a for q in x) and any(q is b for q in x) for x in groups):
            raise Violation("connected nodes in one group")
