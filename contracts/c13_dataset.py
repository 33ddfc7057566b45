"""C13: data sets keep every value with its time."""
from pydv.contract import ANY, Call, Expect, NS, Skip, Violation, bounded, contract

DS = "yaocptool.modelling.dataset:DataSet"
SR = "yaocptool.modelling.simulation_result:SimulationResult"


def filled(g, ds, name, size, forms=("none", "some")):
    """An entry of the data set, without data or with any number of columns."""
    g.call(ds, "create_entry", name, size)
    e = g.S.get(ds.data, name)
    if g.pick(name + "_data", list(forms)) == "some":
        n = g.size("n_" + name, lo=1, hi=4)
        g.put(e, time=g.matrix(name + "_t", 1, n), values=g.matrix(name + "_v", size, n))
    return e


def dataset(g, names=("x", "w"), prefix="", sizes=None, **kw):
    ds = g.new(DS)
    out = {"ds": ds, "sizes": {}}
    for q in names:
        out["sizes"][q] = (sizes or {}).get(q) if sizes and q in sizes else g.size("%ssize_%s" % (prefix, q), lo=1, hi=3)
        g.call(ds, "create_entry", q, out["sizes"][q])
        e = g.S.get(ds.data, q)
        if g.flag("%s%s_has_data" % (prefix, q)):
            n = g.size("%sn_%s" % (prefix, q), lo=1, hi=4)
            g.put(e, time=g.matrix("%st_%s" % (prefix, q), 1, n), values=g.matrix("%sv_%s" % (prefix, q), out["sizes"][q], n))
        out[q] = e
    return NS(out)


@contract("C13.create_entry", "C13", DS + ".create_entry")
class _:
    """A new entry of the given size without data; the others stay."""
    def inputs(g):
        k = dataset(g, ("x",))
        n = g.size("n", lo=0, hi=3)
        return Call(k.ds, g.pick("entry", ["y", "x"]), n, plot_style=g.pick("style", ["plot", "step"])).also(k=k, x=k.x, n=n)

    def spec(S, a):
        def post(S, a, r):
            e = S.get(a.self.data, a.entry)
            out = [("size", S.eq(e.size, a.n)), ("no times", S.eq(S.n(e.time), 0)), ("no values", S.eq(S.n(e.values), 0)),
                   ("a name for each row", S.eq(S.n(e.names), a.n)), ("style", S.same_str(e.plot_style, a.plot_style))]
            if a.entry == "y":
                out.append(("the other entry", S.is_same(S.get(a.self.data, "x"), a.x)))
            return out
        return Expect(frees=["self.data"], post=post)


@contract("C13.insert_data", "C13", DS + ".insert_data", runs=200)
class _:
    """The columns of value are appended with their times; data that does not fit is rejected and nothing changes."""
    def inputs(g):
        k = dataset(g)
        form = g.pick("form", ["row", "list", "number", "column"])
        m = {"list": 2, "number": 1}.get(form)
        if m is None:
            m = g.size("m", lo=0, hi=3)
        if form == "row":
            t = g.matrix("t", 1, m)
        elif form == "column":
            g.assume(g.S.gt(m, 1))
            t = g.matrix("t", m, 1)
        elif form == "list":
            t = g.reals("t", 2)
        else:
            t = g.real("t")
        vr = g.pick("rows", [k.sizes["x"], lambda: g.size("vr", hi=3)])
        vc = g.pick("cols", [m, lambda: g.size("vc", hi=3)])
        g.assume(g.S.Or(g.S.gt(m, 0), g.S.eq(vr, k.sizes["x"]), g.S.eq(vr, 0)))     # nothing to insert: any empty value
        v = g.matrix("v", vr, vc)
        return Call(k.ds, "x", t, v).also(x=k.x, w=k.w, m=m, form=form, vr=vr, vc=vc, tt=t, n=k.sizes["x"])

    def spec(S, a):
        tc = 1 if a.form == "column" else a.m
        row = {"row": lambda: a.tt, "column": lambda: S.row(a.tt), "list": lambda: S.row(S.mat(a.tt)), "number": lambda: S.mat(a.tt)}[a.form]()
        bad = S.Or(S.ne(a.vc, tc), S.And(S.gt(tc, 0), S.Or(a.form == "column", S.ne(a.vr, a.n))))
        x = a.x
        t0, v0 = x.time, x.values
        # without columns nothing is added
        eff = {"x.time": lambda r: S.hcat(t0, row), "x.values": lambda r: S.hcat(v0, a.value)}
        return Expect(raises=[(ValueError, bad)], effects=eff)


@contract("C13.sort", "C13", DS + ".sort")
class _:
    """Every value keeps its time; the times of the sorted entries ascend, points with equal times keep their order."""
    def inputs(g):
        k = dataset(g)
        which = g.pick("entries", [None, ["x"], ["x", "w"], []])
        return Call(k.ds, g.list(which) if which is not None else None).also(x=k.x, w=k.w, which=which)

    def spec(S, a):
        eff = {}
        for q in a.which if a.which is not None else ["x", "w"]:
            e = getattr(a, q)
            t, v = S.by_time(e.time, e.values)
            eff[q + ".time"], eff[q + ".values"] = t, v
        return Expect(effects=eff)


@contract("C13.extend", "C13", DS + ".extend", runs=200)
class _:
    """The points of both data sets, entry by entry and in the order of time; the other data set stays as it is."""
    def inputs(g):
        k = dataset(g, ("x", "w"))
        names = g.pick("other", [("x", "w"), ("x",), ("x", "z"), ("z",), ()])
        o = dataset(g, names, "o_", {"x": g.pick("same_size", [k.sizes["x"], lambda: g.size("o_size_x", lo=1, hi=3)])} if "x" in names else {})
        return Call(k.ds, o.ds).also(x=k.x, w=k.w, o=o, names=names, k=k, **{"o_" + q: getattr(o, q) for q in names})

    def spec(S, a):
        bad = [S.ne(a.k.sizes[q], a.o.sizes[q]) for q in a.names if q in ("x", "w")]
        pairs = {}
        for q in ("x", "w"):
            e = getattr(a, q)
            if q in a.names:
                f = getattr(a.o, q)
                pairs[q] = (lambda e=e, f=f, t=e.time, v=e.values: S.by_time(S.hcat(t, f.time), S.hcat(v, f.values)))
            else:
                pairs[q] = (lambda e=e, t=e.time, v=e.values: S.by_time(t, v))
        eff = {}
        for q, f in pairs.items():
            eff[q + ".time"] = lambda r, f=f: f()[0]
            eff[q + ".values"] = lambda r, f=f: f()[1]

        def post(S, a, r):
            out = [("the entries", S.keys(a.self.data) == {"x", "w"} | set(a.names))]
            if "z" in a.names:
                e, f = S.get(a.self.data, "z"), a.o.z
                t, v = S.by_time(f.time, f.values)
                out += [("new entry is another one", not S.is_same(e, f)), ("its size", S.eq(e.size, a.o.sizes["z"])),
                        ("its times", S.same(e.time, t)), ("its values", S.same(e.values, v))]
            return out
        return Expect(raises=[(ValueError, S.Or(*bad))] if bad else [], effects=eff, frees=["self.data"], post=post)


@contract("C13.get_copy", "C13", DS + ".get_copy")
class _:
    """The same data in another data set: inserting into the copy leaves the original alone."""
    def inputs(g):
        k = dataset(g)
        m = g.size("m", lo=0, hi=3)
        return Call(k.ds).also(x=k.x, w=k.w, k=k, t=g.matrix("t", 1, m), v=g.matrix("v", k.sizes["x"], m))

    def body(R, a):
        c = R.call(a.self, "get_copy")
        R.call(c, "insert_data", "x", a.t, a.v)
        return c

    def spec(S, a):
        def post(S, a, c):
            out = [("another data set", not S.is_same(c, a.self)), ("entries", S.keys(c.data) == {"x", "w"})]
            for q in ("x", "w"):
                e, f = S.get(c.data, q), getattr(a, q)
                t, v = (S.hcat(f.time, a.t), S.hcat(f.values, a.v)) if q == "x" else (f.time, f.values)
                out += [(q + " is another entry", not S.is_same(e, f)), (q + " size", S.eq(e.size, a.k.sizes[q])),
                        (q + " times", S.same(e.time, t)), (q + " values", S.same(e.values, v))]
            return out
        return Expect(result=ANY, post=post)


@contract("C13.get_entry", "C13", DS + ".get_entry")
class _:
    def inputs(g):
        k = dataset(g)
        q = g.pick("entry", ["x", "w"])
        return Call(k.ds, q).also(k=k, q=q)

    def body(R, a):
        return R.call(a.self, "get_entry", a.q), R.call(a.self, "get_entry_size", a.q), R.call(a.self, "get_entry_names", a.q)

    def spec(S, a):
        e = getattr(a.k, a.q)
        return Expect(result=((e.time, e.values), e.size, e.names))


def result(g, prefix, nx, nu):
    n = g.size(prefix + "n", lo=1, hi=3)
    r = g.new(SR, n_x=nx, n_y=0, n_u=nu, t_0=g.real(prefix + "t0"), t_f=g.real(prefix + "tf"), finite_elements=g.size(prefix + "el", lo=1, hi=4))
    for q, m, k in (("x", nx, g.S.add(n, 1)), ("u", nu, n)):
        g.put(g.S.get(r.data, q), time=g.matrix(prefix + "t" + q, 1, k), values=g.matrix(prefix + "v" + q, m, k))
    return r


@contract("C13.simulation_result", "C13", SR + ".__init__")
class _:
    """A simulation result knows its horizon, its elements and its three entries, and reads back what was put in."""
    def inputs(g):
        nx, ny, nu = g.size("nx", lo=1, hi=3), g.size("ny", hi=2), g.size("nu", lo=1, hi=2)
        v = dict(t_0=g.real("t0"), t_f=g.real("tf"), delta_t=g.real("dt"), finite_elements=g.size("el", lo=1, hi=3))
        n = g.size("n", lo=1, hi=3)
        data = {q: (g.matrix("t" + q, 1, n), g.matrix("v" + q, m, n)) for q, m in (("x", nx), ("u", nu))}
        return Call(None).also(nx=nx, ny=ny, nu=nu, v=v, cls=g.cls(SR), data=data, n=n,
                               names={q: g.list(["%s_%s" % (q, c) for c in "abc"]) for q in ("x", "y", "u")} if g.flag("names") else None)

    def body(R, a):
        r = R.fn(a.cls, n_x=a.nx, n_y=a.ny, n_u=a.nu, **a.v, **({q + "_names": w for q, w in a.names.items()} if a.names else {}))
        for q in ("x", "u"):
            R.call(r, "insert_data", q, a.data[q][0], a.data[q][1])
        return r

    def spec(S, a):
        def post(S, a, r):
            out = [(q, S.eq(getattr(r, q), w)) for q, w in a.v.items()]
            out += [("n_x", S.eq(r.n_x, a.nx)), ("n_y", S.eq(r.n_y, a.ny)), ("n_u", S.eq(r.n_u, a.nu)), ("t", S.same(r.t, a.data["x"][0]))]
            for q in ("x", "y", "u"):
                got = getattr(r, q + "_names")
                out.append(("names of " + q, S.same_str(got, a.names[q]) if a.names else S.eq(S.n(got), {"x": a.nx, "y": a.ny, "u": a.nu}[q])))
            for q in ("x", "u"):
                pts = getattr(r, q)
                out.append((q + " has one point per time", S.eq(S.n(pts), a.n)))
                out.append((q + " points", S.forall(a.n, lambda j, pts=pts, q=q: S.same(S.item(pts, j), S.col(a.data[q][1], j)))))
            return out
        return Expect(result=ANY, post=post)


@contract("C13.final_condition", "C13", SR + ".final_condition")
class _:
    def inputs(g):
        nx, nu, ny = g.size("nx", lo=1, hi=3), g.size("nu", lo=1, hi=3), g.size("ny", lo=1, hi=3)
        r = result(g, "", nx, nu)
        m = g.size("m", lo=1, hi=3)
        g.put(g.S.get(r.data, "y"), time=g.matrix("ty", 1, m), values=g.matrix("vy", ny, m))
        return Call(r)

    def spec(S, a):
        last = lambda q: S.col(S.get(a.self.data, q).values, S.sub(S.cols(S.get(a.self.data, q).values), 1))
        return Expect(result={q: last(q) for q in ("x", "y", "u")})


@contract("C13.result_extend", "C13", SR + ".extend")
class _:
    """Joining two simulations: the union of their horizons, the sum of their elements, all the points in order of time."""
    def inputs(g):
        nx, nu = g.size("nx", lo=1, hi=3), g.size("nu", lo=1, hi=2)
        a = result(g, "a_", nx, nu)
        b = result(g, "b_", g.pick("same_x", [nx, lambda: g.size("nx2", lo=1, hi=3)]), g.pick("same_u", [nu, lambda: g.size("nu2", lo=1, hi=3)]))
        at = lambda r, q: g.S.get(r.data, q)
        return Call(a, b).also(x=at(a, "x"), u=at(a, "u"), y=at(a, "y"), bx=at(b, "x"), bu=at(b, "u"), by=at(b, "y"), b=b)

    def spec(S, a):
        s, b = a.self, a.b
        eff = {"self.t_0": S.ite(S.lt(b.t_0, s.t_0), b.t_0, s.t_0), "self.t_f": S.ite(S.gt(b.t_f, s.t_f), b.t_f, s.t_f),
               "self.finite_elements": S.add(s.finite_elements, b.finite_elements)}
        for q, e, f in (("x", a.x, a.bx), ("u", a.u, a.bu)):
            both = lambda t=e.time, v=e.values, f=f: S.by_time(S.hcat(t, f.time), S.hcat(v, f.values))
            eff[q + ".time"] = lambda r, both=both: both()[0]
            eff[q + ".values"] = lambda r, both=both: both()[1]
        bad = S.Or(S.ne(a.x.size, a.bx.size), S.ne(a.u.size, a.bu.size))
        return Expect(raises=[(Exception, bad)], effects=eff, frees=["y.*"])


def any_data(g, names=("x", "y", "u", "extra")):
    import casadi as ca
    from yaocptool.modelling.dataset import DataSet
    ds = DataSet(name="d%d" % g.rng.randint(0, 9))
    made = {}
    for q in names:
        if g.rng.random() < 0.25:
            continue
        size = g.rng.randint(0 if q == "y" else 1, 3)
        labels = ["%s_%s" % (q, "abc"[j]) for j in range(size)] if g.rng.random() < 0.5 else None
        ds.create_entry(q, size, names=labels, plot_style=g.rng.choice(["plot", "step"]))
        n = g.rng.choice([0, 0, 1, 2, 3, 5]) if size else 0
        t = g.rng.sample([0.0, 0.5, 1.0, 1.5, 2.0, -1.0, 3.25], n)
        v = ca.DM([[round(g.rng.uniform(-2, 2), 3) for _ in t] for _ in range(size)]) if n else ca.DM(size, 0)
        k = g.rng.randint(0, n)
        if n:
            if k:
                ds.insert_data(q, t[:k] if g.rng.random() < 0.5 else ca.horzcat(*t[:k]), v[:, :k])
            for j in range(k, n):
                ds.insert_data(q, t[j], v[:, j])
        made[q] = (size, t, v, labels or ["%s_%d" % (q, j) for j in range(size)])
    g._rec("entries", {q: (m[0], m[1], m[2].full().tolist()) for q, m in made.items()})
    return ds, made


def check_data(ds, made, what):
    import numpy as np
    if set(ds.data) != set(made):
        raise Violation("%s: entries %s, put in %s" % (what, set(ds.data), set(made)))
    for q, (size, t, v, names) in made.items():
        tt, vv = ds.get_entry(q)
        if ds.get_entry_size(q) != size or list(ds.get_entry_names(q)) != names:
            raise Violation("%s: entry %s has size %s and names %s" % (what, q, ds.get_entry_size(q), ds.get_entry_names(q)))
        if list(np.array(tt.full()).flatten()) != t or (t and not np.array_equal(vv.full(), v.full())):
            raise Violation("%s: entry %s is %s at %s, put in %s at %s" % (what, q, vv, tt, v, t))


@bounded("C13.save", "C13", DS + ".save", why="a file written by pickle", runs=60)
def _save(g):
    import os
    import pickle
    import shutil
    import tempfile
    ds, made = any_data(g)
    check_data(ds, made, "before saving")
    d = tempfile.mkdtemp(prefix="pydv")
    try:
        cwd = os.getcwd()
        where = g.rng.choice(["plain", "new folder", "relative"])
        path = {"plain": os.path.join(d, "r.p"), "new folder": os.path.join(d, "a", "b", "r.p"), "relative": "r.p"}[where]
        g._rec("where", where)
        try:
            os.chdir(d)
            ds.save(path)
            again = pickle.load(open(path, "rb"))
        finally:
            os.chdir(cwd)
        check_data(again, made, "after loading")
        if again.name != ds.name or type(again) is not type(ds):
            raise Violation("loaded %s %s, saved %s %s" % (type(again), again.name, type(ds), ds.name))
        if {q: e.plot_style for q, e in again.data.items()} != {q: e.plot_style for q, e in ds.data.items()}:
            raise Violation("plot styles after loading")
    finally:
        shutil.rmtree(d)


@bounded("C13.dataframe", "C13", DS + ".as_dataframe", why="built by pandas", runs=60)
def _frame(g):
    import math
    ds, made = any_data(g)
    df = ds.as_dataframe()
    check_data(ds, made, "after as_dataframe")
    full = {q: m for q, m in made.items() if m[0] and m[1]}
    want = {(q, nm): {tt: float(v[i, j]) for j, tt in enumerate(t)} for q, (size, t, v, names) in full.items() for i, nm in enumerate(names)}
    if set(df.columns) != set(want):
        raise Violation("columns %s, entries %s" % (list(df.columns), list(want)))
    times = sorted({tt for m in full.values() for tt in m[1]})
    if sorted(df.index) != times:
        raise Violation("times %s, put in %s" % (list(df.index), times))
    for c, pts in want.items():
        for tt in times:
            got = float(df[c].loc[tt])
            if (tt in pts and got != pts[tt]) or (tt not in pts and not math.isnan(got)):
                raise Violation("%s at %s is %s, put in %s" % (c, tt, got, pts.get(tt)))
