#!/opt/venv/bin/python
"""Compares the models of casadi and of Python's built-ins (pydv/matlib.py, pydv/externals.py) with the real ones.
Every snippet below is a function body; numbers {a}, {b}, .. are drawn anew in every round, {A} .. {F} are literals of matrices.
It is executed by the verifier's interpreter and by Python with casadi, and both results (or exceptions) must agree.
Not part of a check.  Usage: /opt/venv/bin/python -W ignore selftest/diff_models.py [rounds]"""
import math, os, random, shutil, sys, tempfile, types
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
import pydv
from pydv import contract as C, interp as ip, matlib as ml
from pydv.terms import *
import z3
import casadi as ca

PRE = "from casadi import *\nimport casadi\nfrom collections import defaultdict\nimport itertools\nimport functools\nimport math\n"
SNIPS = r'''
return DM({A}) + DM({B})
return DM({A}) - {a}
return {a} * DM({A})
return DM({A}) * DM({B})
return mtimes(DM({A}), DM({C}))
return DM({A}) @ DM({C})
return DM({A}).T
return -DM({A})
return vertcat(DM({A}), DM({B}))
return horzcat(DM({A}), DM({B}))
return vertcat({a}, {b}, {c})
return vertcat(*[])
return horzcat(DM({v}), DM({w}))
return vec(DM({A}))
return DM({A})[0, 1], DM({A})[1, 0], DM({A})[:, 1], DM({A})[0, :]
return DM({A})[-1, 0], DM({A})[:, -1]
return DM({v})[0], DM({v})[-1], DM({v})[1:], DM({v})[:2], DM({v})[::2], DM({v})[-2:]
return DM({v})[[0, 2]], DM({v})[[2, 0]]
return DM({v})[{i}:]
return DM({v})[:{i}]
return DM({A})[3]
return DM({v}).shape, DM({A}).shape, DM({A}).numel(), DM({A}).size1(), DM({A}).size2(), DM({A}).is_empty()
return DM(0, 1).shape, DM(0, 1).numel(), DM(0, 1).is_empty(), DM([]).shape
return DM.zeros(2, 3), DM.ones(2), DM.eye(3), DM.inf(2), -DM.inf(2), DM.zeros(0, 1).shape
return repmat(DM({v}), 2, 1), repmat(DM({v}), 1, 2), repmat(DM({v}), 2)
return vertsplit(DM({v}))
return vertsplit(DM({A}))
return horzsplit(DM({A}))
return vertsplit(DM({v}), [0, 1, 3])
return vertsplit(DM({v}), [0, 0, 3])
return horzsplit(DM({A}), [0, 1, 2])
return sum1(DM({A})), sum2(DM({A})), sum([DM({v}), DM({w})])
return DM({A}).reshape((4, 1)), reshape(DM({A}), 1, 4)
return diagcat(DM({A}), DM({B}))
return mtimes(DM({v}).T, DM({w})), dot(DM({v}), DM({w}))
return DM({a}) ** 2, DM({v}) ** 2
return DM({A}) / {e}
return 1 / DM({e})
return {a} - DM({v})
x = SX.sym("x", 3)\nf = Function("f", [x], [x[0] * x[1] + x[2]])\nreturn f(DM({v}))
x = SX.sym("x", 3)\ny = SX.sym("y", 2)\nf = Function("f", [x, y], [vertcat(x[0] * y[1], x[1] - y[0]), x])\nreturn f(DM({v}), DM([{a}, {b}]))
x = SX.sym("x", 3)\nf = Function("f", [x], [jacobian(x[0] * x[1] + x[2] ** 2, x)])\nreturn f(DM({v}))
x = SX.sym("x", 2)\nf = Function("f", [x], [jacobian(vertcat(x[0] * x[1], x[1]), x)])\nreturn f(DM([{a}, {b}]))
x = SX.sym("x", 3)\nf = Function("f", [x], [gradient(x[0] * x[1] + 3 * x[2], x)])\nreturn f(DM({v}))
x = SX.sym("x", 3)\ny = SX.sym("y", 3)\ne = substitute(x[0] * y[1] + x[2], x, y)\nf = Function("f", [x, y], [e])\nreturn f(DM({v}), DM({w}))
x = SX.sym("x", 2)\ne = substitute(vertcat(x[0], x[1] * x[0]), x, vertcat(x[1], x[0]))\nreturn Function("f", [x], [e])(DM([{a}, {b}]))
x = SX.sym("x", 2)\ny = SX.sym("y")\nreturn depends_on(x[0] + y, x), depends_on(x[0] + y, y), depends_on(x[0] + 0, y), x.is_symbolic(), (x + 1).is_symbolic(), x[0].name(), x[1].name()
x = SX.sym("x", 2)\nreturn x.is_constant(), SX(2).is_constant(), x.numel(), x.shape, is_equal(x, x), is_equal(x[0], x[1])
x = MX.sym("x", 3)\nf = Function("f", [x], [x[1:] * 2, x[0]])\nr = f(DM({v}))\nreturn r[0], r[1]
x = MX.sym("x", 2)\nf = Function("f", [x], [vertcat(x, x[0] * {a})])\nreturn f.call([DM([{a}, {b}])])
x = SX.sym("x", 2)\np = SX.sym("p")\nf = Function("f", [x, p], [x * p], ["x", "p"], ["r"])\nreturn f(x=DM([{a}, {b}]), p={c})["r"]
x = SX.sym("x", 2)\nf = Function("f", [x, x[0] * 0 + SX.sym("q")], [x[0]])\nreturn f.n_in(), f.n_out(), f.numel_in(), f.numel_out(), f.size1_in(0)
x = SX.sym("x", 2)\nreturn x.nz[1].name()
return fmin({a}, {b}), fmax({a}, {b}), fabs({a}), sign({a}), floor({e}), ceil({e})
return if_else({a} > 0, 1, 2)
return math.factorial({i}), min({a}, {b}), max({a}, {b}), abs({a}), int({a}), float({i}), round({a}), divmod(7, {j}), 7 // {j}, 7 % {j}, -7 // {j}, -7 % {j}
return list(range({i})), list(range(1, 9, {j})), list(range(5, 0, -1)), sorted([3, 1, {i}]), list(reversed([1, 2, {i}])), sum([1, 2, {i}]), any([False, {i} > 2]), all([True, {i} > 2]), len([1] * {i})
l = [1, 2, 3]\nl.append(4)\nl.extend([5, 6])\nl.insert(1, 9)\nl.remove(3)\np = l.pop()\nq = l.pop(0)\ndel l[0]\nreturn l, p, q, l.index(4), 4 in l, l.count(4), l[::-1], l[-2:], l + [1], l * 2
d = dict(a=1)\nd["b"] = {i}\nd.update(c=3)\nd.setdefault("a", 7)\nd.setdefault("e", 8)\nx = d.pop("c")\nreturn list(d.keys()), list(d.values()), list(d.items()), x, d.get("z"), d.get("z", 4), "a" in d, len(d)
d = defaultdict(list)\nd["a"].append(1)\nd["b"]\nreturn dict(d), len(d), "c" in d
s = "name_{{}}_{{:d}}".format("x", {i})\nreturn s, s.upper(), s.split("_"), "_".join(["a", "b"]), s.startswith("name"), s.endswith("1"), "x" in s, len(s), s[1:3], f"v{{1 + {i}}}", "%s-%d" % ("q", {i}), s.replace("n", "m")
return list(zip([1, 2, 3], [{a}, {b}])), list(enumerate([5, 6], 1)), list(map(lambda q: q + 1, [1, 2])), list(filter(lambda q: q > 1, [1, 2])), {{q: q * q for q in range(3)}}, [q + r for q in (1, 2) for r in (3, 4) if q != r - 2], set([1, 1, 2]) == {{1, 2}}
return functools.reduce(lambda q, r: q * r, [1, 2, {i}]), list(itertools.chain([1], [2, 3])), tuple([1, 2]) + (3,), isinstance({i}, int), isinstance({a}, (int, float)), isinstance(DM({a}), DM), isinstance([], list)
x, *y = [1, 2, 3]\n(p, q), r = (1, 2), 3\nreturn x, y, p, q, r
t = 0\nfor k in range({i}):\n    if k == 2:\n        continue\n    if k == 5:\n        break\n    t += k\nelse:\n    t += 100\nreturn t
t, k = 0, 0\nwhile k < {i}:\n    k += 1\n    t += k if k % 2 else -k\nreturn t
try:\n    r = [1][5]\nexcept IndexError:\n    r = 7\nfinally:\n    s = 8\nreturn r, s
try:\n    r = dict()["q"]\nexcept (KeyError, ValueError) as e:\n    r = 1\nelse:\n    r = 2\nreturn r
return [1, 2][{i}]
return dict(a=1)["b"]
return int("x")
raise ValueError("no")
assert {i} > 2
return vertcat(DM({A}), DM({v}))
return mtimes(DM({A}), DM({v}))
return DM({v}) + DM([1, 2])
m = DM({A})\nm[0, 1] = {c}\nreturn m
m = DM({A})\nm[0, :] = DM([{a}, {b}]).T\nreturn m
m = DM({A})\nm[:1, :1] += {c}\nreturn m
v = DM({v})\nv[1] = {c}\nw = v\nw[0] = 5\nreturn v, w
v = DM({v})\nw = DM(v)\nw[0] = 5\nreturn v, w
v = DM({v})\nw = v\nw += 1\nreturn w
return DM({v}) > 0, DM({v}) <= DM({w}), {a} < {b}, {a} == {b}, not {i}
return bool(DM({a}) > 0), float(DM({a})), DM({a}) == {a}
return vertcat(DM({v}), DM([])).shape, vertcat(DM(0, 1), DM({v})).shape, horzcat(DM(0, 1), DM(0, 1)).shape, vertcat(DM(0, 2), DM({A})).shape
return DM([1, 2]).full().tolist()
return {{**dict(a=1), "b": 2}}, [*[1, 2], 3], (lambda q, *r, k=3, **m: (q, r, k, m))(1, 2, k=4, z=5)
return collocation_points({j}, "radau")
return type(DM({a})) == DM, type({i}) is int, callable(len), hasattr(DM({a}), "shape"), getattr([1], "nothing", 4)
'''.strip("\n").split("\n")


def literal(rng, n, m=None):
    num = lambda: rng.choice([rng.randint(-4, 4), rng.randint(-40, 40) / 8])
    return repr([num() for _ in range(n)] if m is None else [[num() for _ in range(m)] for _ in range(n)])


def plain(ctx, v):
    """The value of the interpreter in Python's terms."""
    if isinstance(v, Mat):
        num = lambda e: plain(ctx, e)
        if not (isinstance(v.rows, int) and isinstance(v.cols, int)):
            raise Unsupported("size")
        return ("matrix", v.kind, v.rows, v.cols, [num(v.el(r, c)) for c in range(v.cols) for r in range(v.rows)])
    if is_z3(v):
        w = z3.simplify(v)
        if z3.is_rational_value(w):
            return float(w.as_fraction())
        if z3.is_int_value(w):
            return w.as_long()
        if z3.is_true(w) or z3.is_false(w):
            return z3.is_true(w)
        if w.eq(INF):
            return math.inf
        if w.sort() == B:
            t = z3.Solver()
            t.set("timeout", 3000)
            t.add(z3.Not(w), *ctx.solver.assertions() if hasattr(ctx, "solver") else [])
            if t.check() == z3.unsat:
                return True
            t = z3.Solver()
            t.set("timeout", 3000)
            t.add(w, *ctx.solver.assertions() if hasattr(ctx, "solver") else [])
            if t.check() == z3.unsat:
                return False
            raise Unsupported("condition %s" % w)
        if z3.simplify(-w).eq(INF):
            return -math.inf
        if z3.is_app(w) and w.decl().name() in ("MUL", "INV") or z3.is_add(w) or z3.is_mul(w):
            args = [plain(ctx, q) for q in w.children()]
            if w.decl().name() == "INV":
                return 1 / args[0]
            return sum(args) if z3.is_add(w) else math.prod(args)
        raise Unsupported("value %s" % w)
    if isinstance(v, ip.PyList):
        if v.items() is None:
            raise Unsupported("list")
        return [plain(ctx, q) for q in v.items()]
    if isinstance(v, ip.PyDict):
        return {k: plain(ctx, q) for k, q in v.d.items()}
    if isinstance(v, tuple):
        return tuple(plain(ctx, q) for q in v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    raise Unsupported("result %r" % type(v))


def real(v):
    if isinstance(v, ca.DM):
        return ("matrix", "DM", v.size1(), v.size2(), [float(q) for q in ca.densify(v).full().flatten(order="F")])
    if isinstance(v, dict):
        return {k: real(q) for k, q in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(real(q) for q in v)
    return v


def agree(a, b):
    if isinstance(a, tuple) and a and a[0] == "matrix" or isinstance(b, tuple) and b and b[0] == "matrix":
        one = lambda v: v if isinstance(v, tuple) else ("matrix", "DM", 1, 1, [float(v)])
        a, b = one(a), one(b)
        return a[2:4] == b[2:4] and len(a[4]) == len(b[4]) and all(agree(float(p), float(q)) for p, q in zip(a[4], b[4]))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and all(agree(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(agree(p, q) for p, q in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-9 * (1 + abs(a))
    return a == b


def main(rounds):
    bad, skipped, n = 0, set(), 0
    for r in range(rounds):
        rng = random.Random(r)
        root = tempfile.mkdtemp()
        os.makedirs(root + "/yaocptool")
        open(root + "/yaocptool/__init__.py", "w").close()
        src, bodies = PRE, []
        for k, s in enumerate(SNIPS):
            sub = dict(A=literal(rng, 2, 2), B=literal(rng, 2, 2), C=literal(rng, 2, 3), v=literal(rng, 3), w=literal(rng, 3), i=rng.randint(0, 6), j=rng.randint(1, 4), e=rng.choice([0.5, 2, -4, 0.125, 3]))
            sub.update({q: rng.randint(-24, 24) / 8 for q in "abc"})
            body = s.replace("\\n", "\n").format(**sub)
            bodies.append(body)
            src += "def f%d():\n%s\n" % (k, "\n".join("    " + l for l in body.split("\n")))
        with open(root + "/yaocptool/snips.py", "w") as f:
            f.write(src)
        ip.REPO, old = root, ip.REPO
        module = types.ModuleType("snips")
        exec(compile(src, "snips", "exec"), module.__dict__)
        try:
            for k, body in enumerate(bodies):
                try:
                    want = ("value", real(getattr(module, "f%d" % k)()))
                except Exception as e:
                    want = ("raises", type(e))
                if os.environ.get("TRACE"):
                    print(body, flush=True)
                ctx = C.Ctx([], C.Budget(60))
                it = ip.Interp(ctx, {}, None)
                it.roots, it.frames, it.mutated = [], [], []
                try:
                    got = ("value", plain(ctx, it.call(it.import_name("yaocptool.snips", "f%d" % k), [], {})))
                except PyExc as e:
                    got = ("raises", e.cls if isinstance(e.cls, type) else Exception)
                except (Unsupported, Infeasible) as e:
                    skipped.add((k, str(e)))
                    continue
                n += 1
                same = got[0] == want[0] and (agree(got[1], want[1]) if got[0] == "value" else issubclass(want[1], got[1]) or issubclass(got[1], want[1]))
                if not same:
                    bad += 1
                    print("DIFFERENT (round %d):\n%s\n  verifier: %s\n  python:   %s" % (r, body, got, want))
        finally:
            ip.REPO = old
            shutil.rmtree(root)
    for k, why in sorted(skipped):
        print("outside the subset: %s   (%s)" % (SNIPS[k], why[:90]))
    print("%d comparisons of %d snippets, %d different" % (n, len(SNIPS), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 5))
