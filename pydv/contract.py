"""Contracts on functions of /repo: one text, read twice.

 * proved: `inputs` builds arbitrary (symbolic) arguments, the interpreter executes the function's current source on
   every path, and each `raises` / `effects` / frame / `result` / `post` clause becomes a proof obligation;
 * executed: `inputs` builds concrete arguments and the same clauses are evaluated around a call of the real function in
   CPython.  This is how counterexamples are replayed, and the bounded stand-in where a proof is out of reach.
"""
import importlib
import random
import time
import traceback

import z3

from . import interp as ip
from . import matlib as ml
from .externals import Opaque
from .terms import *
from .terms import _frac

REG = {}          # id -> Contract
BY_FUNC = {}      # function key -> Contract
ORDER = []


class Expect:
    """What the call must do. raises: [(exception class, condition)]; effects: {"self.x": value or fn(result)};
    result: value; post: fn(S, a, result) -> [(name, condition)]; frees: attributes exempt from the frame."""

    def __init__(self, raises=(), effects=None, result=None, post=None, frees=(), check_result=True, watch=()):
        self.raises, self.effects, self.result, self.post = list(raises), dict(effects or {}), result, post
        self.frees = set(frees)
        self.check_result = check_result
        self.watch = list(watch)


ANY = object()


class Call:
    def __init__(self, obj, *args, **kwargs):
        self.obj, self.args, self.kwargs = obj, list(args), dict(kwargs)
        self.extra = {}

    def also(self, **kw):
        self.extra.update(kw)
        return self


class Contract:
    def __init__(self, cid, props, target, inputs, spec, body=None, modular=None, runs=120, budget=60, bounded=None, note=""):
        self.id, self.props, self.target = cid, set(props), target
        self.inputs, self.spec, self.body = inputs, spec, body
        self.modular = modular      # fn(S, a) -> bool/condition: the contract may stand for the call
        self.runs, self.budget = runs, budget
        self.bounded = bounded      # reason why only executed
        self.note = note
        self._key = None

    def key(self):
        return self.target

    # ---- use at a call site: the caller sees the contract, not the body
    def apply(self, it, f, args, kwargs):
        if self.modular is None:
            return NotImplemented
        env = ip.Env(None, f.module, f)
        it.bind(f.node.args, args, kwargs, env, f.qualname, ip.Env(None, f.module))
        S = SymS(it)
        a = NS({k: wrap(it, v) for k, v in env.vars.items()})
        ok = self.modular(S, a)
        if ok is False or ok is None:
            return NotImplemented
        if ok is not True and not it.ctx.must(to_z3(ok, B)):
            return NotImplemented
        ex = self.spec(S, a)
        if ex.post is not None:
            return NotImplemented
        for exc, cond in ex.raises:
            if it.ctx.branch(to_z3(cond, B), "callee raises"):
                raise PyExc(exc, note="by contract of %s" % f.qualname)
        for path, v in ex.effects.items():
            o, attr = resolve(a, path)
            it.setattr(unwrap(o), attr, v(None) if callable(v) else unwrap(v))
        return unwrap(ex.result)


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


def contract(cid, prop, target, **kw):
    """Decorator on a class with `inputs` and `spec` (and optionally `body`, `modular`) functions."""
    props = [prop] if isinstance(prop, str) else list(prop)

    def deco(cls):
        d = cls.__dict__
        get = lambda n: d[n].__func__ if isinstance(d.get(n), staticmethod) else d.get(n)
        c = Contract(cid, props, target, get("inputs"), get("spec"), get("body"), get("modular"), **kw)
        assert cid not in REG, cid
        REG[cid] = c
        ORDER.append(c)
        if c.modular is not None:
            BY_FUNC[target] = c
        return cls
    return deco


def bounded(cid, prop, target, why, runs=40, budget=60):
    """A bounded check (never counted as proved): fn(g) raises Violation on a failing input."""
    props = [prop] if isinstance(prop, str) else list(prop)

    def deco(fn):
        c = Contract(cid, props, target, fn, None, runs=runs, budget=budget, bounded=why)
        assert cid not in REG, cid
        REG[cid] = c
        ORDER.append(c)
        return fn
    return deco


class Violation(Exception):
    pass


class Skip(Exception):
    pass


def resolve(a, path):
    parts = path.split(".")
    o = getattr(a, parts[0])
    for p in parts[1:-1]:
        o = getattr(o, p)
    return o, parts[-1]


# ------------------------------------------------------------------------------------------------ symbolic side
class View:
    """Read access to an interpreted object in specifications."""

    def __init__(self, it, obj):
        object.__setattr__(self, "_it", it)
        object.__setattr__(self, "_obj", obj)

    def __getattr__(self, name):
        return wrap(self._it, self._it.getattr(self._obj, name))


def wrap(it, v):
    if isinstance(v, ip.Obj):
        return View(it, v)
    if isinstance(v, ip.PyList) and v.items() is not None:
        return [wrap(it, x) for x in v.items()]
    return v


def unwrap(v):
    if isinstance(v, View):
        return v._obj
    if isinstance(v, list):
        return ip.PyList.of([unwrap(x) for x in v])
    if isinstance(v, tuple):
        return tuple(unwrap(x) for x in v)
    if isinstance(v, dict):
        return ip.PyDict({k: unwrap(x) for k, x in v.items()})
    return v


class SymS:
    """Specification operations on symbolic values."""
    symbolic = True
    inf = float("inf")

    def __init__(self, it):
        self.it = it
        self.ctx = it.ctx

    def mat(self, v):
        v = unwrap(v)
        if isinstance(v, ip.PyList):
            items = v.items()
            if items is None:
                return ml.symlist_to_vec(self.ctx, SymList(v.segs))
            if all(ml.is_number(x) for x in items):
                return ml.list_to_dm(items)
            return ml.vertcat(self.ctx, items)
        return ml.as_mat(self.ctx, v)

    def n(self, v):
        if isinstance(v, list):
            return len(v)
        v = unwrap(v)
        if isinstance(v, ip.PyList):
            from .externals import length
            return length(self.it, v)
        return self.mat(v).numel

    def rows(self, v):
        return self.mat(v).rows

    def cat(self, *vs):
        ms = [self.mat(v) for v in vs]
        return ml.vertcat(self.ctx, ms)

    def full(self, c, n):
        t = self.mat(c)
        return Mat(t.kind, n, 1, lambda r, k: t.el(0, 0), const=t.const)

    def fill(self, v, n):
        v = self.mat(v)
        if isinstance(v.numel, int):
            if v.numel == 1:
                return self.full(v, n)
            return v
        one = to_z3(v.numel, I) == 1
        return Mat(v.kind, simp(z3.If(one, to_z3(n, I), to_z3(v.numel, I))), 1,
                   lambda r, c: z3.If(one, v.at(0), v.at(r)), const=v.const)

    def at(self, v, i):
        return self.mat(v).at(i)

    def at2(self, v, i, j):
        return self.mat(v).el(i, j)

    def elem(self, v, i):
        return ip.elem(self.mat(v), i)

    def sl(self, v, a, b):
        v = self.mat(v)
        sid = (lambda i: v.sid(add_int(i, a))) if v.sid else None
        return Mat(v.kind, sub_int(b, a), 1, lambda r, c: v.at(add_int(r, a)), sid=sid, const=v.const)

    def _r(self, x):
        if isinstance(x, Mat):
            return x.at(0)
        return to_z3(x, R)

    def _i(self, x, y):
        """Common sort."""
        if isinstance(x, Mat) or isinstance(y, Mat) or any(is_z3(q) and q.sort() == R for q in (x, y)) or any(isinstance(q, float) for q in (x, y)):
            return self._r(x), self._r(y)
        return to_z3(x, I), to_z3(y, I)

    def eq(self, x, y):
        x, y = self._i(x, y)
        return x == y

    def ne(self, x, y):
        return z3.Not(self.eq(x, y))

    def lt(self, x, y):
        x, y = self._i(x, y)
        return x < y

    def le(self, x, y):
        x, y = self._i(x, y)
        return x <= y

    def gt(self, x, y):
        return self.lt(y, x)

    def add(self, x, y):
        if isinstance(x, Mat) or isinstance(y, Mat):
            return ml.arith(self.ctx, "+", x, y)
        x, y = self._i(x, y)
        return simp(x + y)

    def sub(self, x, y):
        if isinstance(x, Mat) or isinstance(y, Mat):
            return ml.arith(self.ctx, "-", x, y)
        x, y = self._i(x, y)
        return simp(x - y)

    def mul(self, x, y):
        if isinstance(x, Mat) or isinstance(y, Mat):
            return ml.arith(self.ctx, "*", x, y)
        x, y = self._i(x, y)
        if x.sort() == I:
            return simp(x * y)
        return real_mul(x, y, self.ctx)

    def div(self, x, y):
        if isinstance(x, Mat) or isinstance(y, Mat):
            return ml.arith(self.ctx, "/", x, y)
        return real_div(to_z3(x, R), to_z3(y, R), self.ctx)

    def And(self, *cs):
        cs = [to_z3(c, B) for c in cs]
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def Or(self, *cs):
        cs = [to_z3(c, B) for c in cs]
        return z3.Or(*cs) if cs else z3.BoolVal(False)

    def Not(self, c):
        return z3.Not(to_z3(c, B))

    def Implies(self, a, b):
        return z3.Implies(to_z3(a, B), to_z3(b, B))

    def ite(self, c, a, b):
        return self.it.merge(to_z3(c, B), unwrap(a), unwrap(b))

    def forall(self, n, f):
        if isinstance(n, int) and n <= 6:
            return self.And(*[f(i) for i in range(n)])
        q = z3.Int(self.ctx.fresh_name("sq"))
        return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < to_z3(n, I)), to_z3(f(q), B)))

    def exists(self, n, f):
        if isinstance(n, int) and n <= 6:
            return self.Or(*[f(i) for i in range(n)])
        q = z3.Int(self.ctx.fresh_name("sq"))
        return z3.Exists([q], z3.And(q >= 0, q < to_z3(n, I), to_z3(f(q), B)))

    def same(self, a, b):
        a, b = self.mat(a), self.mat(b)
        if not (a.is_vec() and b.is_vec()):
            return z3.And(*[to_z3(c, B) for _, c in val_goals(self.it, a, b, "same")])
        return z3.And(to_z3(a.numel, I) == to_z3(b.numel, I), self.forall(a.numel, lambda i: same_real(a.at(i), b.at(i))))

    def sid(self, v, i):
        v = self.mat(v)
        return to_z3(v.sid(i), I)

    def same_sym(self, v, i, w, j):
        return self.sid(v, i) == self.sid(w, j)

    def depends(self, e, s):
        e, s = self.mat(e), self.mat(s)
        if e.kind == "DM":
            return False
        r = ml.depends_on(self.ctx, e, s)
        return to_z3(r, B)

    def subst(self, e, old, new):
        e, old, new = self.mat(e), self.mat(old), self.mat(new)
        if e.kind == "SX" and new.kind == "MX":         # the function of the symbols that e is, of other arguments
            as_mx = lambda m: Mat("MX", m.rows, m.cols, m.el, sid=m.sid, segs=m.segs)
            e, old = as_mx(e), as_mx(old)
        return ml.substitute(self.ctx, e, old, new)

    def keep(self, v, cond):
        """The elements v_i with cond(i), in order."""
        v = self.mat(v)
        cond2 = lambda k: to_z3(cond(k), B)
        if simp(cond2(z3.Int("kk"))) is True:
            return v
        return ml.filter_to_vec(self.ctx, FilterSeg(v.numel, cond2, lambda k: ip.elem(v, k)))

    def vmap(self, n, f, kind="DM"):
        return Mat(kind, n, 1, lambda r, c: self._r(f(r)))

    def stack(self, n, f):
        """f(0), ..., f(n-1), one below the other."""
        return ml.symlist_to_vec(self.ctx, SymList([MapSeg(n, f)]))

    def get(self, d, k):
        """The entry k of a dictionary with keys 0..n-1."""
        d = unwrap(d)
        if isinstance(d, ip.Obj):
            return wrap(self.it, self.it.call(self.it.getattr(d, "__getitem__"), [unwrap(k)], {}))
        return wrap(self.it, d.rng.fn(k) if d.rng is not None and k not in d.d else d.d[k])

    def keys(self, d):
        """The keys of a dictionary with known keys."""
        d = unwrap(d)
        if not d.is_plain():
            raise Unsupported("keys of a dictionary")
        return set(d.d)

    def is_same(self, a, b):
        """The same object."""
        return unwrap(a) is unwrap(b)

    def cols(self, v):
        return self.mat(v).cols

    def ent(self, v, r, c):
        return self.mat(v).el(r, c)

    def row(self, v):
        return ml.transpose(self.mat(v))

    def close(self, x, y):
        return self.eq(x, y)

    def hcat(self, *vs):
        return ml.horzcat(self.ctx, [self.mat(v) for v in vs])

    def col(self, v, j):
        return ml.column(self.mat(v), j)

    def by_time(self, t, *ms):
        """t and the matrices ms with their columns in the order of t (the columns of equal times in their order)."""
        t = self.mat(t)
        f = ml.sort_perm(self.ctx, t.cols, lambda q: t.el(0, q))
        return tuple(Mat(m.kind, m.rows, t.cols, lambda r, c, m=m: m.el(r, f(to_z3(c, I))), const=m.const) for m in [t] + [self.mat(m) for m in ms])

    def rangedict(self, n, f):
        d = ip.PyDict()
        d.rng = SymDict(n, f)
        return d

    def empty(self, kind="DM"):
        return ml.empty(kind, 0, 1)

    def seq(self, n, f):
        return ip.PyList([MapSeg(n, lambda k: unwrap(f(k)))])

    def join(self, *parts):
        """Lists one after the other."""
        segs = []
        for p in parts:
            p = unwrap(p)
            segs += p.segs if isinstance(p, ip.PyList) else [ip.One(unwrap(x)) for x in p]
        return ip.PyList(segs)

    def is_none(self, v):
        if isinstance(v, ip.Opt):
            return z3.Not(to_z3(v.present, B))
        return v is None

    def opt(self, cond, v):
        return ip.Opt(to_z3(cond, B), unwrap(v))

    def mtimes(self, a, b):
        return ml.mtimes(self.ctx, self.mat(a), self.mat(b))

    def T(self, a):
        return ml.transpose(self.mat(a))

    def chol(self, a):
        return ml.chol(self.ctx, self.mat(a))

    def solve(self, a, b):
        return ml.solve(self.ctx, self.mat(a), self.mat(b))

    def inv(self, a):
        return ml.inv(self.ctx, self.mat(a))

    def block(self, a, r0, r1, c0, c1):
        """Rows r0..r1-1 and columns c0..c1-1."""
        a = self.mat(a)
        return Mat(a.kind, r1 - r0, c1 - c0, lambda r, c: a.el(add_int(r, r0), add_int(c, c0)), const=a.const)

    def vec(self, a):
        """The columns of a matrix, one below the other (of known size)."""
        a = self.mat(a)
        return self.cat(*[ml.column(a, j) for j in range(a.cols)]) if a.cols else ml.empty(a.kind, 0, 1)

    def near(self, a, b, scale=None):
        a, b = self.mat(a), self.mat(b)
        if all(isinstance(n, int) for n in (a.rows, a.cols, b.rows, b.cols)) and a.rows * a.cols <= 36:
            if (a.rows, a.cols) != (b.rows, b.cols):
                return False
            return z3.And(*[to_z3(same_real(a.el(i, j), b.el(i, j)), B) for i in range(a.rows) for j in range(a.cols)])
        return self.same(a, b)

    def regular(self, a):
        """Can a system with this matrix be solved well? (executions only)"""
        return True

    def size(self, *vs):
        """How large the numbers are (executions only)."""
        return None

    def quad(self, v, Q):
        """v' Q v"""
        return self.mtimes(self.mtimes(self.T(v), Q), v)

    def items(self, lst):
        out = self.it.concrete_items(unwrap(lst))
        return None if out is None else [wrap(self.it, x) for x in out]

    def item(self, lst, j):
        from .externals import getitem
        lst = unwrap(lst)
        if isinstance(lst, (tuple, Mat)):
            return wrap(self.it, lst[j]) if isinstance(lst, tuple) else lst.at(j)
        if isinstance(lst, ip.PyList) and len(lst.segs) == 1 and isinstance(lst.segs[0], MapSeg):
            return wrap(self.it, lst.segs[0].fn(j))
        return wrap(self.it, getitem(self.it, lst, j))

    def nodes(self, degree):
        """The Radau points of a degree (without 0)."""
        from .externals import radau_points
        return radau_points(degree)

    def frac(self, v):
        return v.as_fraction() if is_z3(v) else _frac(v)

    def num(self, v):
        return z3.RealVal(str(v))

    def jac(self, e, x):
        return ml.jacobian(self.ctx, self.mat(e), self.mat(x))

    def evaluate(self, f, *args):
        """The value of a casadi Function that the code built."""
        from .externals import call_function
        return call_function(self.it, unwrap(f), [self.mat(a) for a in args], {})

    def apply(self, ins, e, args):
        """The function of `ins` that the expression e is, of other arguments."""
        return self.subst(e, self.cat(*ins), self.cat(*args))

    def comb(self, coeffs, vectors, n):
        """The linear combination of vectors of n entries."""
        vs = [self.mat(v) for v in vectors]
        cs = [z3.RealVal(str(c)) for c in coeffs]
        kind = join_kind(*[v.kind for v in vs]) if vs else "DM"
        if n == 0:
            return ml.empty(kind, 0, 1)
        return Mat(kind, n, 1, lambda r, k: z3.simplify(z3.Sum([c * v.at(r) for c, v in zip(cs, vs)])), const=False)

    def match_rows(self, got, lb, ub, want, over=()):
        """[(name, condition)]: the constraints lb <= got <= ub are the constraints `want`, a list of (vector, lower, upper), in any order,
        stated with either sign."""
        got, lb, ub = self.mat(got), self.mat(lb), self.mat(ub)
        n = got.numel
        rows = [(to_z3(v.at(i), R), to_z3(l, R), to_z3(u, R)) for v, l, u in [(self.mat(v), l, u) for v, l, u in want] for i in range(v.numel)]
        out = [("number of constraints", self.And(*[to_z3(q, I) == len(rows) for q in (n, lb.numel, ub.numel)]))]
        if not isinstance(n, int):
            return out + [("number of constraints is known", False)]
        nf = lambda t: from_poly(polynomial(z3.simplify(t)))
        key = lambda t: nf(t).sexpr()
        left = list(range(len(rows)))
        table = {}
        for w in left:
            e, l, u = rows[w]
            table.setdefault((key(e), key(l), key(u)), []).append(w)
            table.setdefault((key(-e), key(-u), key(-l)), []).append(w)
        used, rest = set(), []
        for i in range(n):
            e, l, u = to_z3(got.at(i), R), to_z3(lb.at(i), R), to_z3(ub.at(i), R)
            hit = [w for w in table.get((key(e), key(l), key(u)), []) if w not in used]
            if hit:
                used.add(hit[0])
                we, wl, wu = rows[hit[0]]
                out.append(("constraint %d" % i, True))
            else:
                rest.append((i, e, l, u))
        free = [w for w in left if w not in used]
        for (i, e, l, u), w in zip(rest, free):
            we, wl, wu = rows[w]
            out.append(("constraint %d" % i, z3.And(nf(e) == nf(we), l == wl, u == wu)))
        for i, *_ in rest[len(free):]:
            out.append(("constraint %d is not specified" % i, False))
        for w in free[len(rest):]:
            out.append(("specified constraint %d is missing" % w, False))
        return out

    def same_str(self, a, b):
        """Equality of two plain Python values."""
        from .externals import equal
        return to_z3(equal(self.it, unwrap(a), unwrap(b)), B)

    def eq_bool(self, a, b):
        return to_z3(self.it.truth_term(unwrap(a)), B) == to_z3(b, B)


def same_real(x, y):
    """x == y, true where both are the same polynomial of the same factors"""
    x, y = z3.simplify(to_z3(x, R)), z3.simplify(to_z3(y, R))
    if x.eq(y) or (not (is_num(x) or is_num(y)) and polynomial(x) == polynomial(y)):
        return z3.BoolVal(True)
    return x == y


class SymG:
    """Builds arbitrary inputs."""
    symbolic = True
    S = None

    def __init__(self, it):
        self.it, self.ctx = it, it.ctx
        self.S = SymS(it)
        self.record = []       # (name, kind, payload) for reading a model back
        self.objs = []

    def size(self, name, lo=0, hi=4):
        n = self.ctx.fresh_int(name)
        self.ctx.assume(n >= lo)
        self.record.append((name, "int", n))
        return n

    def upto(self, v, n):
        return n

    def index(self, name, n):
        i = self.ctx.fresh_int(name)
        self.ctx.assume(z3.And(i >= 0, i < to_z3(n, I)))
        self.record.append((name, "int", i))
        return i

    def int(self, name, lo=-3, hi=4):
        i = self.ctx.fresh_int(name)
        self.record.append((name, "int", i))
        return i

    def const(self, lo, hi):
        return lo

    def real(self, name, lo=None, hi=None):
        r = self.ctx.fresh_real(name)
        self.ctx.numbers.add(r.decl().name())
        if lo is not None:
            self.ctx.assume(r > to_z3(lo, R))
        self.record.append((name, "real", r))
        return r

    def flag(self, name):
        """A Python bool: both values explored."""
        v = bool(self.ctx.choose(2, name))
        self.record.append((name, "pick", int(v)))
        return v

    def pick(self, name, options):
        i = self.ctx.choose(len(options), name)
        self.record.append((name, "pick", i))
        o = options[i]
        return o() if callable(o) and not isinstance(o, type) else o

    def dm(self, name, n, inf=True, zeros=False):
        f = self.ctx.fresh_fun(name, I, R)
        self.ctx.numbers.add(f.name())
        self.record.append((name, "dm", (f, n)))
        if not inf:
            q = z3.Int("qfin")
            self.ctx.axiom(z3.ForAll([q], z3.And(f(q) < INF, f(q) > -INF), patterns=[f(q)]))
        if isinstance(n, int) and n == 0:
            return ml.empty("DM", 0, 1)
        return Mat("DM", n, 1, lambda r, c: f(to_z3(r, I)))

    def matrix(self, name, n, m):
        """A DM with n rows and m columns."""
        f = self.ctx.fresh_fun(name, I, I, R)
        self.ctx.numbers.add(f.name())
        return Mat("DM", n, m, lambda r, c: f(to_z3(r, I), to_z3(c, I)), const=True)

    def covariance(self, name, n):
        """A positive definite matrix (in the proofs: any matrix)."""
        return self.matrix(name, n, n)

    def dmdict(self, name, count, n):
        """{0: v_0, ..., count-1: v_(count-1)} with vectors of n numbers."""
        f = self.ctx.fresh_fun(name, I, I, R)
        self.ctx.numbers.add(f.name())
        self.record.append((name, "dmdict", (f, count, n)))
        d = ip.PyDict()
        d.rng = SymDict(count, lambda k: Mat("DM", n, 1, lambda r, c: f(to_z3(k, I), to_z3(r, I))))
        o, q = self.ctx.fresh_fun(name + "_order", I, I), z3.Int("qo")
        self.ctx.axiom(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < to_z3(count, I)), z3.And(o(q) >= 0, o(q) < to_z3(count, I))), patterns=[o(q)]))
        d.rng.order = o                     # the order the entries were put in is arbitrary
        return d

    def reals(self, name, n):
        """A Python list of n floats."""
        f = self.ctx.fresh_fun(name, I, R)
        self.ctx.numbers.add(f.name())
        self.record.append((name, "dm", (f, n)))
        if isinstance(n, int):
            return ip.PyList.of([f(z3.IntVal(i)) for i in range(n)])
        return ip.PyList([MapSeg(n, lambda k: f(to_z3(k, I)))])

    def sym(self, name, n=1, kind="MX"):
        return ml.fresh_sym(self.ctx, kind, name, n)

    def select(self, name, v, m):
        """m distinct elements of the vector v, in arbitrary order: (the selection, its index function)."""
        v = self.S.mat(v)
        f, b = self.ctx.fresh_fun(name, I, I), self.ctx.fresh_fun(name + "_inv", I, I)
        q = z3.Int("qs")
        rng = lambda x: z3.And(x >= 0, x < to_z3(m, I))
        self.ctx.axiom(z3.ForAll([q], z3.Implies(rng(q), z3.And(f(q) >= 0, f(q) < to_z3(v.numel, I), b(f(q)) == q)), patterns=[f(q)]))
        self.ctx.__dict__.setdefault("inverses", []).append((f, b))
        self.ctx.assume(z3.And(to_z3(m, I) >= 0, to_z3(m, I) <= to_z3(v.numel, I)))
        ix = lambda i: f(to_z3(i, I))
        ix.inv = lambda i: b(to_z3(i, I))
        sid = (lambda i: v.sid(ix(i))) if v.sid else None
        return Mat(v.kind, m, 1, lambda r, c: v.at(ix(r)), sid=sid, const=v.const), ix

    def permute(self, name, v):
        """The elements of v in an arbitrary order: (the permuted vector, its index function)."""
        v = self.S.mat(v)
        f, b = self.ctx.fresh_fun(name, I, I), self.ctx.fresh_fun(name + "_inv", I, I)
        q = z3.Int("qs")
        rng = lambda x: z3.And(x >= 0, x < to_z3(v.numel, I))
        self.ctx.axiom(z3.ForAll([q], z3.Implies(rng(q), z3.And(rng(f(q)), b(f(q)) == q)), patterns=[f(q)]))
        self.ctx.axiom(z3.ForAll([q], z3.Implies(rng(q), z3.And(rng(b(q)), f(b(q)) == q)), patterns=[b(q)]))
        ix = lambda i: f(to_z3(i, I))
        ix.inv = lambda i: b(to_z3(i, I))
        self.ctx.__dict__.setdefault("inverses", []).append((f, b))
        sid = (lambda i: v.sid(ix(i))) if v.sid else None
        return Mat(v.kind, v.numel, 1, lambda r, c: v.at(ix(r)), sid=sid, const=v.const), ix

    def expr(self, name, n, over=(), kind="MX", zeros=False):
        f = self.ctx.fresh_fun(name, I, R)
        if isinstance(n, int) and n == 0:
            return ml.empty(kind, 0, 1)
        return Mat(kind, n, 1, lambda r, c: f(to_z3(r, I)), const=False)

    def fexpr(self, name, n, over=(), kind="SX", zeros=False):
        """n expressions in the symbols `over` (of known number) and no others: arbitrary functions of them, applied to them."""
        syms = [s for v in over for s in [self.S.mat(v)] if s.numel != 0]
        args = [s.at(i) for s in syms for i in range(s.numel)]
        f = self.ctx.fresh_fun(name, I, *([R] * len(args) + [R]))
        self.ctx.generic.add(f.name())
        if isinstance(n, int) and n == 0:
            return ml.empty(kind, 0, 1)
        return Mat(kind, n, 1, lambda r, c: f(to_z3(r, I), *args), const=False)

    def track_symbols(self):
        """Reason about which symbols an expression contains (needed where a replacement is made twice)."""
        self.ctx.avoids = True

    def avoid(self, e, v):
        """The expressions e do not contain the symbols v."""
        e, v = self.S.mat(e), self.S.mat(v)
        r, j = z3.Ints("av_r av_j")
        self.ctx.avoids = True
        if isinstance(e.numel, int) and e.numel == 0:
            return
        if v.numel == 1:
            self.ctx.axiom(z3.ForAll([r], z3.Not(D(e.at(r), to_z3(v.sid(0), I))), patterns=[e.at(r)]))
        else:
            d = D(e.at(r), to_z3(v.sid(j), I))
            self.ctx.axiom(z3.ForAll([r, j], z3.Implies(z3.And(j >= 0, j < to_z3(v.numel, I)), z3.Not(d)), patterns=[d]))

    def dep_expr(self, name, n, on, over=(), kind="MX"):
        """An expression that depends on the symbols `on`."""
        e = self.expr(name, n, over, kind)
        self.ctx.assume(to_z3(ml.depends_on(self.ctx, e, on), B))
        e.op = "OTHER"
        return e

    def relation(self, op, a, b):
        a, b = self.S.mat(a), self.S.mat(b)
        kind = "MX"
        a, b = [x if x.kind != "DM" else Mat(kind, x.rows, x.cols, x.el, const=True) for x in (a, b)]
        return ml.arith(self.ctx, op, a, b)

    def list(self, items):
        return ip.PyList.of([unwrap(x) for x in items])

    def dict(self, d):
        return ip.PyDict({k: unwrap(v) for k, v in d.items()})

    def str(self, name):
        return name

    def cls(self, path):
        mod, _, name = path.partition(":")
        return self.it.import_name(mod, name)

    def func(self, path):
        return self.cls(path)

    def get(self, mod, name):
        return self.it.import_name(mod, name)

    def new(self, path, *args, **kw):
        o = self.it.call(self.cls(path), [unwrap(a) for a in args], {k: unwrap(v) for k, v in kw.items()})
        self.objs.append(o)
        self.it.roots.append(o)
        return View(self.it, o)

    def put(self, o, **attrs):
        for k, v in attrs.items():
            self.it.setattr(unwrap(o), k, unwrap(v))
        return o

    def call(self, o, meth, *args, **kw):
        return wrap(self.it, self.it.call(self.it.getattr(unwrap(o), meth), [unwrap(a) for a in args], {k: unwrap(v) for k, v in kw.items()}))

    def assume(self, c):
        self.ctx.assume(to_z3(c, B))

    def fun(self, name, ins, outs):
        """The casadi Function of the symbols ins with the results outs."""
        from .externals import c_Function
        return c_Function(self.it, [name, ip.PyList.of([unwrap(v) for v in ins]), ip.PyList.of([unwrap(v) for v in outs])], {})

    def stub(self, obj, name, result=None):
        """Replace a method of an object by a recorder; returns the list of recorded calls."""
        rec = []
        def fn(it, a, k):
            rec.append((list(a), dict(k)))
            return unwrap(result(*a, **k)) if callable(result) else unwrap(result)
        unwrap(obj).attrs[name] = ip.Builtin("stub." + name, fn)
        return rec


    def normals(self):
        """Replace numpy's normally distributed vectors by any vectors: rec.draws = [(mean, covariance, vector)]."""
        rec = NS({"draws": []})

        def draw(it, a, k):
            mean = it.concrete_items(a[0])
            if mean is None or len(a) != 2 or k:
                raise Unsupported("multivariate_normal")
            v = self.dm("draw%d" % len(rec.draws), len(mean), inf=False)
            rec.draws.append((mean, a[1], v))
            return v
        self.it.overrides["numpy.random.multivariate_normal"] = ip.Builtin("numpy.random.multivariate_normal", draw)
        return rec

    def copy(self, v):
        return Mat(v.kind, v.rows, v.cols, v.el, sid=v.sid, segs=v.segs, const=v.const)

    def recorder(self, results, stop=10 ** 9):
        """A function that hands out the results one after the other: rec.fn, and the calls it gets in rec.calls; the call after
        `stop` calls ends with KeyboardInterrupt."""
        rec = NS({"calls": []})

        def fn(it, a, k):
            now = lambda v: Mat(v.kind, v.rows, v.cols, v.el, sid=v.sid, segs=v.segs, const=v.const) if isinstance(v, Mat) else v
            rec.calls.append(([now(v) for v in a], {q: now(v) for q, v in k.items()}))
            if len(rec.calls) > stop:
                raise PyExc(KeyboardInterrupt, note="stopped")
            return unwrap(results[min(len(rec.calls), len(results)) - 1])
        rec.fn = ip.Builtin("recorder", fn)
        return rec

    def solvers(self, *names):
        """Replace the casadi solver factories by recorders: rec.built = [(problem, options)], rec.calls = [(index of the
        solver used, arguments)]; every call returns rec.solution and every solver reports rec.stats."""
        rec = NS({"built": [], "calls": []})
        rec.solution = {k: self.dm("solution_" + k, self.ctx.fresh_int("solution_n_" + k)) for k in ("x", "f", "g", "lam_x", "lam_g", "lam_p")}
        rec.stats = {"success": True}

        def factory(kind):
            def make(it, a, k):
                i = len(rec.built)
                rec.built.append((kind, dict(a[2].d), dict(a[3].d) if len(a) > 3 else {}))

                def run(it, a, k):
                    rec.calls.append((i, dict(k)))
                    return ip.PyDict(dict(rec.solution))
                return ip.Stub("solver", run, {"stats": ip.Builtin("solver.stats", lambda it, a, k: ip.PyDict(dict(rec.stats)))})
            return ip.Builtin("casadi." + kind, make)
        for n in names:
            self.it.overrides[n] = factory(n)
        return rec


    def rootfinders(self):
        """Replace casadi's rootfinder by a recorder: rec.built = [(plugin, function, options)], rec.calls = [(index, argument, result)]."""
        rec = NS({"built": [], "calls": []})

        def make(it, a, k):
            i = len(rec.built)
            rec.built.append((a[1], a[2], dict(a[3].d) if len(a) > 3 else {}))

            def run(it, b, k):
                if k or len(b) != 1:
                    raise Unsupported("rootfinder call")
                r = self.dm("root%d" % len(rec.calls), a[2].ins[0].numel)
                rec.calls.append((i, b[0], r))
                return r
            return ip.Stub("rootfinder", run, {})
        self.it.overrides["rootfinder"] = ip.Builtin("casadi.rootfinder", make)
        return rec

    def replace(self, module, name, origin, rec):
        """The name of a function of the package, as `module` imports it from `origin`, stands for the recorder."""
        for o in [origin] if isinstance(origin, str) else origin:
            self.it.overrides[o + "." + name] = rec.fn

    def integrators(self, smooth=False):
        """Replace casadi's integrators by recorders: rec.steps = [step], a step having plugin, dae, t0, tf, options, args (of the call),
        xf and zf (what it returned)."""
        rec = NS({"steps": [], "built": 0})

        def make(it, a, k):
            plain = lambda d: {} if d is None else dict(d.d)
            rest = list(a[3:])
            if k:
                raise Unsupported("integrator keywords")
            opts = plain(rest.pop()) if rest and isinstance(rest[-1], ip.PyDict) else {}
            t0, tf = (rest[0], rest[1]) if len(rest) == 2 else (opts.pop("t0", 0), opts.pop("tf", 1))
            rec.built += 1
            dae = plain(a[2])

            def step(args):
                q = len(rec.steps)
                kind = join_kind(*["DM"] + [ml.as_mat(it.ctx, w).kind for w in args.values()])
                new = self.dm if kind == "DM" else (lambda name, n: self.sym(name, n, kind))
                xf = new("xf%d" % q, ml.as_mat(it.ctx, dae["x"]).numel)
                zf = new("zf%d" % q, ml.as_mat(it.ctx, dae["z"]).numel) if "z" in dae else ml.empty("DM", 0, 1)
                rec.steps.append(NS(dict(plugin=a[1], dae=dae, t0=t0, tf=tf, options=opts, args=args, xf=xf, zf=zf)))
                return ip.PyDict({"xf": xf, "zf": zf, "qf": ml.empty("DM", 0, 1)})
            def mapped(it, a, k):
                def run(it, b, k):
                    cols = []
                    for c in range(a[0]):
                        col = {q: ml.as_mat(it.ctx, v) for q, v in k.items()}
                        col = {q: Mat(v.kind, v.rows, 1, lambda r, _, v=v, c=c: v.el(r, c), const=v.const) for q, v in col.items()}
                        cols.append(step(col).d["xf"])
                    return ip.PyDict({"xf": ml.horzcat(it.ctx, cols)})
                return ip.Stub("integrators", run, {})
            return ip.Stub("integrator", lambda it, a, k: step(dict(k)), {"map": ip.Builtin("integrator.map", mapped), "call": ip.Builtin("integrator.call", lambda it, a, k: step(dict(a[0].d)))})
        self.it.overrides["integrator"] = ip.Builtin("casadi.integrator", make)
        return rec


class SymR:
    """Operations for scenario bodies (ghost clients)."""

    def __init__(self, it):
        self.it = it
        self.S = SymS(it)

    def call(self, o, meth, *args, **kw):
        return wrap(self.it, self.it.call(self.it.getattr(unwrap(o), meth), [unwrap(a) for a in args], {k: unwrap(v) for k, v in kw.items()}))

    def refused(self, o, meth, *args, **kw):
        """Does the call end with an exception?"""
        try:
            self.call(o, meth, *args, **kw)
        except PyExc:
            return True
        return False

    def list(self, items):
        return ip.PyList.of([unwrap(x) for x in items])

    def fn(self, f, *args, **kw):
        return wrap(self.it, self.it.call(f, [unwrap(a) for a in args], {k: unwrap(v) for k, v in kw.items()}))

    def attr(self, o, name):
        return wrap(self.it, self.it.getattr(unwrap(o), name))

    def put(self, o, **attrs):
        for k, v in attrs.items():
            self.it.setattr(unwrap(o), k, unwrap(v))

    def eq(self, x, y):
        return wrap(self.it, self.it.ext.compare(self.it, "Eq", unwrap(x), unwrap(y)))

    def setitem(self, d, k, v):
        if not (isinstance(d, ip.PyDict) and d.is_plain()):
            raise Unsupported("setitem")
        d.d[k] = unwrap(v)

    def items(self, d):
        if not (isinstance(d, ip.PyDict) and d.is_plain()):
            raise Unsupported("items")
        return dict(d.d)


# ------------------------------------------------------------------------------------------------ goals
def val_goals(it, got, want, what):
    """[(name, condition)] stating that two interpreted values are the same."""
    ctx = it.ctx
    got, want = unwrap(got), unwrap(want)
    if want is ANY or ip.same_ident(got, want):
        return [(what, True)]
    if isinstance(want, ip.Opt) or isinstance(got, ip.Opt):
        pg, vg = ip.opt_parts(got)
        pw, vw = ip.opt_parts(want)
        out = [(what + " presence", to_z3(pg, B) == to_z3(pw, B))]
        if vg is not None and vw is not None:
            out += [(n, z3.Implies(to_z3(pw, B), to_z3(c, B))) for n, c in val_goals(it, vg, vw, what)]
        return out
    if got is None or want is None:
        return [(what, False)]
    if isinstance(got, Mat) or isinstance(want, Mat):
        if not (isinstance(got, (Mat, int, float)) or is_z3(got)) or not (isinstance(want, (Mat, int, float)) or is_z3(want)):
            return [(what + " kind", False)]
        g, w = ml.as_mat(ctx, got), ml.as_mat(ctx, want)
        if any(is_z3(m.cols) or (isinstance(m.cols, int) and m.cols > 1 and not ml.same_int(m.rows, 1)) for m in (g, w)):
            r1, c1, r2, c2 = [to_z3(x, I) for x in (g.rows, g.cols, w.rows, w.cols)]
            shape = z3.Or(z3.And(r1 == r2, c1 == c2), z3.And(z3.Or(r1 == 0, c1 == 0), z3.Or(r2 == 0, c2 == 0)))
            i, j = z3.Int(ctx.fresh_name("sk")), z3.Int(ctx.fresh_name("sk"))
            rng = z3.And(i >= 0, i < r2, j >= 0, j < c2)
            return [(what + " shape", shape), (what + " elements", z3.Implies(rng, to_z3(g.el(i, j), R) == to_z3(w.el(i, j), R)))]
        out = [(what + " length", to_z3(g.numel, I) == to_z3(w.numel, I))]
        if isinstance(w.numel, int) and w.numel == 0:
            return out
        i = z3.Int(ctx.fresh_name("sk"))
        if isinstance(w.numel, int) and w.numel == 1 or isinstance(g.numel, int) and g.numel == 1:
            i = 0
        e1, e2 = to_z3(g.at(i), R) if not g.boolean else g.at(i), to_z3(w.at(i), R) if not w.boolean else w.at(i)
        rng = z3.And(to_z3(i, I) >= 0, to_z3(i, I) < to_z3(w.numel, I))
        out.append((what + " elements", z3.Implies(rng, e1 == e2)))
        return out
    if isinstance(got, bool) or isinstance(want, bool) or (is_z3(got) and got.sort() == B):
        if (isinstance(got, bool) or is_z3(got)) and (isinstance(want, bool) or is_z3(want)):
            return [(what, to_z3(got, B) == to_z3(want, B))]
        return [(what, False)]
    if (isinstance(got, (int, float)) or is_z3(got)) and (isinstance(want, (int, float)) or is_z3(want)):
        real = any(isinstance(x, float) or (is_z3(x) and x.sort() == R) for x in (got, want))
        s = R if real else I
        return [(what, to_z3(got, s) == to_z3(want, s))]
    if isinstance(got, tuple) and isinstance(want, tuple):
        if len(got) != len(want):
            return [(what + " length", False)]
        return [g for k, (x, y) in enumerate(zip(got, want)) for g in val_goals(it, x, y, "%s[%d]" % (what, k))]
    if isinstance(got, ip.PyList) and isinstance(want, ip.PyList):
        a, b = it.concrete_items(got), it.concrete_items(want)
        if a is not None and b is not None:
            if len(a) != len(b):
                return [(what + " length", False)]
            return [(what + " length", True)] + [g for k, (x, y) in enumerate(zip(a, b)) for g in val_goals(it, x, y, "%s[%d]" % (what, k))]
        sa, sb = got.segs, want.segs
        if len(sa) > 1 and len(sa) == len(sb) and all(
                (isinstance(x, ip.One) and isinstance(y, ip.One)) or
                (isinstance(x, MapSeg) and isinstance(y, MapSeg) and ctx.must(to_z3(x.n, I) == to_z3(y.n, I))) for x, y in zip(sa, sb)):
            out = [(what + " length", True)]
            for j, (x, y) in enumerate(zip(sa, sb)):
                if isinstance(x, ip.One):
                    out += val_goals(it, x.value, y.value, "%s[part %d]" % (what, j))
                else:
                    i = z3.Int(ctx.fresh_name("sk"))
                    rng = z3.And(i >= 0, i < to_z3(y.n, I))
                    out += [(n, z3.Implies(rng, to_z3(c, B))) for n, c in val_goals(it, x.fn(i), y.fn(i), "%s[part %d, i]" % (what, j))]
            return out
        na, ga = it.indexable(got)
        nb, gb = it.indexable(want)
        out = [(what + " length", to_z3(na, I) == to_z3(nb, I))]
        i = z3.Int(ctx.fresh_name("sk"))
        rng = z3.And(i >= 0, i < to_z3(nb, I))
        out += [(n, z3.Implies(rng, to_z3(c, B))) for n, c in val_goals(it, ga(i), gb(i), what + "[i]")]
        return out
    if isinstance(got, ip.PyDict) and isinstance(want, ip.PyDict):
        if got.is_plain() and want.is_plain():
            if set(got.d) != set(want.d):
                return [(what + " keys", False)]
            return [g for k in want.d for g in val_goals(it, got.d[k], want.d[k], "%s[%r]" % (what, k))]
        if set(got.d) == set(want.d) and got.rng is not None and want.rng is not None and not got.om and not want.om:
            out = [(what + " length", to_z3(got.rng.n, I) == to_z3(want.rng.n, I))]
            i = z3.Int(ctx.fresh_name("sk"))
            rng = z3.And(i >= 0, i < to_z3(want.rng.n, I))
            out += [(n, z3.Implies(rng, to_z3(c, B))) for n, c in val_goals(it, got.rng.fn(i), want.rng.fn(i), what + "[i]")]
            for k in want.d:
                out += val_goals(it, got.d[k], want.d[k], "%s[%r]" % (what, k))
            return out
        if same_dict_state(got, want):
            return [(what, True)]
        raise Unsupported("comparison of dictionaries")
    if isinstance(got, (str, OpaqueStr)) and isinstance(want, (str, OpaqueStr)):
        if getattr(got, "key", got) == getattr(want, "key", want):
            return [(what, True)]
        if isinstance(got, str) and isinstance(want, str):
            return [(what, False)]
        raise Unsupported("comparison of strings")
    if isinstance(got, ip.PySet) and isinstance(want, ip.PySet):
        if got.rng is not None or want.rng is not None:
            raise Unsupported("comparison of sets")
        if len(got.items) == len(want.items) and all(ip.same_ident(x, y) for x, y in zip(got.items, want.items)):
            return [(what, True)]
        raise Unsupported("comparison of sets")
    if isinstance(got, (ip.Obj, Opaque)) or isinstance(want, (ip.Obj, Opaque)):
        return [(what + " identity", got is want)]
    if isinstance(got, ip.Bound) and isinstance(want, ip.Bound):
        return [(what, got.obj is want.obj and got.func is want.func)]
    raise Unsupported("comparison of %s and %s" % (type(got).__name__, type(want).__name__))


def same_dict_state(a, b):
    return (set(a.d) == set(b.d) and all(ip.same_ident(a.d[k], b.d[k]) for k in a.d) and a.rng is b.rng
            and len(a.om) == len(b.om) and all(x is y for x, y in zip(a.om, b.om)))


def freeze(v):
    if isinstance(v, ip.PyList):
        return ip.PyList(v.segs)
    if isinstance(v, ip.PyDict):
        n = ip.PyDict(v.d)
        n.rng, n.om = v.rng, list(v.om)
        return n
    if isinstance(v, ip.PySet) and v.rng is None:
        return ip.PySet(list(v.items))
    return v


def concretely(term):
    return term if isinstance(term, bool) else None


class Obligation:
    __slots__ = ("name", "status", "detail", "taint", "values", "backend", "secs")

    def __init__(self, name, status, detail="", taint=(), values=None, backend="z3", secs=0.0):
        self.name, self.status, self.detail, self.taint, self.values, self.backend, self.secs = name, status, detail, sorted(taint), values, backend, secs

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


def prove(ctx, goal, timeout=4000):
    """(status, model-or-None, backend): proved / failed / unknown."""
    goal = simp(goal)
    if goal is True:
        return "proved", None, "simplifier"
    t0 = time.time()
    neg = z3.Not(to_z3(goal, B))
    ctx.solver.push()
    ctx.solver.set("timeout", timeout)
    try:
        ctx.solver.add(neg)
        r = ctx.solver.check()
        if r == z3.unsat:
            return "proved", None, "z3 (E-matching)"
        m = None
        try:
            m = ctx.solver.model()
        except z3.Z3Exception:
            pass
        if r == z3.sat:
            return "failed", m, "z3 (E-matching)"
    finally:
        ctx.solver.pop()
        ctx.solver.set("timeout", 1000)
        ctx.budget.solver_s += time.time() - t0
        ctx.budget.queries += 1
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", min(timeout, 1500))
    for f in base_axioms() + ctx.axioms + ctx.pc:
        s.add(f)
    s.add(neg)
    r = s.check()
    ctx.budget.solver_s += time.time() - t0
    ctx.budget.queries += 1
    if r == z3.unsat:
        return "proved", None, "z3 (MBQI)"
    if r == z3.sat:
        return "failed", s.model(), "z3 (MBQI)"
    return "unknown", m, "z3"


def smt2_of(ctx, goal):
    s = z3.Solver()
    for f in base_axioms() + ctx.axioms + ctx.pc:
        s.add(f)
    s.add(z3.Not(to_z3(goal, B)))
    return s.to_smt2()


def read_model(g, m):
    """Values of the recorded inputs in a model."""
    out = {}
    if m is None:
        return {n: v for n, k, v in g.record if k == "pick"}

    def num(t):
        v = m.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            f = v.as_fraction()
            return float(f)
        if z3.is_algebraic_value(v):
            return float(v.approx(10).as_fraction())
        return None
    for n, kind, p in g.record:
        if kind == "pick":
            out[n] = p
        elif kind in ("int", "real"):
            out[n] = num(p)
        elif kind == "dmdict":
            continue
        elif kind == "dm":
            f, size = p
            k = size if isinstance(size, int) else num(size)
            if k is None or k > 8:
                continue
            out[n] = [num(f(z3.IntVal(i))) for i in range(k)]
    return out


def watched(g, call, ex):
    seen, out = set(), []

    def add(label, o):
        if isinstance(o, ip.Obj) and id(o) not in seen:
            seen.add(id(o))
            out.append((label, o))
    add("self", unwrap(call.obj))
    for k, a in enumerate(call.args):
        add("arg%d" % k, unwrap(a))
        if isinstance(a, list):
            for q, b in enumerate(a):
                add("arg%d[%d]" % (k, q), unwrap(b))
        if isinstance(a, ip.PyList) and a.items() is not None:
            for q, b in enumerate(a.items()):
                add("arg%d[%d]" % (k, q), unwrap(b))
    for k, a in call.kwargs.items():
        add(k, unwrap(a))
    for k, o in call.extra.items():
        add(k, unwrap(o))
    return out


def prove_contract(c, budget_s=None, dump=None):
    """Runs every path of the function on symbolic inputs. Returns (obligations, info)."""
    budget = Budget(budget_s or c.budget)
    obs = []
    info = {"paths": 0, "inlined": set(), "assumed": set(), "by_contract": set(), "normal_paths": 0, "raise_paths": 0}
    stack = [[]]
    t0 = time.time()
    while stack:
        prefix = stack.pop()
        ctx = Ctx(prefix, budget)
        it = ip.Interp(ctx, BY_FUNC, c.target)
        it.roots = []
        path = info["paths"]
        info["paths"] += 1
        name = lambda what: "%s/path%d/%s" % (c.id, path, what)
        g = SymG(it)

        def discharge(what, goal):
            s0 = budget.solver_s
            st, m, be = prove(ctx, goal)
            vals = None
            if st != "proved":
                vals = read_model(g, m)
                if dump is not None:
                    dump(name(what), ctx, goal)
            elif dump is not None and be.startswith("z3"):
                dump(name(what), ctx, goal)
            det = "" if st == "proved" else str(z3.simplify(to_z3(goal, B)))[:1500]
            obs.append(Obligation(name(what), st, det, ctx.taint if st != "proved" else (), vals, be, round(budget.solver_s - s0, 4)))
            return st
        try:
            if info["paths"] > 1500:
                raise Unsupported("more than 1500 paths")
            call = c.inputs(g)
            S = SymS(it)
            a = bind_sym(it, c, call)
            it.inlined.clear()
            ex = c.spec(S, a)
            pre = [(lbl, o, {k: freeze(v) for k, v in o.attrs.items()}) for lbl, o in watched(g, call, ex)]
            pre_args = [("the given %s" % k, unwrap(v), freeze(unwrap(v))) for k, v in list(enumerate(call.args)) + list(call.kwargs.items()) + list(call.extra.items())
                        if isinstance(unwrap(v), ip.PyDict)]
            mat_args = [("the given %s" % k, unwrap(v)) for k, v in list(enumerate(call.args)) + list(call.kwargs.items()) + list(call.extra.items()) if isinstance(unwrap(v), Mat)]
            pre_watch = [(p, freeze(it.getattr(unwrap(resolve(a, p)[0]), resolve(a, p)[1]))) for p in ex.watch]
            ctx.spec_done = True
            outcome = None
            it.frames = []
            it.mutated = []
            it.inlined.clear()
            try:
                if c.body is not None:
                    res = c.body(SymR(it), a)
                else:
                    f = target_func(it, c, call)
                    args = [unwrap(x) for x in call.args]
                    kw = {k: unwrap(v) for k, v in call.kwargs.items()}
                    res = it.call(f, args, kw)
                outcome = ("normal", res)
            except PyExc as e:
                outcome = ("raise", e)
            # is the path possible at all?
            if ctx.check() == z3.unsat:
                raise Infeasible()
            if outcome[0] == "raise":
                info["raise_paths"] += 1
                e = outcome[1]
                ok = [to_z3(cond, B) for exc, cond in ex.raises if it.exc_match(e.cls, exc)]
                nm = getattr(e.cls, "__name__", getattr(e.cls, "name", "?"))
                discharge("raises %s only when specified (%s)" % (nm, e.note), z3.Or(*ok) if ok else z3.BoolVal(False))
                for lbl, o, old in pre:
                    for k, v in old.items():
                        if k.startswith("_") or "%s.%s" % (lbl, k) in ex.frees or "raise:%s.%s" % (lbl, k) in ex.frees:
                            continue
                        for w, goal in val_goals(it, o.attrs.get(k), v, "after the exception %s.%s unchanged" % (lbl, k)):
                            if goal is not True:
                                discharge(w, goal)
                for p, v in pre_watch:
                    o, attr = resolve(a, p)
                    for w, goal in val_goals(it, it.getattr(unwrap(o), attr), v, "after the exception %s unchanged" % p):
                        discharge(w, goal)
            else:
                info["normal_paths"] += 1
                res = outcome[1]
                bad = [to_z3(cond, B) for exc, cond in ex.raises]
                if bad:
                    discharge("rejects what must be rejected", z3.Not(z3.Or(*bad)))
                touched = set()
                for p, v in ex.effects.items():
                    o, attr = resolve(a, p)
                    o = unwrap(o)
                    touched.add((id(o), attr))
                    got = it.getattr(o, attr)
                    for w, goal in val_goals(it, got, v(res) if callable(v) else v, p):
                        discharge(w, goal)
                for lbl, o, old in pre:
                    for k, v in old.items():
                        if k.startswith("_") or (id(o), k) in touched or "%s.%s" % (lbl, k) in ex.frees or "%s.*" % lbl in ex.frees:
                            continue
                        for w, goal in val_goals(it, o.attrs.get(k), v, "frame %s.%s" % (lbl, k)):
                            if goal is True:
                                continue
                            discharge(w, goal)
                for p, v in pre_watch:
                    o, attr = resolve(a, p)
                    if (id(unwrap(o)), attr) not in touched:
                        for w, goal in val_goals(it, it.getattr(unwrap(o), attr), v, "frame %s" % p):
                            discharge(w, goal)
                for w0, v in mat_args:
                    now = v
                    for x, y in it.mutated:
                        if x is now:
                            now = y
                    pre_args.append((w0, now, v))
                for w0, now, v in pre_args:
                    for w, goal in val_goals(it, now, v, "frame " + w0):
                        if goal is not True:
                            discharge(w, goal)
                if ex.check_result and ex.result is not ANY:
                    for w, goal in val_goals(it, res, ex.result, "result"):
                        discharge(w, goal)
                if ex.post is not None:
                    for w, goal in ex.post(S, a, wrap(it, res)):
                        discharge("post " + w, goal)
        except Infeasible:
            info["paths"] -= 1
        except (Unsupported, PyExc) as e:
            if isinstance(e, PyExc) and ctx.check() == z3.unsat:
                info["paths"] -= 1
                stack.extend(ctx.pending)
                continue
            obs.append(Obligation(name("reach"), "unsupported", "%s: %s" % (type(e).__name__, e), ctx.taint,
                                  read_model(g, None)))
            if "time budget" in str(e):
                break
        except z3.Z3Exception as e:
            obs.append(Obligation(name("reach"), "unsupported", "z3: %s" % traceback.format_exc()[-1500:], ctx.taint))
        except RecursionError as e:
            obs.append(Obligation(name("reach"), "unsupported", "recursion", ctx.taint))
        except Exception as e:      # engine defect: never a verdict
            obs.append(Obligation(name("reach"), "unsupported", "engine: %s" % traceback.format_exc()[-1500:], ctx.taint))
        info["inlined"] |= it.inlined
        info["assumed"] |= it.externals_used
        info["by_contract"] |= it.used_contracts
        stack.extend(ctx.pending)
    info["solver_s"] = round(budget.solver_s, 3)
    info["queries"] = budget.queries
    info["wall_s"] = round(time.time() - t0, 3)
    if not any(o.status in ("unsupported",) for o in obs) and not obs:
        obs.append(Obligation(c.id + "/vacuous", "unsupported", "no obligation was generated"))
    return obs, info


def target_func(it, c, call):
    mod, _, q = c.target.partition(":")
    parts = q.split(".")
    if call.obj is not None and len(parts) == 2:
        return it.getattr(unwrap(call.obj), parts[1])
    v = it.import_name(mod, parts[0])
    for p in parts[1:]:
        v = it.getattr(v, p)
    return v


def bind_sym(it, c, call):
    ns = {}
    try:
        f = target_func(it, c, call) if c.body is None else None
    except PyExc as e:
        raise Unsupported("target not found: %s" % e)
    if isinstance(f, (ip.RepoFunc, ip.Bound)):
        func = f.func if isinstance(f, ip.Bound) else f
        env = ip.Env(None, func.module, func)
        args = [unwrap(x) for x in call.args]
        if isinstance(f, ip.Bound):
            args = [f.obj] + args
        it.bind(func.node.args, args, {k: unwrap(v) for k, v in call.kwargs.items()}, env, func.qualname, ip.Env(None, func.module))
        ns = {k: wrap(it, v) for k, v in env.vars.items()}
    ns["self"] = call.obj
    ns.update({k: (wrap(it, v) if isinstance(v, ip.Obj) else v) for k, v in call.extra.items()})
    return NS(ns)


# ------------------------------------------------------------------------------------------------ concrete side
def _ca():
    import casadi
    return casadi


def to_cas(v):
    ca = _ca()
    if isinstance(v, (ca.MX, ca.SX, ca.DM)):
        return v
    return ca.DM(v)


def vecs(v):
    ca = _ca()
    v = to_cas(v)
    return ca.vec(v)


class ConS:
    symbolic = False
    inf = float("inf")

    def mat(self, v):
        ca = _ca()
        if isinstance(v, (list, tuple)):
            if all(isinstance(x, (int, float)) for x in v):
                return ca.DM(list(v))
            return ca.vertcat(*v)
        return to_cas(v)

    def n(self, v):
        if isinstance(v, (list, tuple)):
            return len(v)
        return self.mat(v).numel()

    def rows(self, v):
        return self.mat(v).size1()

    def cat(self, *vs):
        ca = _ca()
        ms = [self.mat(v) for v in vs]
        return ca.vertcat(*[m for m in ms if m.numel() > 0]) if any(m.numel() for m in ms) else ms[0]

    def full(self, c, n):
        ca = _ca()
        return ca.repmat(self.mat(c), n, 1) if n else ca.DM(0, 1)

    def fill(self, v, n):
        v = self.mat(v)
        return self.full(v, n) if v.numel() == 1 else v

    def at(self, v, i):
        ca = _ca()
        v = self.mat(v)
        if not -v.numel() <= i < v.numel():
            return 0.0
        e = ca.densify(v)[i] if isinstance(v, ca.DM) else v[i]
        return float(e) if isinstance(e, ca.DM) else e

    def at2(self, v, i, j):
        v = self.mat(v)
        return float(v[i, j]) if i < v.size1() and j < v.size2() else 0.0

    def elem(self, v, i):
        return self.at(v, i)

    def sl(self, v, a, b):
        return self.mat(v)[a:b] if b > a else _ca().DM(0, 1)

    def _s(self, x):
        ca = _ca()
        if isinstance(x, (ca.DM,)):
            return float(x)
        return x

    def eq(self, x, y):
        x, y = self._s(x), self._s(y)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return x == y
        return generic_eq(x, y)

    def ne(self, x, y):
        return not self.eq(x, y)

    def lt(self, x, y):
        return self._s(x) < self._s(y)

    def le(self, x, y):
        return self._s(x) <= self._s(y)

    def gt(self, x, y):
        return self._s(x) > self._s(y)

    def add(self, x, y):
        return x + y

    def sub(self, x, y):
        return x - y

    def mul(self, x, y):
        return x * y

    def div(self, x, y):
        return x / y

    def And(self, *cs):
        return all(cs)

    def Or(self, *cs):
        return any(cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def forall(self, n, f):
        return all(f(i) for i in range(n))

    def exists(self, n, f):
        return any(f(i) for i in range(n))

    def same(self, a, b):
        return generic_eq(a, b)

    def same_sym(self, v, i, w, j):
        ca = _ca()
        v, w = self.mat(v), self.mat(w)
        if type(v) is not type(w):
            return False
        return generic_eq(v[i], w[j])

    def depends(self, e, s):
        ca = _ca()
        e, s = self.mat(e), self.mat(s)
        if isinstance(e, ca.DM) or s.numel() == 0 or isinstance(s, ca.DM):
            return False
        if type(e) is not type(s):
            return False
        return depends_struct(e, s)

    def subst(self, e, old, new):
        ca = _ca()
        e, old, new = self.mat(e), self.mat(old), self.mat(new)
        if old.numel() == 0 or e.numel() == 0:
            return e
        if isinstance(e, ca.DM):
            return e
        if isinstance(e, ca.SX) and isinstance(new, ca.MX):
            return ca.Function("subst", [old], [e])(new)
        return subst_syms(e, old, new)

    def keep(self, v, cond):
        v = self.mat(v)
        return self.cat(*([v[i] for i in range(v.numel()) if cond(i)] or [v[0:0] if v.numel() else v]))

    def vmap(self, n, f, kind="DM"):
        return self.cat(*[f(i) for i in range(n)]) if n else _ca().DM(0, 1)

    def stack(self, n, f):
        return self.cat(*[f(i) for i in range(n)])

    def get(self, d, k):
        return d[k]

    def keys(self, d):
        return set(d)

    def is_same(self, a, b):
        return a is b

    def cols(self, v):
        return self.mat(v).shape[1]

    def ent(self, v, r, c):
        return float(self.mat(v)[r, c])

    def row(self, v):
        return self.mat(v).T

    def close(self, x, y):
        return abs(float(x) - float(y)) <= 1e-9 * (1 + abs(float(x)))

    def hcat(self, *vs):
        return _ca().horzcat(*[self.mat(v) for v in vs])

    def col(self, v, j):
        return self.mat(v)[:, j]

    def by_time(self, t, *ms):
        ca = _ca()
        ix = sorted(range(t.shape[1]), key=lambda q: float(t[q]))
        return tuple(ca.horzcat(*[m[:, q] for q in ix]) if ix else m for m in (t,) + ms)

    def rangedict(self, n, f):
        return {i: f(i) for i in range(n)}

    def empty(self, kind="DM"):
        return getattr(_ca(), kind)(0, 1)

    def seq(self, n, f):
        return [f(k) for k in range(n)]

    def join(self, *parts):
        return [x for p in parts for x in p]

    def is_none(self, v):
        return v is None

    def opt(self, cond, v):
        return v if cond else None

    def mtimes(self, a, b):
        return _ca().mtimes(to_cas(a), to_cas(b))

    def T(self, a):
        return to_cas(a).T

    def chol(self, a):
        return _ca().chol(to_cas(a))

    def solve(self, a, b):
        return _ca().solve(to_cas(a), to_cas(b))

    def inv(self, a):
        return _ca().inv(to_cas(a))

    def block(self, a, r0, r1, c0, c1):
        return self.mat(a)[r0:r1, c0:c1]

    def vec(self, a):
        return _ca().vec(_ca().densify(self.mat(a)))

    def near(self, a, b, scale=1.0):
        a, b = _ca().DM(a).full(), _ca().DM(b).full()
        return a.shape == b.shape and bool((abs(a - b) <= 1e-6 * (1 + scale)).all())

    def regular(self, a):
        import numpy
        a = _ca().DM(a).full()
        return a.size == 0 or bool(numpy.isfinite(a).all()) and numpy.linalg.cond(a) < 1e4

    def size(self, *vs):
        return max([float(abs(_ca().DM(v).full()).max()) for v in vs if _ca().DM(v).numel()] + [0.0])

    def quad(self, v, Q):
        return self.mtimes(self.mtimes(self.T(v), Q), v)

    def items(self, lst):
        return list(lst)

    def item(self, lst, j):
        return lst[j]

    def nodes(self, degree):
        return [float(v) for v in _ca().collocation_points(degree, "radau")]

    def frac(self, v):
        return float(v)

    def num(self, v):
        return float(v)

    def jac(self, e, x):
        return _ca().jacobian(self.mat(e), self.mat(x))

    def evaluate(self, f, *args):
        return f(*args)

    def apply(self, ins, e, args):
        return _ca().Function("apply", list(ins), [e])(*args)

    def comb(self, coeffs, vectors, n):
        ca = _ca()
        if n == 0:
            return ca.DM(0, 1)
        out = 0
        for c, v in zip(coeffs, vectors):
            out = out + c * self.mat(v)
        return out

    def match_rows(self, got, lb, ub, want, over=()):
        ca = _ca()
        got, lb, ub = self.mat(got), self.mat(lb), self.mat(ub)
        rows = [(self.mat(v), float(l), float(u)) for v, l, u in want]
        rows = [r for r in rows if r[0].numel()]
        n = sum(r[0].numel() for r in rows)
        out = [("number of constraints", got.numel() == n and lb.numel() == n and ub.numel() == n)]
        if not out[0][1] or n == 0:
            return out
        F = ca.Function("rows", list(over), [ca.vec(got), ca.vertcat(*[ca.MX(r[0]) for r in rows])])
        pts = []
        for seed in (5, 17, 31):
            rng = random.Random(seed)
            pts.append([o.full().ravel().tolist() for o in F(*[ca.DM([rng.uniform(0.3, 1.7) for _ in range(s.numel())]).reshape(s.shape) for s in over])])
        wl = [l for r, l, u in rows for _ in range(r.numel())]
        wu = [u for r, l, u in rows for _ in range(r.numel())]
        free = set(range(n))
        close = lambda a, b: a == b or abs(a - b) <= 1e-6 * (1 + abs(b))
        for i in range(n):
            l, u = float(lb[i]), float(ub[i])
            hit = None
            for w in free:
                for s in (1, -1):
                    L, U = (wl[w], wu[w]) if s > 0 else (-wu[w], -wl[w])
                    if close(l, L) and close(u, U) and all(close(p[0][i], s * p[1][w]) for p in pts):
                        hit = w
            out.append(("constraint %d" % i, hit is not None))
            free.discard(hit)
        return out

    def same_str(self, a, b):
        return a == b

    def eq_bool(self, a, b):
        return bool(a) == bool(b)


def base_syms(e):
    """Symbol primitives of an expression."""
    ca = _ca()
    return ca.symvar(e)


def depends_struct(e, s):
    """Does e structurally depend on an element of the symbol vector s (s may be slices of symbols)?"""
    ca = _ca()
    try:
        return bool(ca.depends_on(e, s))
    except RuntimeError:
        J = ca.jacobian(ca.vec(e), ca.veccat(*ca.symvar(e)))
        F = ca.Function("s", ca.symvar(s), [ca.vec(s)])
        raise


def subst_syms(e, old, new):
    ca = _ca()
    if new.numel() == 1 and old.numel() > 1:
        new = ca.repmat(new, old.numel(), 1)
    if isinstance(e, ca.SX):
        return ca.substitute(e, old, ca.densify(ca.SX(new)))
    return ca.substitute([e], [old], [ca.densify(ca.MX(new))])[0]


def generic_eq(a, b, tol=1e-8):
    """Same number of elements and same values under generic valuations of all the symbols."""
    ca = _ca()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return same_val(a, b)
    a, b = [ca.DM(list(v)) if isinstance(v, (list, tuple)) else v for v in (a, b)]
    a, b = to_cas(a), to_cas(b)
    if a.numel() != b.numel():
        return False
    if a.numel() == 0:
        return True
    if min(a.shape) > 1 and min(b.shape) > 1 and a.shape != b.shape:
        return False
    if isinstance(a, ca.DM) and isinstance(b, ca.DM):
        return dm_close(a, b, tol)
    if {type(a), type(b)} == {ca.SX, ca.MX}:
        if a.is_constant() and b.is_constant():
            return dm_close(ca.evalf(a), ca.evalf(b), tol)
        return False
    av, bv = ca.vec(ca.densify(a)), ca.vec(ca.densify(b))
    both = ca.vertcat(av, bv)
    syms = ca.symvar(both)
    F = ca.Function("cmp", syms, [both])
    n = a.numel()
    for seed in (11, 23):
        rng = random.Random(seed)
        vals = [ca.DM([rng.uniform(0.3, 1.7) for _ in range(s.numel())]).reshape(s.shape) for s in syms]
        out = F(*vals) if syms else F()["o0"]
        if not dm_close(out[:n], out[n:], 1e-7):
            return False
    return True


def dm_close(a, b, tol):
    import numpy as np
    x, y = np.array(a.full()).ravel(order="F"), np.array(b.full()).ravel(order="F")
    for p, q in zip(x, y):
        if p == q or (p != p and q != q):
            continue
        if p in (float("inf"), float("-inf")) or q in (float("inf"), float("-inf")) or p != p or q != q:
            return False
        if abs(p - q) > tol * max(1.0, abs(p), abs(q)):
            return False
    return True


def is_cas(v):
    ca = _ca()
    return isinstance(v, (ca.MX, ca.SX, ca.DM))


def same_val(got, want):
    import numpy as np
    if want is ANY:
        return True
    if got is want:
        return True
    if is_cas(got) or is_cas(want):
        if got is None or want is None or isinstance(got, (str, dict)) or isinstance(want, (str, dict)):
            return False
        try:
            return generic_eq(got, want)
        except NotImplementedError:
            return False
    if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
        return np.array_equal(np.asarray(got), np.asarray(want), equal_nan=True)
    if isinstance(want, bool) or isinstance(got, bool):
        return isinstance(got, (bool, np.bool_)) and isinstance(want, (bool, np.bool_)) and got == want
    if isinstance(got, (int, float)) and isinstance(want, (int, float)):
        return got == want or abs(got - want) <= 1e-9 * max(1, abs(got), abs(want)) or (got != got and want != want)
    if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
        return type(got) is type(want) and len(got) == len(want) and all(same_val(x, y) for x, y in zip(got, want))
    if isinstance(got, dict) and isinstance(want, dict):
        if len(got) != len(want):
            return False
        for k, v in want.items():
            if k not in got or not same_val(got[k], v):
                return False
        return True
    try:
        return bool(got == want)
    except Exception:
        return False


def freeze_con(v):
    ca = _ca()
    if isinstance(v, ca.DM):
        return ca.DM(v)
    if isinstance(v, (ca.MX, ca.SX)):
        return type(v)(v)
    if isinstance(v, list):
        return [freeze_con(x) if isinstance(x, ca.DM) else x for x in v]
    if isinstance(v, dict):
        return {k: freeze_con(x) if isinstance(x, ca.DM) else x for k, x in v.items()}
    if isinstance(v, set):
        return set(v)
    return v


_ALL = []


def import_all():
    """Every module of the package, so that a replaced name is replaced wherever it was imported."""
    if not _ALL:
        import pkgutil
        pkg = importlib.import_module("yaocptool")
        for m in pkgutil.walk_packages(pkg.__path__, "yaocptool."):
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
        _ALL.append(1)


class ConG:
    """Concrete inputs from a seed and, when replaying a counterexample, the values of the model."""
    symbolic = False

    def __init__(self, seed, values=None, big=False):
        self.seed = seed
        self.rng = random.Random(seed * 7919 + 13)
        self.values = values or {}
        self.S = ConS()
        self.trace = []
        self.big = big
        self.undo = []

    def _rec(self, name, v):
        self.trace.append((name, v if isinstance(v, (int, float, str, bool, list)) or v is None else str(v)))
        return v

    def _given(self, name):
        v = self.values.get(name)
        return v

    def upto(self, v, n):
        return min(n, v.numel())

    def size(self, name, lo=0, hi=4):
        v = self._given(name)
        if isinstance(v, int) and lo <= v <= 6:
            return self._rec(name, v)
        return self._rec(name, self.rng.randint(lo, hi + (3 if self.big else 0)))

    def index(self, name, n):
        v = self._given(name)
        if n <= 0:
            raise Skip()
        if isinstance(v, int) and 0 <= v < n:
            return self._rec(name, v)
        return self._rec(name, self.rng.randrange(n))

    def int(self, name, lo=-3, hi=4):
        v = self._given(name)
        if isinstance(v, int) and abs(v) < 10:
            return self._rec(name, v)
        return self._rec(name, self.rng.randint(lo, hi))

    def real(self, name, lo=None, hi=None):
        v = self._given(name)
        if isinstance(v, (int, float)) and (lo is None or v > lo) and abs(v) < 1e6:
            return self._rec(name, float(v))
        a, b = (lo if lo is not None else -3), (hi if hi is not None else (lo or 0) + 3)
        if lo is None and hi is None and self.rng.random() < 0.4:
            return self._rec(name, float(self.rng.choice([-1, 0, 1, 2])))
        return self._rec(name, round(self.rng.uniform(a, b), 3) or 0.125)

    def flag(self, name):
        v = self._given(name)
        return bool(self._rec(name, v if isinstance(v, int) else self.rng.randint(0, 1)))

    def pick(self, name, options):
        v = self._given(name)
        i = v if isinstance(v, int) and 0 <= v < len(options) else self.rng.randrange(len(options))
        self._rec(name, i)
        o = options[i]
        return o() if callable(o) and not isinstance(o, type) else o

    def dm(self, name, n, inf=True, zeros=False):
        ca = _ca()
        v = self._given(name)
        if isinstance(v, list) and len(v) == n and all(isinstance(x, (int, float)) for x in v):
            vals = [float(x) for x in v]
        else:
            vals = []
            for _ in range(n):
                r = self.rng.random()
                if inf and r < 0.08:
                    vals.append(float("inf"))
                elif inf and r < 0.16:
                    vals.append(float("-inf"))
                elif r < 0.5:
                    vals.append(float(self.rng.randint(-2, 2)))
                else:
                    vals.append(round(self.rng.uniform(-3, 3), 3))
        self._rec(name, vals)
        if zeros and n and 0.0 in vals and self.rng.random() < 0.5:
            self._rec(name + " stored without its zeros", True)
            return ca.sparsify(ca.DM(vals))
        return ca.DM(vals) if n else ca.DM(0, 1)

    def matrix(self, name, n, m):
        return _ca().DM([[round(self.rng.uniform(-3, 3), 3) for _ in range(m)] for _ in range(n)]) if n and m else _ca().DM(n, m)

    def covariance(self, name, n):
        b = self.matrix(name, n, n)
        return _ca().mtimes(b, b.T) * 0.1 + 0.5 * _ca().DM.eye(n)

    def dmdict(self, name, count, n):
        d = {i: self.dm("%s_%d" % (name, i), n) for i in range(count)}
        order = list(range(count))
        if self.rng.random() < 0.5:         # the order the entries were put in is arbitrary
            self.rng.shuffle(order)
        return {i: d[i] for i in order}

    def reals(self, name, n):
        v = self._given(name)
        if isinstance(v, list) and len(v) == n:
            return self._rec(name, [float(x) for x in v])
        return self._rec(name, [round(self.rng.uniform(-3, 3), 3) for _ in range(n)])

    def sym(self, name, n=1, kind="MX"):
        return getattr(_ca(), kind).sym(name, n)

    def select(self, name, v, m):
        if m > v.numel():
            raise Skip()
        ix = self.rng.sample(range(v.numel()), m)
        self._rec(name, ix)
        K = type(v)
        ca = _ca()
        return (ca.vertcat(*[v[i] for i in ix]) if m else K(0, 1)), (lambda i: ix[i])

    def permute(self, name, v):
        w, ix = self.select(name, v, v.numel())
        order = [ix(i) for i in range(v.numel())]
        f = lambda i: order[i]
        f.inv = lambda i: order.index(i)
        return w, f

    def expr(self, name, n, over=(), kind="MX", zeros=False):
        ca = _ca()
        K = getattr(ca, kind)
        atoms = []
        for v in over:
            if is_cas(v) and not isinstance(v, ca.DM):
                atoms += [v[i] for i in range(v.numel())]
        out = []
        for i in range(n):
            if zeros and self.rng.random() < 0.15:
                e = K(1, 1)                 # a zero that is not stored
            elif not atoms or self.rng.random() < 0.12:
                e = K(round(self.rng.uniform(-2, 2), 2))
            else:
                e = K(round(self.rng.uniform(-2, 2), 2))
                for _ in range(self.rng.randint(1, 3)):
                    x = self.rng.choice(atoms)
                    y = self.rng.choice(atoms)
                    c = round(self.rng.uniform(0.5, 2), 2)
                    e = e + self.rng.choice([lambda: c * x, lambda: c * x * y, lambda: ca.sin(x) * c, lambda: c * x - y])()
            out.append(e)
        return ca.vertcat(*out) if out else K(0, 1)

    def fexpr(self, name, n, over=(), kind="SX", zeros=False):
        return self.expr(name, n, over, kind, zeros)

    def track_symbols(self):
        pass

    def avoid(self, e, v):
        if e.numel() and v.numel() and depends_struct(e, v):
            raise Skip()

    def dep_expr(self, name, n, on, over=(), kind="MX"):
        e = self.expr(name, n, over, kind)
        k = self.rng.randrange(on.numel())
        return e + on[k] * round(self.rng.uniform(3, 4), 2)

    def relation(self, op, a, b):
        import operator
        K = _ca().MX
        return {"<=": operator.le, "<": operator.lt, "==": operator.eq, ">=": operator.ge, ">": operator.gt}[op](K(a), K(b))

    def list(self, items):
        return list(items)

    def dict(self, d):
        return dict(d)

    def str(self, name):
        return name

    def cls(self, path):
        mod, _, name = path.partition(":")
        return getattr(importlib.import_module(mod), name)

    def func(self, path):
        return self.cls(path)

    def get(self, mod, name):
        return getattr(importlib.import_module(mod), name)

    def new(self, path, *args, **kw):
        return self.cls(path)(*args, **kw)

    def put(self, o, **attrs):
        for k, v in attrs.items():
            setattr(o, k, v)
        return o

    def call(self, o, meth, *args, **kw):
        return getattr(o, meth)(*args, **kw)

    def assume(self, c):
        if not c:
            raise Skip()

    def stub(self, obj, name, result=None):
        rec = []

        def fn(*a, **k):
            rec.append((list(a), dict(k)))
            return result(*a, **k) if callable(result) else result
        object.__setattr__(obj, name, fn) if not hasattr(type(obj), "__slots__") else setattr(obj, name, fn)
        return rec


    def fun(self, name, ins, outs):
        return _ca().Function(name, list(ins), list(outs))

    def normals(self):
        import numpy
        rec = NS({"draws": []})

        def draw(mean, cov, *more):
            v = self.dm("draw%d" % len(rec.draws), len(mean), inf=False)
            rec.draws.append((list(mean), cov, v))
            return v.full().flatten()
        self.undo.append((numpy.random, "multivariate_normal", numpy.random.multivariate_normal))
        numpy.random.multivariate_normal = draw
        return rec

    def copy(self, v):
        return type(v)(v)

    def recorder(self, results, stop=10 ** 9):
        rec = NS({"calls": []})

        def fn(*a, **k):
            now = lambda v: _ca().DM(v) if isinstance(v, _ca().DM) else v
            rec.calls.append(([now(v) for v in a], {q: now(v) for q, v in k.items()}))
            if len(rec.calls) > stop:
                raise KeyboardInterrupt("stopped")
            return results[min(len(rec.calls), len(results)) - 1]
        rec.fn = fn
        return rec

    def solvers(self, *names):
        ca = _ca()
        rec = NS({"built": [], "calls": []})
        rec.solution = {k: self.dm("solution_" + k, self.rng.randint(0, 3)) for k in ("x", "f", "g", "lam_x", "lam_g", "lam_p")}
        rec.stats = {"success": True}

        def factory(kind):
            def make(name, plugin, problem, opts=None, *a):
                i = len(rec.built)
                rec.built.append((kind, dict(problem), dict(opts or {})))

                class Solver:
                    def __call__(self, **k):
                        rec.calls.append((i, dict(k)))
                        return dict(rec.solution)

                    def stats(self):
                        return dict(rec.stats)
                return Solver()
            return make
        for n in names:
            self.patch_casadi(n, factory(n))
        return rec

    def rootfinders(self):
        rec = NS({"built": [], "calls": []})

        def make(name, plugin, f, opts=None):
            i = len(rec.built)
            rec.built.append((plugin, f, dict(opts or {})))

            def run(x):
                r = self.dm("root%d" % len(rec.calls), f.numel_in(0), inf=False)
                rec.calls.append((i, x, r))
                return r
            return run
        self.patch_casadi("rootfinder", make)
        return rec

    def replace(self, module, name, origin, rec):
        import importlib
        m = importlib.import_module(module)
        self.undo.append((m, name, getattr(m, name)))
        setattr(m, name, rec.fn)

    def integrators(self, smooth=False):
        ca = _ca()
        rec = NS({"steps": [], "built": 0})
        import random
        seed = self.rng.random()

        def make(name, plugin, dae, *rest):
            rest = list(rest)
            opts = dict(rest.pop()) if rest and isinstance(rest[-1], dict) else {}
            t0, tf = (rest[0], rest[1]) if len(rest) == 2 else (opts.pop("t0", 0), opts.pop("tf", 1))
            rec.built += 1
            dae = dict(dae)

            def step(args):
                q = len(rec.steps)
                kinds = [w for w in args.values() if isinstance(w, (ca.MX, ca.SX))]
                new = (lambda name, n: type(kinds[0]).sym(name, n)) if kinds else (lambda name, n: self.dm(name, n, inf=False))
                if smooth and not kinds:
                    # an ordinary function of where it starts
                    def new(name, n, x0=ca.densify(ca.DM(args["x0"])).full().flatten()):
                        r = random.Random("%s %s %s" % (seed, name[:2], n))
                        return ca.DM([sum((r.uniform(-0.3, 0.3) + (0.8 if i == j else 0)) * v + r.uniform(-0.05, 0.05) * v * v for j, v in enumerate(x0)) + r.uniform(-1, 1) for i in range(n)]) if n else ca.DM(0, 1)
                xf = new("xf%d" % q, dae["x"].numel())
                zf = new("zf%d" % q, dae["z"].numel()) if "z" in dae else ca.DM(0, 1)
                rec.steps.append(NS(dict(plugin=plugin, dae=dae, t0=t0, tf=tf, options=opts, args=args, xf=xf, zf=zf)))
                return {"xf": xf, "zf": zf, "qf": ca.DM(0, 1)}

            class Integrator:
                def __call__(self, **k):
                    return step(dict(k))

                def call(self, d):
                    return step(dict(d))

                def map(self, n, kind=None):
                    def run(**k):
                        cols = [step({q: ca.densify(ca.DM(v)[:, c]) if isinstance(v, ca.DM) else v[:, c] for q, v in k.items()})["xf"] for c in range(n)]
                        return {"xf": ca.horzcat(*cols)}
                    return run
            return Integrator()
        self.patch_casadi("integrator", make)
        return rec

    def patch_casadi(self, name, fn):
        """Replace casadi.<name> wherever the package imported it, until the end of this execution."""
        import sys
        import_all()
        orig = getattr(_ca(), name)
        for m in [_ca()] + [m for k, m in list(sys.modules.items()) if k.split(".")[0] == "yaocptool" and m is not None]:
            for k, v in list(vars(m).items()):
                if v is orig:
                    self.undo.append((m, k, v))
                    setattr(m, k, fn)

    def cleanup(self):
        while self.undo:
            m, k, v = self.undo.pop()
            setattr(m, k, v)


class ConR:
    def __init__(self):
        self.S = ConS()

    def call(self, o, meth, *args, **kw):
        return getattr(o, meth)(*args, **kw)

    def refused(self, o, meth, *args, **kw):
        try:
            getattr(o, meth)(*args, **kw)
        except (Exception, KeyboardInterrupt):
            return True
        return False

    def list(self, items):
        return list(items)

    def fn(self, f, *args, **kw):
        return f(*args, **kw)

    def attr(self, o, name):
        return getattr(o, name)

    def put(self, o, **attrs):
        for k, v in attrs.items():
            setattr(o, k, v)

    def eq(self, x, y):
        return x == y

    def setitem(self, d, k, v):
        d[k] = v

    def items(self, d):
        return dict(d)


def con_target(c, call):
    mod, _, q = c.target.partition(":")
    parts = q.split(".")
    if call.obj is not None and len(parts) == 2:
        return getattr(call.obj, parts[1])
    v = importlib.import_module(mod)
    for p in parts:
        v = getattr(v, p)
    return v


def con_bind(c, call):
    import inspect
    ns = {}
    if c.body is None:
        f = con_target(c, call)
        ba = inspect.signature(f).bind(*call.args, **call.kwargs)
        ba.apply_defaults()
        ns = dict(ba.arguments)
        for n, p in inspect.signature(f).parameters.items():
            if p.kind == p.VAR_KEYWORD:
                ns.setdefault(n, {})
    ns["self"] = call.obj
    ns.update(call.extra)
    return NS(ns)


def is_obj(o):
    return type(o).__module__.split(".")[0] == "yaocptool" and hasattr(o, "__dict__")


def con_watched(call):
    seen, out = set(), []

    def add(lbl, o):
        if is_obj(o) and not isinstance(o, type) and id(o) not in seen:
            seen.add(id(o))
            out.append((lbl, o))
    add("self", call.obj)
    for k, a in enumerate(call.args):
        add("arg%d" % k, a)
        if isinstance(a, (list, tuple)):
            for q, b in enumerate(a):
                add("arg%d[%d]" % (k, q), b)
    for k, a in call.kwargs.items():
        add(k, a)
    for k, a in call.extra.items():
        add(k, a)
    return out


def run_concrete(c, seed, values=None, big=False):
    """One execution of the real function under its contract. Returns None or a description of the failure."""
    g = ConG(seed, values, big)
    try:
        return run_with(c, g)
    finally:
        g.cleanup()


def run_with(c, g):
    if c.spec is None:
        try:
            c.inputs(g)
        except Skip:
            return "skip", g.trace
        except Violation as e:
            return str(e), g.trace
        except (MemoryError, ImportError):
            raise
        except Exception as e:
            if type(e).__name__ == "Timeout":
                raise
            return "unexpected %s: %s" % (type(e).__name__, traceback.format_exc()[-900:]), g.trace
        return None, g.trace
    S = g.S
    try:
        call = c.inputs(g)
    except Skip:
        return "skip", g.trace
    a = con_bind(c, call)
    ex = c.spec(S, a)
    pre = [(lbl, o, {k: freeze_con(v) for k, v in vars(o).items()}) for lbl, o in con_watched(call)]
    pre_args = [(k, v, freeze_con(v)) for k, v in list(enumerate(call.args)) + list(call.kwargs.items()) + list(call.extra.items())
                if isinstance(v, (dict, _ca().DM))]
    pre_watch = [(p, freeze_con(getattr(*resolve(a, p)))) for p in ex.watch]
    raised = None
    res = None
    try:
        if c.body is not None:
            res = c.body(ConR(), a)
        else:
            res = con_target(c, call)(*call.args, **call.kwargs)
    except Skip:
        return "skip", g.trace
    except Exception as e:
        raised = e
    must = [(exc, cond) for exc, cond in ex.raises if cond]
    if raised is not None:
        allowed = [exc for exc, cond in must if isinstance(raised, exc)]
        if not allowed:
            tb = traceback.extract_tb(raised.__traceback__)
            return "unexpected %s: %s (%s)" % (type(raised).__name__, str(raised)[:300], tb[-1]), g.trace
        for lbl, o, old in pre:
            for k, v in old.items():
                if k.startswith("_") or "%s.%s" % (lbl, k) in ex.frees or "raise:%s.%s" % (lbl, k) in ex.frees:
                    continue
                if not same_val(vars(o).get(k), v):
                    return "%s.%s changed although the call raised: %s -> %s" % (lbl, k, v, vars(o).get(k)), g.trace
        for p, v in pre_watch:
            if not same_val(getattr(*resolve(a, p)), v):
                return "%s changed although the call raised: %s -> %s" % (p, v, getattr(*resolve(a, p))), g.trace
        return None, g.trace
    if must:
        return "must raise %s but returned" % must[0][0].__name__, g.trace
    touched = set()
    for p, v in ex.effects.items():
        o, attr = resolve(a, p)
        touched.add((id(o), attr))
        want = v(res) if callable(v) else v
        got = getattr(o, attr)
        if not same_val(got, want):
            return "%s is %s, specified %s" % (p, got, want), g.trace
    for lbl, o, old in pre:
        for k, v in old.items():
            if k.startswith("_") or (id(o), k) in touched or "%s.%s" % (lbl, k) in ex.frees or "%s.*" % lbl in ex.frees:
                continue
            if not same_val(vars(o).get(k), v):
                return "frame: %s.%s changed: %s -> %s" % (lbl, k, v, vars(o).get(k)), g.trace
    for p, v in pre_watch:
        o, attr = resolve(a, p)
        if (id(o), attr) not in touched and not same_val(getattr(o, attr), v):
            return "frame: %s changed: %s -> %s" % (p, v, getattr(o, attr)), g.trace
    for k, now, v in pre_args:
        if (list(now) != list(v) or not all(same_val(now[q], v[q]) for q in v)) if isinstance(v, dict) else not same_val(now, v):
            return "frame: the given %s changed: %s -> %s" % (k, v, now), g.trace
    if ex.check_result and ex.result is not ANY and not same_val(res, ex.result):
        return "result is %s, specified %s" % (res, ex.result), g.trace
    if ex.post is not None:
        try:
            for w, cond in ex.post(S, a, res):
                if not cond:
                    return "post-condition fails: %s" % w, g.trace
        except Skip:
            return "skip", g.trace
        except Exception as e:
            return "post-condition cannot be evaluated on the result: %s: %s" % (type(e).__name__, traceback.format_exc()[-400:]), g.trace
    return None, g.trace
