"""Values of the symbolic domain, path context and proof obligations.

Matrix elements are z3 Reals: the value of the casadi scalar expression under one arbitrary, fixed,
generic valuation of all symbols.  Vectors are (rows, cols, el(r, c)) with integer terms for the sizes,
so every statement is about all sizes and all values at once.
"""
import time
import z3

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()

INF = z3.Const("INF", R)
V = z3.Function("V", I, R)            # value of symbol number s
VINV = z3.Function("VINV", R, I)
D = z3.Function("D", R, I, B)         # D(e, s): expression e depends on symbol s
SID = z3.Function("SID", I, I, I, I, I)  # symbol created by owner o, in loop iterations (j1, j2), element i
OWN = z3.Function("OWN", I, I)
POS = z3.Function("POS", I, I)
J1 = z3.Function("J1", I, I)
J2 = z3.Function("J2", I, I)
SUB = z3.Function("SUB", R, I, R)     # SUB(e, h): e after the simultaneous substitution h
MUL = z3.Function("MUL", R, R, R)
DIV = z3.Function("DIV", R, R, R)
INV = z3.Function("INV", R, R)
NAMEOF = z3.Function("NAMEOF", I, I)
ODEOF = z3.Function("ODEOF", I, R)


class Unsupported(Exception):
    """The construct is outside the engine's reach: the obligation is undecided, never proved."""


class Infeasible(Exception):
    pass


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, cls, args=(), note=""):
        super().__init__(getattr(cls, "__name__", str(cls)), note)
        self.cls = cls
        self.eargs = args
        self.note = note


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def simp(t):
    """Simplify; return a Python number when the term is a literal."""
    if not is_z3(t):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def to_z3(v, sort=None):
    if is_z3(v):
        if sort is R and v.sort() == I:
            return z3.ToReal(v)
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v) if sort is not R and sort is not I else (z3.RealVal(int(v)) if sort is R else z3.IntVal(int(v)))
    if isinstance(v, int):
        return z3.RealVal(v) if sort is R else z3.IntVal(v)
    if isinstance(v, float):
        if v == float("inf"):
            return INF
        if v == float("-inf"):
            return -INF
        if v != v:
            raise Unsupported("nan literal")
        return z3.RealVal(repr(v)) if "e" not in repr(v) else z3.RealVal(str(_frac(v)))
    raise Unsupported("cannot convert %r to a term" % (v,))


def _frac(v):
    from fractions import Fraction
    return Fraction(v)


def add_int(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simp(to_z3(a, I) + to_z3(b, I))


def sub_int(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return simp(to_z3(a, I) - to_z3(b, I))


def mul_int(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return simp(to_z3(a, I) * to_z3(b, I))


def is_num(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


MAX_MONOMIALS = 40
_ORDER = {}


def order_key(t):
    k = _ORDER.get(t.get_id())
    if k is None or not k[0].eq(t):
        k = _ORDER[t.get_id()] = (t, t.sexpr())
    return k[1]


def polynomial(t):
    """t as {monomial: coefficient}, a monomial being a sorted tuple of opaque factors; sums, products by numbers and
    the product symbol are read, everything else is opaque."""
    from fractions import Fraction
    if is_num(t):
        c = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
        return {(): c} if c else {}
    if z3.is_add(t):
        out = {}
        for a in t.children():
            for m, c in polynomial(a).items():
                out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c}
    if z3.is_sub(t):
        out = dict(polynomial(t.arg(0)))
        for a in t.children()[1:]:
            for m, c in polynomial(a).items():
                out[m] = out.get(m, 0) - c
        return {m: c for m, c in out.items() if c}
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return {m: -c for m, c in polynomial(t.arg(0)).items()}
    if z3.is_mul(t) and t.num_args() == 2 and is_num(t.arg(0)):
        c = t.arg(0).as_fraction()
        return {m: c * d for m, d in polynomial(t.arg(1)).items() if c * d}
    if z3.is_app(t) and t.decl().eq(MUL):
        return poly_mul(polynomial(t.arg(0)), polynomial(t.arg(1)))
    return {(K(t),): Fraction(1)}


class K:
    """A factor, compared by its text (structure)."""
    __slots__ = ("t", "k")

    def __init__(self, t):
        self.t, self.k = t, order_key(t)

    def __eq__(self, o):
        return self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __lt__(self, o):
        return self.k < o.k


def poly_mul(p, q):
    out = {}
    for m, c in p.items():
        for n, d in q.items():
            f = tuple(sorted(m + n))
            out[f] = out.get(f, 0) + c * d
    return {m: c for m, c in out.items() if c}


def from_poly(p):
    terms = []
    for m in sorted(p):
        t = None
        for f in m:
            t = f.t if t is None else MUL(t, f.t)
        c = z3.RealVal(str(p[m]))
        terms.append(c if t is None else t if p[m] == 1 else c * t)
    if not terms:
        return z3.RealVal(0)
    return z3.simplify(z3.Sum(terms) if len(terms) > 1 else terms[0])


def real_mul(a, b, ctx=None):
    a, b = z3.simplify(a), z3.simplify(b)
    if is_num(a) or is_num(b):
        return z3.simplify(a * b)
    for u, v in ((a, b), (b, a)):
        if z3.is_app_of(u, z3.Z3_OP_ITE) and is_num(u.arg(1)) and is_num(u.arg(2)):
            return z3.simplify(z3.If(u.arg(0), u.arg(1) * v, u.arg(2) * v))
    if ctx is not None:
        ctx.taint.add("nonlinear-product")
    p, q = polynomial(a), polynomial(b)
    if len(p) * len(q) > MAX_MONOMIALS:
        p, q = ({(K(a),): 1}, {(K(b),): 1})
    return from_poly(poly_mul(p, q))


def real_div(a, b, ctx=None):
    """a / b = a * (1/b); quotients are those of reals, with divisors taken to be non-zero."""
    b = z3.simplify(b)
    if is_num(b) and b.as_fraction() != 0:
        return z3.simplify(a / b)
    if ctx is not None:
        ctx.taint.add("nonlinear-quotient")
    p = polynomial(b)
    lead = min(p) if p else None
    if lead is None:
        return DIV(a, b)
    c = p[lead]
    if len(p) == 1:
        inv = {(): 1}
        for f in lead:
            inv = poly_mul(inv, {(K(INV(f.t)),): 1})
        inv = from_poly({m: d / c for m, d in inv.items()})
    else:
        inv = from_poly({(K(INV(from_poly({m: d / c for m, d in p.items()}))),): 1 / c})
    a = z3.simplify(a)
    if is_num(a):
        return z3.simplify(a * inv)
    return real_mul(a, inv, ctx)


# ---------------------------------------------------------------------------------------------
class Mat:
    """A casadi matrix. kind is 'DM', 'MX' or 'SX'."""

    __slots__ = ("kind", "rows", "cols", "el", "sid", "segs", "boolean", "const", "op", "deps", "tag", "names", "store")

    def __init__(self, kind, rows, cols, el, sid=None, segs=None, boolean=False, const=None, op=None, deps=None, tag=None):
        self.kind = kind
        self.rows = simp(rows)
        self.cols = simp(cols)
        self.el = el
        self.sid = sid
        self.segs = segs        # list of column-vector segments (Mat or Blocks) when built by concatenation
        self.boolean = boolean
        self.const = (kind == "DM") if const is None else const
        self.op = op
        self.deps = deps
        self.tag = tag
        self.names = None
        self.store = None       # (matrix before, Block or Scatter) when made by an assignment to entries

    @property
    def numel(self):
        return mul_int(self.rows, self.cols)

    def at(self, i):
        """Element number i in column-major order."""
        if isinstance(self.cols, int) and self.cols == 1:
            return self.el(i, 0)
        if isinstance(self.rows, int) and self.rows == 1:
            return self.el(0, i)
        if isinstance(self.rows, int) and self.rows == 0:
            return z3.RealVal(0)
        if isinstance(self.rows, int) and isinstance(i, int):
            return self.el(i % self.rows, i // self.rows)
        if isinstance(self.cols, int):
            # columns are consecutive blocks of `rows`
            t = None
            for c in reversed(range(self.cols)):
                e = self.el(sub_int(i, mul_int(c, self.rows)), c)
                t = e if t is None else z3.If(to_z3(i, I) < to_z3(mul_int(c + 1, self.rows), I), e, t)
            if t is None:
                return z3.RealVal(0)
            return t
        raise Unsupported("linear index of a matrix with symbolic rows and columns")

    def sid_at(self, i):
        return self.sid(i)

    def is_vec(self):
        return isinstance(self.cols, int) and self.cols == 1

    def __repr__(self):
        return "<%s %sx%s>" % (self.kind, self.rows, self.cols)


def clone(m):
    """The same value, another object."""
    n = Mat(m.kind, m.rows, m.cols, m.el, m.sid, m.segs, m.boolean, m.const, m.op, m.deps, m.tag)
    n.names = m.names
    return n


class Block:
    """Entries start, ..., start + count - 1 set to fn(0), ..."""

    def __init__(self, start, count, fn):
        self.start, self.count, self.fn = start, simp(count), fn


class Scatter:
    """For j = 0, ..., count - 1 in this order: entry idx(j) set to fn(j)"""

    def __init__(self, count, idx, fn):
        self.count, self.idx, self.fn = simp(count), idx, fn


class Blocks:
    """count consecutive column blocks, block(k) is a column Mat."""

    def __init__(self, count, block):
        self.count = simp(count)
        self.block = block


KIND_ORDER = {"DM": 0, "SX": 1, "MX": 2}


def join_kind(*kinds):
    ks = set(kinds)
    if "SX" in ks and "MX" in ks:
        raise PyExc(NotImplementedError, note="mixed SX and MX")
    return max(ks, key=lambda k: KIND_ORDER[k]) if ks else "DM"


# ---------------------------------------------------------------------------------------------
class Seg:
    pass


class One(Seg):
    def __init__(self, value):
        self.value = value


class MapSeg(Seg):
    """items fn(0), ..., fn(n-1)"""
    all_keys = False        # they are the keys 0..n-1 of a dictionary, in the order of the dictionary

    def __init__(self, n, fn):
        self.n = simp(n)
        self.fn = fn


class FilterSeg(Seg):
    """items fn(k) for those k in 0..n-1 with cond(k)"""

    def __init__(self, n, cond, fn):
        self.n = simp(n)
        self.cond = cond
        self.fn = fn


class ConcatSeg(Seg):
    """for k in 0..n-1 the items of the SymList inner(k)"""

    def __init__(self, n, inner):
        self.n = simp(n)
        self.inner = inner


class SymList:
    """A Python list of symbolic length: a concatenation of segments. Mutable (identity matters)."""

    def __init__(self, segs=()):
        self.segs = list(segs)
        self.frozen_iter = False

    def copy(self):
        return SymList(self.segs)


class SymDict:
    """{key: fn(key)} for key in range(n), plus nothing else."""

    def __init__(self, n, fn):
        self.n = simp(n)
        self.fn = fn
        self.order = None       # None: in ascending order; else the key at each position


class OpaqueStr:
    """A string whose content is irrelevant."""

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return "<str %s>" % (self.key,)


class SymRange:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step


# ---------------------------------------------------------------------------------------------
class Ctx:
    """One path of one contract."""

    def __init__(self, prefix, budget):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []
        self.pending = []
        self.budget = budget            # shared between the paths of a contract
        self.pc = []
        self.axioms = []
        self.numbers = set()            # the functions whose values are numbers (not expressions in symbols)
        self.generic = set()            # arbitrary functions of the symbols they are applied to
        self.handles = []               # (id term, [Mat, ...], tag)
        self.counter = {}
        self.taint = set()
        self.symowner = 0
        self.loop_idx = []
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", 1000)
        self.solver.set("auto_config", False)
        self.solver.set("mbqi", False)      # E-matching only: a query that is not refuted answers quickly
        for a in base_axioms():
            self.solver.add(a)
        self.in_sub = 0
        self.trace = []
        self.events = []

    # -- naming
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return "%s!%d" % (base, n)

    def fresh_int(self, base="n"):
        return z3.Int(self.fresh_name(base))

    def fresh_bool(self, base="b"):
        return z3.Bool(self.fresh_name(base))

    def fresh_real(self, base="r"):
        return z3.Real(self.fresh_name(base))

    def fresh_fun(self, base, *sorts):
        return z3.Function(self.fresh_name(base), *sorts)

    def new_owner(self):
        self.symowner += 1
        return self.symowner

    # -- facts
    def assume(self, f):
        f = simp(f)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.pc.append(f)
        self.solver.add(f)

    def axiom(self, f):
        self.axioms.append(f)
        self.solver.add(f)

    def check(self, *fs):
        self.budget.check_time()
        t0 = time.time()
        self.solver.push()
        try:
            for f in fs:
                self.solver.add(f)
            return self.solver.check()
        finally:
            self.solver.pop()
            self.budget.solver_s += time.time() - t0
            self.budget.queries += 1

    def must(self, f):
        """True when f is entailed by the path."""
        f = simp(f)
        if isinstance(f, bool):
            return f
        return self.check(z3.Not(f)) == z3.unsat

    def branch(self, cond, label=""):
        """Python truth of a symbolic condition, forking the path when both values are possible."""
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(v)
            self.assume(cond if v else z3.Not(cond))
            return v
        can_t = self.check(cond) != z3.unsat
        can_f = self.check(z3.Not(cond)) != z3.unsat
        if can_t and can_f:
            v = True
            self.pending.append(self.taken + [False])
        elif can_t:
            v = True
        elif can_f:
            v = False
        else:
            raise Infeasible()
        self.pos += 1
        self.prefix.append(v)
        self.taken.append(v)
        self.assume(cond if v else z3.Not(cond))
        return v

    def choose(self, n, label=""):
        """A nondeterministic choice among n alternatives, all explored."""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = 0
            for alt in range(n - 1, 0, -1):
                self.pending.append(self.taken + [alt])
            self.prefix.append(0)
        self.pos += 1
        self.taken.append(v)
        return v

    # -- reified vectors
    def handle(self, *mats, tag=""):
        """An integer standing for a tuple of vectors; equal vectors give equal handles."""
        key_terms = []
        idx = z3.Int("CANON_IDX")
        for m in mats:
            key_terms.append(to_z3(m.numel, I))
            key_terms.append(to_z3(m.rows, I))
            e = z3.simplify(to_z3(m.at(0), R) if m.numel == 1 else m.at(idx))
            key_terms.append(e)
        free = [k for k in self.loop_idx if any(occurs(k, t) for t in key_terms)]
        canon = [z3.Int("CANON_K%d" % i) for i in range(len(free))]
        subst = list(zip(free, canon))
        keyt = [z3.substitute(t, *subst) if subst else t for t in key_terms]
        key = tag + "|" + "|".join(t.sexpr() for t in map(z3.simplify, keyt))
        for (k, fn, ms, nfree) in self.handles:
            if k == key:
                return fn(*free) if nfree else fn
        if free:
            fn = z3.Function(self.fresh_name("H" + tag), *([I] * len(free) + [I]))
            self.handles.append((key, fn, None, len(free)))
            return fn(*free)
        h = self.fresh_int("H" + tag)
        # extensionality against every earlier handle of the same arity
        for (k, h2, ms, nfree) in self.handles:
            if nfree or ms is None or len(ms) != len(mats) or not k.startswith(tag + "|"):
                continue
            d = self.fresh_int("d")
            diff = []
            for a, b in zip(mats, ms):
                diff.append(to_z3(a.numel, I) != to_z3(b.numel, I))
                diff.append(z3.And(d >= 0, d < to_z3(a.numel, I), a.at(d) != b.at(d)))
            self.axiom(z3.Or(h == h2, *diff))
        self.handles.append((key, h, list(mats), 0))
        return h


def occurs(k, t):
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def consts_of(t, acc=None):
    acc = {} if acc is None else acc
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.decl().name()] = x
        else:
            todo.extend(x.children())
    return acc


_AX = None


def base_axioms():
    global _AX
    if _AX is None:
        s, t, o, i, a, b = z3.Ints("ax_s ax_t ax_o ax_i ax_a ax_b")
        e = z3.Real("ax_e")
        _AX = [
            z3.ForAll([s, t], D(V(s), t) == (s == t), patterns=[D(V(s), t)]),
            z3.ForAll([s], VINV(V(s)) == s, patterns=[V(s)]),
            z3.ForAll([o, a, b, i], z3.And(OWN(SID(o, a, b, i)) == o, POS(SID(o, a, b, i)) == i,
                                           J1(SID(o, a, b, i)) == a, J2(SID(o, a, b, i)) == b),
                      patterns=[SID(o, a, b, i)]),
            INF > 0,
        ]
    return _AX


class Budget:
    def __init__(self, seconds):
        self.t0 = time.process_time()
        self.seconds = seconds
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0

    def check_time(self):
        if time.process_time() - self.t0 > self.seconds:
            raise Unsupported("time budget of %ss exhausted" % self.seconds)
