"""Assumed contracts of casadi (trusted; compared with the real casadi by selftest/diff_models.py)."""
import z3

from .terms import *
from .terms import _frac


def empty(kind, rows=0, cols=0):
    return Mat(kind, rows, cols, lambda r, c: z3.RealVal(0), sid=(lambda i: z3.IntVal(-1)), segs=[], const=True)


def scalar(kind, term, sid=None, **kw):
    term = to_z3(term, R)
    return Mat(kind, 1, 1, lambda r, c: term, sid=sid, **kw)


def full(kind, rows, cols, value):
    value = to_z3(value, R)
    return Mat(kind, rows, cols, lambda r, c: value, const=True)


def is_number(v):
    if isinstance(v, (int, float)):
        return True
    return is_z3(v) and v.sort() in (I, R)


def as_mat(ctx, v, kind=None):
    if isinstance(v, Mat):
        return v
    if is_number(v):
        return scalar("DM" if kind is None else kind, v, const=True)
    if isinstance(v, (list, tuple)):
        if all(is_number(x) for x in v):
            return list_to_dm(v)
        if all(isinstance(x, (list, tuple)) for x in v) and v:
            raise Unsupported("nested list to matrix")
        raise PyExc(NotImplementedError, note="list of matrices")
    if isinstance(v, SymList):
        return symlist_to_vec(ctx, v)
    raise Unsupported("as_mat of %r" % (v,))


def list_to_dm(v, kind="DM"):
    ts = [to_z3(x, R) for x in v]
    if not ts:
        return empty(kind, 0, 1)
    return vcat_elems(kind, ts)


def vcat_elems(kind, ts):
    def el(r, c):
        if isinstance(r, int):
            return ts[r] if 0 <= r < len(ts) else z3.RealVal(0)
        t = ts[-1]
        for j in reversed(range(len(ts) - 1)):
            t = z3.If(r == j, ts[j], t)
        return t
    return Mat(kind, len(ts), 1, el)


def symlist_to_vec(ctx, sl):
    """vertcat(*sl) for a list of scalars or column vectors."""
    segs = []
    for s in sl.segs:
        if isinstance(s, One):
            segs.append(as_mat(ctx, s.value))
        elif isinstance(s, MapSeg):
            segs.append(map_to_vec(ctx, s))
        elif isinstance(s, FilterSeg):
            segs.append(filter_to_vec(ctx, s))
        elif isinstance(s, ConcatSeg):
            segs.append(map_to_vec(ctx, MapSeg(s.n, lambda k, s=s: symlist_to_vec(ctx, s.inner(k)))))
        else:
            raise Unsupported("vertcat of a nested symbolic list")
    if not segs:
        return empty("DM", 0, 1)
    return vertcat(ctx, segs)


def map_to_vec(ctx, s):
    k = ctx.fresh_int("mk")
    probe = as_mat(ctx, s.fn(k))
    if not (isinstance(probe.cols, int) and probe.cols == 1):
        raise Unsupported("concatenation of matrices")
    if isinstance(probe.rows, int) and probe.rows == 1:
        def el(r, c):
            return as_mat(ctx, s.fn(r)).el(0, 0)
        sid = None
        if probe.sid is not None:
            sid = lambda i: as_mat(ctx, s.fn(i)).sid(0)
        return Mat(probe.kind, s.n, 1, el, sid=sid, const=probe.const)
    if occurs(k, to_z3(probe.rows, I)):
        raise Unsupported("blocks of varying size")
    b = probe.rows

    def el(r, c):
        rr = to_z3(r, I)
        q, m = rr / to_z3(b, I), rr % to_z3(b, I)
        return as_mat(ctx, s.fn(simp(q))).el(simp(m), 0)
    return Mat(probe.kind, mul_int(s.n, b), 1, el, segs=[Blocks(s.n, lambda k: as_mat(ctx, s.fn(k)))], const=probe.const)


_FILT = {}


def filter_sel(ctx, n, cond):
    """(count, sel): sel(j) is the j-th k in 0..n-1 with cond(k). Same cond gives the same functions."""
    idx = z3.Int("CANON_IDX")
    body = z3.simplify(to_z3(cond(idx), B))
    free = [k for k in ctx.loop_idx if occurs(k, body) or (is_z3(n) and occurs(k, n))]
    if free:
        raise Unsupported("filter inside a symbolic loop used as a vector")
    key = "filter|%s|%s" % (to_z3(n, I).sexpr(), body.sexpr())
    tab = ctx.__dict__.setdefault("filters", {})
    if key in tab:
        return tab[key]
    nn = to_z3(n, I)
    for (n2, body2, *same) in ctx.__dict__.get("filter_list", []):
        d = ctx.fresh_int("fd")
        if not ctx.loop_idx and ctx.__dict__.get("valid") and z3.simplify(nn == to_z3(n2, I)).eq(z3.BoolVal(True)) and ctx.valid(
                z3.Implies(z3.And(d >= 0, d < nn), z3.substitute(body, (idx, d)) == z3.substitute(body2, (idx, d)))):
            tab[key] = tuple(same)
            return tab[key]
    cnt = ctx.fresh_int("cnt")
    sel = ctx.fresh_fun("sel", I, I)
    rank = ctx.fresh_fun("rank", I, I)
    j, k = z3.Ints("fj fk")
    nn = to_z3(n, I)
    ck = z3.substitute(body, (idx, k))
    ctx.axiom(z3.And(cnt >= 0, cnt <= z3.If(nn > 0, nn, z3.IntVal(0))))
    ctx.axiom(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < cnt),
                                        z3.And(sel(j) >= 0, sel(j) < nn, z3.substitute(body, (idx, sel(j))),
                                               rank(sel(j)) == j)), patterns=[sel(j)]))
    ctx.axiom(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nn, ck),
                                        z3.And(rank(k) >= 0, rank(k) < cnt, sel(rank(k)) == k)), patterns=[rank(k)]))
    # strictly increasing
    ctx.axiom(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < cnt), sel(j) < sel(k)),
                        patterns=[z3.MultiPattern(sel(j), sel(k))]))
    # extensionality: filters with equivalent conditions are the same selection
    for (n2, body2, cnt2, sel2, _) in ctx.__dict__.setdefault("filter_list", []):
        d = ctx.fresh_int("fd")
        same_n = nn == to_z3(n2, I)
        w = z3.And(d >= 0, d < nn, z3.substitute(body, (idx, d)) != z3.substitute(body2, (idx, d)))
        q = z3.Int("fq")
        ctx.axiom(z3.Or(z3.Not(same_n), w,
                        z3.And(cnt == cnt2, z3.ForAll([q], sel(q) == sel2(q), patterns=[sel(q)]),
                               z3.ForAll([q], sel(q) == sel2(q), patterns=[sel2(q)]))))
    ctx.__dict__.setdefault("inverses", []).append((sel, rank))
    ctx.__dict__["filter_list"].append((n, body, cnt, sel, rank))
    tab[key] = (cnt, sel, rank)
    return tab[key]


def sort_perm(ctx, n, key, reverse=False):
    """f: the k-th smallest of 0..n-1 by key, equal keys in their order. The same keys give the same function."""
    idx = z3.Int("CANON_IDX")
    body = z3.simplify(to_z3(key(idx), R))
    if any(occurs(k, body) or (is_z3(n) and occurs(k, n)) for k in ctx.loop_idx):
        raise Unsupported("sorting inside a symbolic loop")
    nn = to_z3(n, I)
    for n2, body2, rev2, f in ctx.__dict__.setdefault("sorts", []):
        d = ctx.fresh_int("sd")
        if rev2 == reverse and z3.simplify(nn == to_z3(n2, I)).eq(z3.BoolVal(True)) and (body.eq(body2) or ctx.valid(
                z3.Implies(z3.And(d >= 0, d < nn), z3.substitute(body, (idx, d)) == z3.substitute(body2, (idx, d))))):
            return f
    f, b = ctx.fresh_fun("sorted", I, I), ctx.fresh_fun("sorted_inv", I, I)
    i, j = z3.Ints("si sj")
    rng = lambda x: z3.And(x >= 0, x < nn)
    at = lambda x: z3.substitute(body, (idx, x))
    ctx.axiom(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(f(i)), b(f(i)) == i)), patterns=[f(i)]))
    ctx.axiom(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(b(i)), f(b(i)) == i)), patterns=[b(i)]))
    less = (lambda x, y: x > y) if reverse else (lambda x, y: x < y)
    ctx.axiom(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < nn),
                                           z3.Or(less(at(f(i)), at(f(j))), z3.And(at(f(i)) == at(f(j)), f(i) < f(j)))),
                        patterns=[z3.MultiPattern(f(i), f(j))]))
    ctx.__dict__.setdefault("inverses", []).append((f, b))
    ctx.sorts.append((n, body, reverse, f))
    return f


def filter_to_vec(ctx, s):
    probe = as_mat(ctx, s.fn(z3.Int("CANON_IDX")))
    if not (probe.numel == 1):
        raise Unsupported("filtered blocks")
    cnt, sel, rank = filter_sel(ctx, s.n, s.cond)
    sid = (lambda i: as_mat(ctx, s.fn(sel(to_z3(i, I)))).sid(0)) if probe.sid is not None else None
    return Mat(probe.kind, cnt, 1, lambda r, c: as_mat(ctx, s.fn(sel(to_z3(r, I)))).el(0, 0), sid=sid, const=probe.const)


# ---------------------------------------------------------------------------------------------
def vertcat(ctx, mats):
    mats = [as_mat(ctx, m) for m in mats]
    if not mats:
        return empty("DM", 0, 1)
    kind = join_kind(*[m.kind for m in mats])
    if len(mats) == 1:
        return mats[0]
    const = all(m.const is True for m in mats) if all(isinstance(m.const, bool) for m in mats) else z3.And(*[to_z3(m.const, B) for m in mats])
    live = [m for m in mats if not (m.rows == 0 and m.cols == 0 and isinstance(m.rows, int))]
    if not live:
        return Mat(kind, 0, 0, lambda r, c: z3.RealVal(0), sid=lambda i: z3.IntVal(-1), segs=[], const=const)
    c0 = live[0].cols
    for q in range(1, len(live)):
        m = live[q]
        if same_int(c0, m.cols) or not (isinstance(c0, int) and isinstance(m.cols, int)) and ctx.branch(to_z3(c0, I) == to_z3(m.cols, I), "vertcat"):
            if not isinstance(c0, int):
                c0 = m.cols
            continue
        # matrices without columns are filled with zeros
        if zero_int(ctx, m.cols):
            live[q] = full(m.kind, m.rows, c0, 0)
        elif zero_int(ctx, c0):
            for j in range(q):
                live[j] = full(live[j].kind, live[j].rows, m.cols, 0)
            c0 = m.cols
        else:
            raise PyExc(RuntimeError, note="vertcat dimension mismatch")
    live = [m for m in live if not (isinstance(m.rows, int) and m.rows == 0)] or live[:1]
    segs = []
    for m in live:
        if c0 == 1 and m.segs is not None:
            segs.extend(m.segs)
        else:
            segs.append(m)
    offs = [0]
    for m in live:
        offs.append(add_int(offs[-1], m.rows))

    def pick(r, get, one=0):
        if len(live) == 1:
            return get(live[0], r)
        if isinstance(r, int) and all(isinstance(o, int) for o in offs):
            for m, o, e in zip(live, offs, offs[1:]):
                if o <= r < e:
                    return get(m, r - o)
            return get(live[-1], r - offs[-2])
        t = None
        for m, o, e in reversed(list(zip(live, offs, offs[1:]))):
            v = get(m, 0 if one == 0 and isinstance(m.rows, int) and m.rows == 1 else sub_int(r, o))
            if t is None:
                t = v
            else:
                cond = simp(to_z3(r, I) < to_z3(e, I))
                t = v if cond is True else (t if cond is False else z3.If(cond, v, t))
        return t

    sid = None
    none = lambda r: z3.IntVal(-1)
    if c0 == 1 and all(m.sid is not None or (isinstance(m.rows, int) and m.rows == 0) for m in live):
        sid = lambda i: pick(i, lambda m, r: (m.sid or none)(r), None)
    elif isinstance(c0, int) and all(m.sid is not None and isinstance(m.rows, int) for m in live):
        def sid(i):
            if not isinstance(i, int):
                raise Unsupported("a symbol of a matrix of symbols, at an unknown position")
            return pick(i % offs[-1], lambda m, r: m.sid(r + (i // offs[-1]) * m.rows), None)
    return Mat(kind, offs[-1], c0, lambda r, c: pick(r, lambda m, rr: m.el(rr, c)), sid=sid,
               segs=segs if c0 == 1 else None, const=const)


def same_int(a, b):
    return a == b if isinstance(a, int) and isinstance(b, int) else is_z3(a) and is_z3(b) and a.eq(b)


def zero_int(ctx, n):
    return n == 0 if isinstance(n, int) else ctx.branch(to_z3(n, I) == 0, "empty")


def horzcat(ctx, mats):
    mats = [as_mat(ctx, m) for m in mats]
    if not mats:
        return empty("DM", 1, 0)
    if len(mats) == 1:
        return mats[0]
    return transpose(vertcat(ctx, [transpose(m) for m in mats]))


def transpose(m):
    if m.rows == 1 and m.cols == 1:
        return m
    return Mat(m.kind, m.cols, m.rows, lambda r, c: m.el(c, r), sid=m.sid if m.is_vec() or m.rows == 1 else None,
               boolean=m.boolean, const=m.const)


def vec(ctx, m):
    m = as_mat(ctx, m)
    if m.is_vec():
        return m
    if isinstance(m.rows, int) and m.rows == 1:
        return transpose(m)
    if isinstance(m.cols, int):
        return vertcat(ctx, [column(m, c) for c in range(m.cols)]) if m.cols else empty(m.kind, 0, 1)
    return map_to_vec(ctx, MapSeg(m.cols, lambda k: column(m, k)))


def column(m, c):
    sid = (lambda i: m.sid(add_int(i, mul_int(c, m.rows)))) if m.sid is not None else None
    return Mat(m.kind, m.rows, 1, lambda r, cc: m.el(r, c), sid=sid, const=m.const)


def repmat(ctx, v, n, mcols=1):
    m = as_mat(ctx, v)
    if isinstance(n, tuple):
        n, mcols = n
    if isinstance(mcols, int) and mcols != 1:
        return horzcat(ctx, [repmat(ctx, m, n) for _ in range(mcols)])
    if not isinstance(mcols, int):
        if n == 1 and m.cols == 1:
            return Mat(m.kind, m.rows, mcols, lambda r, c: m.el(r, 0), const=m.const)
        raise Unsupported("repmat with symbolic columns")
    if m.rows == 1:
        return Mat(m.kind, n, m.cols, lambda r, c: m.el(0, c), const=m.const)
    if isinstance(n, int):
        return vertcat(ctx, [m] * n) if n != 0 else empty(m.kind, 0, m.cols)
    if m.is_vec():
        # rows unknown: the common guard is numel == 1
        if ctx.must(to_z3(m.rows, I) == 1):
            return Mat(m.kind, n, 1, lambda r, c: m.el(0, c), const=m.const)
        return map_to_vec(ctx, MapSeg(n, lambda k: m))
    raise Unsupported("repmat")


def norm_index(ctx, i, n):
    """Python/casadi index -> 0-based; raises RuntimeError in the program when out of range."""
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        if not (-n <= i < n):
            raise PyExc(RuntimeError, note="index out of bounds")
        return i if i >= 0 else i + n
    ii, nn = to_z3(i, I), to_z3(n, I)
    if not ctx.branch(z3.And(ii >= -nn, ii < nn), "index"):
        raise PyExc(RuntimeError, note="index out of bounds")
    if isinstance(i, int):
        return i if i >= 0 else add_int(n, i)
    if ctx.must(ii >= 0):
        return i
    return simp(z3.If(ii >= 0, ii, ii + nn))


def index(ctx, m, idx):
    if isinstance(idx, tuple):
        return index2(ctx, m, idx)
    if isinstance(idx, slice):
        return slice_vec(ctx, m, idx)
    if isinstance(idx, (list, SymList)):
        return take(ctx, m, idx)
    if isinstance(idx, Mat):
        if idx.numel == 1:
            raise Unsupported("matrix index")
        raise Unsupported("matrix index")
    i = norm_index(ctx, idx, m.numel)
    e = m.at(i)
    sid = (lambda _, s=m.sid: s(i)) if m.sid is not None else None
    return Mat(m.kind, 1, 1, lambda r, c: e, sid=sid, boolean=m.boolean, const=m.const)


def apply_store(ctx, base, st, kind, const):
    """The vector base with entries set."""
    if isinstance(st, Block):
        a, n = to_z3(st.start, I), to_z3(st.count, I)
        if ctx.must(z3.And(a == 0, n == to_z3(base.rows, I))):
            el = lambda r, c: to_z3(st.fn(r), R)
        else:
            el = lambda r, c: z3.If(z3.And(to_z3(r, I) >= a, to_z3(r, I) < a + n), to_z3(st.fn(sub_int(r, st.start)), R), base.el(r, c))
    else:
        inv = ctx.fresh_fun("lastset", I, I)
        j = z3.Int("js")
        n = to_z3(st.count, I)
        ij = to_z3(st.idx(j), I)
        inr = lambda x: z3.And(x >= 0, x < n)
        pat = [ij] if z3.is_app(ij) and ij.decl().kind() == z3.Z3_OP_UNINTERPRETED and ij.num_args() else None
        body = z3.Implies(inr(j), z3.And(inr(inv(ij)), to_z3(st.idx(inv(ij)), I) == ij, j <= inv(ij)))
        ctx.axiom(z3.ForAll([j], body, patterns=pat) if pat else z3.ForAll([j], body))

        def el(r, c):
            q = inv(to_z3(r, I))
            return z3.If(z3.And(inr(q), to_z3(st.idx(q), I) == to_z3(r, I)), to_z3(st.fn(q), R), base.el(r, c))
    out = Mat(kind, base.rows, base.cols, el, const=const)
    out.store = (base, st)
    return out


def store(ctx, m, k, v):
    """m with m[k] = v done."""
    if isinstance(k, tuple):
        return store2(ctx, m, k, v)
    if not m.is_vec():
        raise Unsupported("assignment to entries of a matrix")
    v = as_mat(ctx, v)
    if m.kind != v.kind and join_kind(m.kind, v.kind) != m.kind:
        raise PyExc(NotImplementedError, note="assignment of %s to an entry of %s" % (v.kind, m.kind))
    const = m.kind == "DM" or (m.const is True and v.const is True)
    one = v.numel == 1
    if isinstance(k, (int,)) or (is_z3(k) and k.sort() == I):
        if not one:
            raise Unsupported("assignment of a vector to an entry")
        i = norm_index(ctx, k, m.rows)
        e = v.el(0, 0)
        return apply_store(ctx, m, Block(i, 1, lambda j: e), m.kind, const)
    if isinstance(k, (list, SymList)):
        if isinstance(k, list):
            ids = [norm_index(ctx, i, m.rows) for i in k]
            n = len(ids)
            if not ids:
                idx = None
            else:
                idx = lambda j: ids[j] if isinstance(j, int) else _pick(ids, j)
        else:
            segs = k.segs
            if len(segs) != 1 or not isinstance(segs[0], MapSeg):
                raise Unsupported("assignment to entries given by a list")
            n, idx = segs[0].n, segs[0].fn
            q = ctx.fresh_int("si")
            if not ctx.valid(z3.Implies(z3.And(q >= 0, q < to_z3(n, I)), z3.And(to_z3(idx(q), I) >= 0, to_z3(idx(q), I) < to_z3(m.rows, I)))):
                raise Unsupported("assignment to entries that may be out of bounds")
        if not ctx.branch(to_z3(v.numel, I) == to_z3(n, I), "assignment size"):
            if not one:
                raise PyExc(RuntimeError, note="dimension mismatch")
            e = v.el(0, 0)
            val = lambda j: e
        else:
            val = lambda j: v.at(j)
        if idx is None:
            return clone(m)
        return apply_store(ctx, m, Scatter(n, idx, val), m.kind, const)
    raise Unsupported("assignment to entries given by %r" % (type(k).__name__,))


def _pick(ids, j):
    t = to_z3(ids[-1], I)
    for q in reversed(range(len(ids) - 1)):
        t = z3.If(j == q, to_z3(ids[q], I), t)
    return t


def index2(ctx, m, idx):
    ri, ci = idx
    if isinstance(ri, slice) and ri == slice(None) and not isinstance(ci, (slice, list, SymList)):
        c = norm_index(ctx, ci, m.cols)
        return column(m, c)
    if isinstance(ci, slice) and ci == slice(None) and not isinstance(ri, (slice, list, SymList)):
        r0 = norm_index(ctx, ri, m.rows)
        return Mat(m.kind, 1, m.cols, lambda r, c: m.el(r0, c), const=m.const)
    if isinstance(ri, slice) and ri == slice(None) and isinstance(ci, slice) and ci.step is None:
        a, b = slice_bounds(ctx, ci, m.cols)
        return Mat(m.kind, m.rows, simp(to_z3(b, I) - to_z3(a, I)), lambda r, c: m.el(r, add_int(c, a)), const=m.const)
    if not isinstance(ri, (slice, list, SymList)) and not isinstance(ci, (slice, list, SymList)):
        r0, c0 = norm_index(ctx, ri, m.rows), norm_index(ctx, ci, m.cols)
        e = m.el(r0, c0)
        return Mat(m.kind, 1, 1, lambda r, c: e, const=m.const)
    a, b = rows_or_cols(ctx, ri, m.rows)
    c0, d = rows_or_cols(ctx, ci, m.cols)
    return Mat(m.kind, sub_int(b, a), sub_int(d, c0), lambda r, c: m.el(add_int(r, a), add_int(c, c0)), const=m.const)


def rows_or_cols(ctx, k, n):
    """(first, last + 1) of a slice or a number."""
    if isinstance(k, slice):
        return slice_bounds(ctx, k, n)
    if isinstance(k, (list, SymList, Mat)):
        raise Unsupported("two-dimensional index %r" % (k,))
    i = norm_index(ctx, k, n)
    return i, add_int(i, 1)


def store2(ctx, m, idx, v):
    """m with the block m[idx] set to v (a matrix of its size, or a number)."""
    a, b = rows_or_cols(ctx, idx[0], m.rows)
    c0, d = rows_or_cols(ctx, idx[1], m.cols)
    v = as_mat(ctx, v)
    if m.kind != v.kind and join_kind(m.kind, v.kind) != m.kind:
        raise PyExc(NotImplementedError, note="assignment of %s to an entry of %s" % (v.kind, m.kind))
    if not (v.rows == 1 and v.cols == 1) and not ctx.branch(z3.And(to_z3(v.rows, I) == to_z3(sub_int(b, a), I), to_z3(v.cols, I) == to_z3(sub_int(d, c0), I)), "assignment size"):
        raise PyExc(RuntimeError, note="dimension mismatch")
    one = v.rows == 1 and v.cols == 1
    old = m.el

    def el(r, c):
        rr, cc = to_z3(r, I), to_z3(c, I)
        here = z3.And(rr >= to_z3(a, I), rr < to_z3(b, I), cc >= to_z3(c0, I), cc < to_z3(d, I))
        here = z3.simplify(here)
        if z3.is_false(here):
            return old(r, c)
        new = v.el(0, 0) if one else v.el(sub_int(r, a), sub_int(c, c0))
        return new if z3.is_true(here) else z3.If(here, new, old(r, c))
    return Mat(m.kind, m.rows, m.cols, el, const=m.kind == "DM" or m.const is True and v.const is True)


def slice_bounds(ctx, s, n):
    if s.step is not None and s.step != 1:
        raise Unsupported("slice step")
    a, b = (0 if s.start is None else s.start), (n if s.stop is None else s.stop)
    if isinstance(a, int) and a < 0:
        a = add_int(n, a)
    if isinstance(b, int) and b < 0:
        b = add_int(n, b)
    aa, bb, nn = to_z3(a, I), to_z3(b, I), to_z3(n, I)
    if not ctx.branch(z3.And(bb <= nn, aa >= 0), "slice"):
        raise PyExc(RuntimeError, note="slice out of bounds")
    if ctx.must(aa <= bb):
        return a, b
    return a, simp(z3.If(aa <= bb, bb, aa))


def slice_vec(ctx, m, s):
    if not m.is_vec():
        if m.cols == 0 and m.rows == 0:
            return empty(m.kind, 0, 1)
        raise Unsupported("linear slice of a matrix")
    a, b = slice_bounds(ctx, s, m.rows)
    sid = (lambda i, f=m.sid: f(add_int(i, a))) if m.sid is not None else None
    return Mat(m.kind, sub_int(b, a), 1, lambda r, c: m.el(add_int(r, a), c), sid=sid, const=m.const)


def take(ctx, m, idx):
    """m[[i0, i1, ...]]; the 1x0 shape casadi gives for a 1x1 vector and an empty list is read as 0x1."""
    if isinstance(idx, list):
        ids = [norm_index(ctx, i, m.numel) for i in idx]
        if not ids:
            return empty(m.kind, 0, 1)
        es = [m.at(i) for i in ids]
        out = vcat_elems(m.kind, es)
        out.const = m.const
        if m.sid is not None:
            ss = [to_z3(m.sid(i), I) for i in ids]

            def sid(i):
                if isinstance(i, int):
                    return ss[i]
                t = ss[-1]
                for j in reversed(range(len(ss) - 1)):
                    t = z3.If(i == j, ss[j], t)
                return t
            out.sid = sid
        return out
    vecs = []
    for s in idx.segs:
        if isinstance(s, One):
            vecs.append(index(ctx, m, s.value))
            continue
        if isinstance(s, (MapSeg, FilterSeg)):
            k = ctx.fresh_int("tk")
            rng = z3.And(k >= 0, k < to_z3(s.n, I))
            if isinstance(s, FilterSeg):
                rng = z3.And(rng, to_z3(s.cond(k), B))
            iv = to_z3(s.fn(k), I)
            ok = z3.And(iv >= 0, iv < to_z3(m.numel, I))
            if ctx.check(rng, z3.Not(ok)) != z3.unsat:
                raise Unsupported("selection with possibly out-of-range indices")

            def get(k, s=s):
                i = s.fn(k)
                return Mat(m.kind, 1, 1, lambda r, c: m.at(i), sid=(lambda _: m.sid(i)) if m.sid else None, const=m.const)
            s2 = MapSeg(s.n, get) if isinstance(s, MapSeg) else FilterSeg(s.n, s.cond, get)
            vecs.append(map_to_vec(ctx, s2) if isinstance(s2, MapSeg) else filter_to_vec(ctx, s2))
            continue
        raise Unsupported("selection by a nested list")
    if not vecs:
        return empty(m.kind, 0, 1)
    return vertcat(ctx, vecs)


# ---------------------------------------------------------------------------------------------
def same_shape(ctx, a, b):
    return z3.And(to_z3(a.rows, I) == to_z3(b.rows, I), to_z3(a.cols, I) == to_z3(b.cols, I))


def elementwise(ctx, a, b, f, boolean=False):
    a, b = as_mat(ctx, a), as_mat(ctx, b)
    kind = join_kind(a.kind, b.kind)
    const = a.const if a.const is b.const else z3.And(to_z3(a.const, B), to_z3(b.const, B))
    if a.rows == 1 and a.cols == 1 and isinstance(a.rows, int):
        x = a.el(0, 0)
        return Mat(kind, b.rows, b.cols, lambda r, c: f(x, b.el(r, c)), boolean=boolean, const=const)
    if b.rows == 1 and b.cols == 1 and isinstance(b.rows, int):
        y = b.el(0, 0)
        return Mat(kind, a.rows, a.cols, lambda r, c: f(a.el(r, c), y), boolean=boolean, const=const)
    if ctx.branch(same_shape(ctx, a, b), "shape"):
        rows = a.rows if isinstance(a.rows, int) else b.rows
        return Mat(kind, rows, a.cols, lambda r, c: f(a.el(r, c), b.el(r, c)), boolean=boolean, const=const)
    one_a = z3.And(to_z3(a.rows, I) == 1, to_z3(a.cols, I) == 1)
    one_b = z3.And(to_z3(b.rows, I) == 1, to_z3(b.cols, I) == 1)
    if ctx.branch(one_a, "scalar operand"):
        return elementwise(ctx, Mat(a.kind, 1, 1, a.el, const=a.const), b, f, boolean)
    if ctx.branch(one_b, "scalar operand"):
        return elementwise(ctx, a, Mat(b.kind, 1, 1, b.el, const=b.const), f, boolean)
    raise PyExc(RuntimeError, note="dimension mismatch")


UNARY = {}


def unary_uf(name):
    if name not in UNARY:
        UNARY[name] = z3.Function("UF_" + name, R, R)
    return UNARY[name]


POW = z3.Function("POW", R, R, R)


def arith(ctx, op, a, b):
    if op == "+":
        f = lambda x, y: x + y
    elif op == "-":
        f = lambda x, y: x - y
    elif op == "*":
        f = lambda x, y: real_mul(x, y, ctx)
    elif op == "/":
        f = lambda x, y: real_div(x, y, ctx)
    elif op == "**":
        def f(x, y):
            y = z3.simplify(y)
            if is_num(y) and y.as_fraction() == 1:
                return x
            if is_num(y) and y.as_fraction() == 2:
                return real_mul(x, x, ctx)
            ctx.taint.add("power")
            return POW(x, y)
    elif op in ("<", "<=", ">", ">=", "==", "!="):
        g = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y,
             "==": lambda x, y: x == y, "!=": lambda x, y: x != y}[op]
        m = elementwise(ctx, a, b, g, boolean=True)
        ma, mb = as_mat(ctx, a), as_mat(ctx, b)
        if m.kind != "DM":
            kind = {"<": "OP_LT", "<=": "OP_LE", ">": "OP_LT", ">=": "OP_LE", "==": "OP_EQ", "!=": "OP_NE"}[op]
            m.op = kind
            m.deps = (ma, mb) if op in ("<", "<=", "==", "!=") else (mb, ma)
        return m
    else:
        raise Unsupported("matrix operator " + op)
    return elementwise(ctx, a, b, f)


def neg(m):
    return Mat(m.kind, m.rows, m.cols, lambda r, c: -m.el(r, c), const=m.const)


# ---------------------------------------------------------------------------------------------
def depends_on(ctx, a, b):
    a, b = as_mat(ctx, a), as_mat(ctx, b)
    if a.kind == "DM" or b.kind == "DM":
        return False
    if b.sid is None:
        raise Unsupported("depends_on with a non-symbolic second argument")
    if a.rows == 0 or b.rows == 0:
        return False
    parts_a = [m for m in a.segs if isinstance(m, Mat)] if a.segs and all(isinstance(m, Mat) for m in a.segs) and len(a.segs) > 1 else None
    parts_b = [m for m in b.segs if isinstance(m, Mat)] if b.segs and all(isinstance(m, Mat) for m in b.segs) and len(b.segs) > 1 else None
    if parts_a or parts_b:
        out = []
        for x in parts_a or [a]:
            if x.const is True:
                continue
            for y in parts_b or [b]:
                if y.sid is None:
                    break
                r = depends_on(ctx, x, y)
                if r is True:
                    return True
                if r is not False:
                    out.append(r)
            else:
                continue
            break
        else:
            return simp(z3.Or(*out)) if out else False
    if a.const is True:
        return False
    if isinstance(a.numel, int) and isinstance(b.numel, int) and a.numel * b.numel <= 64 and a.is_vec() and b.is_vec() and not ctx.loop_idx:
        if contains_none(ctx, [to_z3(a.at(k), R) for k in range(a.numel)], [z3.simplify(to_z3(b.sid(k), I)) for k in range(b.numel)]):
            return False
    i, j = z3.Int(ctx.fresh_name("di")), z3.Int(ctx.fresh_name("dj"))
    conds = []
    lo_i = z3.And(i >= 0, i < to_z3(a.numel, I))
    lo_j = z3.And(j >= 0, j < to_z3(b.numel, I))
    ea = a.at(i) if not (a.numel == 1) else a.at(0)
    sb = b.sid(j) if not (b.numel == 1) else b.sid(0)
    body = D(ea, to_z3(sb, I))
    vs = []
    if not (a.numel == 1):
        vs.append(i)
        conds.append(lo_i)
    if not (b.numel == 1):
        vs.append(j)
        conds.append(lo_j)
    f = z3.And(*(conds + [body]))
    return simp(z3.Exists(vs, f) if vs else f)


def contains_none(ctx, terms, sids):
    """Do the terms consist of numbers and of symbols other than those, joined by operations and arbitrary functions of their arguments?"""
    if not all(is_sid(s) for s in sids):
        return False
    todo, seen = [z3.simplify(t) for t in terms], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if is_num(e) or e.eq(INF):
            continue
        if not z3.is_app(e):
            return False
        name = e.decl().name()
        if e.decl().eq(V):
            s = z3.simplify(e.arg(0))
            if not is_sid(s) or not all(apart(s, q) for q in sids):
                return False
        elif name in ctx.generic:
            todo += e.children()[1:]
        elif z3.is_add(e) or z3.is_sub(e) or z3.is_mul(e) or z3.is_app_of(e, z3.Z3_OP_UMINUS) or e.decl().eq(MUL) or e.decl().eq(INV) or name in ["UF_" + q for q in UNARY]:
            todo += e.children()
        elif not (name in ctx.numbers or z3.is_app_of(e, z3.Z3_OP_TO_REAL)):
            return False
    return True


def is_equal(ctx, a, b, depth=0):
    """True only for structurally equal; symbols and numbers are decided exactly."""
    a, b = as_mat(ctx, a), as_mat(ctx, b)
    if {a.kind, b.kind} == {"SX", "MX"}:
        raise PyExc(NotImplementedError)
    if not (a.numel == 1 and b.numel == 1):
        if not ctx.branch(same_shape(ctx, a, b)):
            raise PyExc(RuntimeError, note="is_equal dimension mismatch")
        i = z3.Int(ctx.fresh_name("ei"))
        f = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < to_z3(a.numel, I)), a.at(i) == b.at(i)))
    else:
        f = a.at(0) == b.at(0)
    exact = (a.kind == "DM" and b.kind == "DM") or (a.sid is not None and b.sid is not None)
    if a.kind == "DM" and b.kind == "DM":
        return simp(f)
    if a.sid is not None and b.sid is not None:
        if a.numel == 1 and b.numel == 1:
            return simp(to_z3(a.sid(0), I) == to_z3(b.sid(0), I))
        return simp(f)
    if a.kind == "MX" or b.kind == "MX":
        # node identity: unknown for non-symbols
        t = ctx.fresh_bool("iseq")
        ctx.taint.add("node-identity")
        ctx.assume(z3.Implies(t, f))
        return t
    ctx.taint.add("sx-structural-equality")
    return simp(f)


def substitute(ctx, expr, old, new):
    expr, old, new = as_mat(ctx, expr), as_mat(ctx, old), as_mat(ctx, new)
    if isinstance(old.numel, int) and old.numel == 0:
        if isinstance(new.numel, int) and new.numel == 0 and "DM" != expr.kind:
            return expr
        raise Unsupported("substitute of nothing by something")
    if old.sid is None:
        raise Unsupported("substitute of a non-symbolic variable")
    kind = join_kind(expr.kind, old.kind, new.kind)
    ne, no = to_z3(new.numel, I), to_z3(old.numel, I)
    if not ctx.branch(z3.Or(ne == no, ne == 1), "substitute sizes"):
        raise PyExc(RuntimeError, note="substitute: inconsistent number of elements")
    if new.numel == 1 and old.numel != 1:
        new = repmat(ctx, new, old.numel)
    if old.numel == 0:
        return expr
    f = substitution(ctx, old, new)
    return Mat(kind if kind != "DM" else "SX", expr.rows, expr.cols, remembered(lambda r, c: f(expr.el(r, c))), segs=None)


def remembered(el):
    """The same entries, each computed once where its position is known."""
    seen = {}

    def get(r, c):
        if not (isinstance(r, int) and isinstance(c, int)):
            return el(r, c)
        if (r, c) not in seen:
            seen[r, c] = el(r, c)
        return seen[r, c]
    return get


def substitution(ctx, old, new):
    """e -> e after the simultaneous substitution old -> new"""
    rep = Replaced(ctx, old, new)
    if rep.parts is None or ctx.loop_idx:
        h = subst_handle(ctx, old, new)
        handle = lambda: h
    else:
        made = []

        def handle():
            if not made:
                made.append(subst_handle(ctx, old, new))
            return made[0]
    return lambda e: sub_term(ctx, e, handle, rep)


def sub_term(ctx, e, h, rep):
    """e after the substitution h = (old -> new): carried out through sums, products, quotients and the elementary functions, down to
    the symbols that are known to be (or not to be) replaced; the application of the uninterpreted SUB elsewhere."""
    e = to_z3(e, R)
    if is_num(z3.simplify(e)) or e.eq(INF):
        return e
    return push_sub(ctx, e, h, rep)


class Replaced:
    """What a symbol becomes under a simultaneous substitution, where that follows from the names of the symbols."""

    def __init__(self, ctx, old, new):
        self.new, self.parts, self.seen = new, [], {}
        off, j = 0, z3.Int("sub_q")
        for m in (old.segs or [old]):
            if not isinstance(m, Mat) or m.sid is None:
                self.parts = None
                return
            if isinstance(m.rows, int) and m.rows == 0:
                continue
            if isinstance(m.numel, int) and m.numel <= 12:
                for i in range(m.numel):
                    t = z3.simplify(to_z3(m.sid(i), I))
                    if not is_sid(t):
                        self.parts = None
                        return
                    self.parts.append((t, None, add_int(off, i), 1))
                off = add_int(off, m.numel)
                continue
            one = m.numel == 1
            t = z3.simplify(to_z3(m.sid(0 if one else j), I))
            if not is_sid(t):
                self.parts = None
                return
            if not one:
                shift = z3.simplify(t.arg(3) - j)
                if not z3.is_int_value(shift) or any(occurs(j, t.arg(q)) for q in range(3)):
                    self.parts = None
                    return
                self.parts.append((t, shift.as_long(), off, m.numel))
            else:
                self.parts.append((t, None, off, 1))
            off = add_int(off, m.numel)
        for i, p in enumerate(self.parts):
            for q in self.parts[:i]:
                if not apart(p[0], q[0], p[1] is not None or q[1] is not None):
                    self.parts = None
                    return

    def of(self, s):
        """The replacement of the symbol with the name s: a term, or None when it is not known."""
        if self.parts is None:
            return None
        s = z3.simplify(s)
        if not is_sid(s):
            return None
        out = []
        for t, shift, off, n in self.parts:
            if shift is None:
                if t.eq(s):
                    return to_z3(self.new.at(off), R)
                if not apart(t, s):
                    return None
            elif apart(t, s, True):
                continue
            else:
                if any(not t.arg(q).eq(s.arg(q)) for q in range(3)):
                    return None
                i = sub_int(simp(s.arg(3)), shift)
                if isinstance(i, int) and isinstance(n, int):
                    if 0 <= i < n:
                        return to_z3(self.new.at(add_int(off, i)), R)
                    continue
                inside = z3.simplify(z3.And(to_z3(i, I) >= 0, to_z3(i, I) < to_z3(n, I)))
                if z3.is_false(inside):
                    continue
                return z3.If(inside, to_z3(self.new.at(add_int(off, i)), R), V(s)) if not z3.is_true(inside) else to_z3(self.new.at(add_int(off, i)), R)
        return V(s)


def is_sid(t):
    return z3.is_app(t) and t.decl().name() == "SID"


def apart(a, b, any_pos=False):
    """Are the symbols with these names different for certain (whatever their position)?"""
    return any(z3.is_int_value(a.arg(q)) and z3.is_int_value(b.arg(q)) and not a.arg(q).eq(b.arg(q)) for q in range(3 if any_pos else 4))


def push_sub(ctx, e, h, rep):
    if is_num(e) or e.eq(INF):
        return e
    memo = rep.seen if rep is not None else None
    if memo is not None and e.get_id() in memo and memo[e.get_id()][0].eq(e):
        return memo[e.get_id()][1]
    go = lambda x: push_sub(ctx, x, h, rep)
    name = e.decl().name() if z3.is_app(e) else ""
    if z3.is_add(e):
        out = z3.simplify(z3.Sum([go(x) for x in e.children()]))
    elif z3.is_sub(e):
        out = go(e.arg(0))
        for x in e.children()[1:]:
            out = out - go(x)
        out = z3.simplify(out)
    elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
        out = -go(e.arg(0))
    elif z3.is_mul(e):
        out = go(e.arg(0))
        for x in e.children()[1:]:
            out = real_mul(out, go(x), ctx)
    elif z3.is_app(e) and e.decl().eq(MUL):
        out = real_mul(go(e.arg(0)), go(e.arg(1)), ctx)
    elif z3.is_app(e) and e.decl().eq(INV):
        out = real_div(z3.RealVal(1), go(e.arg(0)), ctx)
    elif z3.is_app(e) and name in ("UF_" + q for q in UNARY) and e.num_args() == 1:
        out = e.decl()(go(e.arg(0)))
    elif z3.is_app(e) and name in ctx.generic:
        out = e.decl()(e.arg(0), *[go(x) for x in e.children()[1:]])
    elif name.startswith("LIB_"):
        # the entry of what a library computes from the entries of matrices (opaque below)
        out = e.decl()(e.arg(0), e.arg(1), *[z3.simplify(go(x)) for x in e.children()[2:]])
    elif z3.is_app_of(e, z3.Z3_OP_ITE):
        out = z3.If(e.arg(0), go(e.arg(1)), go(e.arg(2)))
    elif z3.is_app(e) and (name in ctx.numbers or z3.is_app_of(e, z3.Z3_OP_TO_REAL)):
        out = e
    elif z3.is_app(e) and e.decl().eq(V):
        out = rep.of(e.arg(0)) if rep is not None else None
        if out is None:
            out = SUB(e, h())
    else:
        out = SUB(e, h())
    if memo is not None:
        memo[e.get_id()] = (e, out)
    return out


def subst_handle(ctx, old, new):
    before = len(ctx.handles)
    h = ctx.handle(old, new, tag="S")
    if len(ctx.handles) > before:
        e = z3.Real("sub_e")
        if is_z3(old.numel):
            ctx.axiom(z3.Implies(to_z3(old.numel, I) == 0, z3.ForAll([e], SUB(e, h) == e, patterns=[SUB(e, h)])))
        # a symbol that is not replaced stays; a replaced symbol becomes its replacement
        s, j = z3.Ints("sub_s sub_j")
        nn = to_z3(old.numel, I)
        try:
            if old.numel == 1:
                ctx.axiom(z3.ForAll([s], SUB(V(s), h) == z3.If(s == to_z3(old.sid(0), I), new.at(0), V(s)), patterns=[SUB(V(s), h)]))
            else:
                ctx.axiom(z3.ForAll([s], z3.Or(SUB(V(s), h) == V(s),
                                               z3.Exists([j], z3.And(j >= 0, j < nn, to_z3(old.sid(j), I) == s, SUB(V(s), h) == new.at(j)))),
                                    patterns=[SUB(V(s), h)]))
                replaced_parts(ctx, old, new, h)
        except Unsupported:
            pass
        if getattr(ctx, "avoids", False):
            # doing it again changes nothing when no replaced symbol is in the replacement
            i = z3.Int("sub_i")
            if old.numel == 1:
                o, w = to_z3(old.sid(0), I), new.at(0)
                ctx.axiom(z3.ForAll([e], z3.Implies(z3.Not(D(e, o)), SUB(e, h) == e), patterns=[SUB(e, h)]))
                ctx.axiom(z3.ForAll([e, s], z3.Implies(D(SUB(e, h), s), z3.Or(z3.And(D(e, s), s != o), D(w, s))), patterns=[D(SUB(e, h), s)]))
            else:
                ctx.axiom(z3.ForAll([e, s], z3.Implies(D(SUB(e, h), s), z3.Or(D(e, s), z3.Exists([j], z3.And(j >= 0, j < nn, D(new.at(j), s))))), patterns=[D(SUB(e, h), s)]))
            ctx.axiom(z3.Or(z3.Exists([i, j], z3.And(i >= 0, i < nn, j >= 0, j < nn, D(new.at(i), to_z3(old.sid(j), I)))),
                            z3.ForAll([e], SUB(SUB(e, h), h) == SUB(e, h), patterns=[SUB(SUB(e, h), h)])))
    return h


def replaced_parts(ctx, old, new, h):
    """Each symbol of each part of old becomes its replacement (when the parts are different symbols, which is known from their names)."""
    parts, off = [], 0
    j = z3.Int("sub_q")
    for m in (old.segs or [old]):
        if not isinstance(m, Mat) or m.sid is None:
            return
        if isinstance(m.rows, int) and m.rows == 0:
            continue
        t = z3.simplify(to_z3(m.sid(j), I))
        if not (z3.is_app(t) and t.decl().name() == "SID" and z3.is_int_value(t.arg(0)) and (m.rows == 1 or any(t.arg(q).eq(j) for q in range(t.num_args())))):
            return
        parts.append((t, off, m.rows))
        off = add_int(off, m.rows)
    if len({t.arg(0).as_long() for t, _, _ in parts}) != len(parts):
        return
    for t, off, n in parts:
        if n == 1:
            t = z3.substitute(t, (j, z3.IntVal(0)))
            ctx.axiom(SUB(V(t), h) == to_z3(new.at(off), R))
        else:
            ctx.axiom(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < to_z3(n, I)), SUB(V(t), h) == to_z3(new.at(add_int(off, j)), R)), patterns=[SUB(V(t), h)]))


UF2 = {}


def uf(name, *sorts):
    key = (name, len(sorts))
    if key not in UF2:
        UF2[key] = z3.Function("UF_" + name, *sorts)
    return UF2[key]


def jacobian(ctx, e, x):
    e, x = as_mat(ctx, e), as_mat(ctx, x)
    ctx.taint.add("jacobian")
    h = ctx.handle(x, tag="J")
    f = uf("JAC", R, I, I, R)

    def el(r, c):
        if x.sid is not None and (isinstance(c, int) or x.numel == 1):
            d = derivative(ctx, z3.simplify(to_z3(e.at(r), R)), z3.simplify(to_z3(x.sid(0 if x.numel == 1 else c), I)))
            if d is not None:
                return d
        return f(e.at(r), h, to_z3(c, I))
    return Mat(join_kind(e.kind, x.kind), e.numel, x.numel, el)


def derivative(ctx, t, s):
    """The derivative of a polynomial in symbols by the symbol with the name s; None for other expressions."""
    if not is_sid(s):
        return None
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = derivative(ctx, t.arg(1), s), derivative(ctx, t.arg(2), s)
        return None if a is None or b is None else z3.simplify(z3.If(t.arg(0), a, b))
    out = {}
    for m, c in polynomial(t).items():
        for q, k in enumerate(m):
            if z3.is_app(k.t) and k.t.decl().eq(V):
                v = z3.simplify(k.t.arg(0))
                if not v.eq(s):
                    if is_sid(v) and apart(v, s):
                        continue
                    return None
                rest = m[:q] + m[q + 1:]
                out[rest] = out.get(rest, 0) + c
            elif z3.is_app(k.t) and k.t.decl().name() in ctx.numbers:
                continue
            elif z3.is_app(k.t) and k.t.decl().name() in ctx.generic:
                rest = {m[:q] + m[q + 1:]: c}
                for j, w in enumerate(k.t.children()[1:]):
                    d = derivative(ctx, w, s)
                    if d is None:
                        return None
                    if is_num(d) and d.as_fraction() == 0:
                        continue
                    for m2, c2 in poly_mul(poly_mul(rest, polynomial(d)), polynomial(partial(ctx, k.t, j))).items():
                        out[m2] = out.get(m2, 0) + c2
            else:
                return None
    return from_poly({m: c for m, c in out.items() if c})


def partial(ctx, t, j):
    """The derivative of an arbitrary function by its argument j, at the arguments of t: an arbitrary function of them."""
    f = t.decl()
    g = z3.Function("%s/d%d" % (f.name(), j), *[f.domain(q) for q in range(f.arity())] + [f.range()])
    ctx.generic.add(g.name())
    return g(*t.children())


def gradient(ctx, e, x):
    e, x = as_mat(ctx, e), as_mat(ctx, x)
    if not (e.numel == 1):
        raise Unsupported("gradient of a non-scalar")
    return transpose(jacobian(ctx, e, x)) if not (x.rows == 0 and x.cols == 0) else empty(x.kind, 0, 0)


def mtimes(ctx, a, b):
    a, b = as_mat(ctx, a), as_mat(ctx, b)
    if (a.rows == 1 and a.cols == 1) or (b.rows == 1 and b.cols == 1):
        return arith(ctx, "*", a, b)
    if not ctx.branch(to_z3(a.cols, I) == to_z3(b.rows, I), "mtimes sizes"):
        raise PyExc(RuntimeError, note="mtimes dimension mismatch")
    n = a.cols if isinstance(a.cols, int) else b.rows
    kind = join_kind(a.kind, b.kind)
    if isinstance(n, int):
        def el(r, c):
            t = z3.RealVal(0)
            for k in range(n):
                t = t + real_mul(a.el(r, k), b.el(k, c), ctx)
            return z3.simplify(t)
        return Mat(kind, a.rows, b.cols, el)
    ctx.taint.add("symbolic inner product")
    f = uf("MTIMES", I, I, I, I, R)
    ha = ctx.handle(_flat(a), tag="M")
    hb = ctx.handle(_flat(b), tag="M")
    return Mat(kind, a.rows, b.cols, lambda r, c: f(ha, hb, to_z3(r, I), to_z3(c, I)))


def diag(ctx, v):
    v = as_mat(ctx, v)
    if v.cols != 1:
        raise Unsupported("diag of a matrix")
    return Mat(v.kind, v.rows, v.rows, lambda r, c: z3.simplify(z3.If(to_z3(r, I) == to_z3(c, I), v.el(r, 0), z3.RealVal(0))), const=v.const)


def opaque(ctx, name, mats, rows, cols):
    """A matrix that a library computes from the entries of others: any function of them, the same for the same entries."""
    mats = [as_mat(ctx, m) for m in mats]
    if not all(isinstance(n, int) for m in mats for n in (m.rows, m.cols)) or not isinstance(rows, int) or not isinstance(cols, int):
        raise Unsupported("%s of unknown sizes" % name)
    if any(m.kind != "DM" for m in mats) and name not in ("solve", "inv"):
        raise Unsupported("%s of expressions" % name)
    ctx.taint.add(name)
    args = [z3.simplify(to_z3(m.el(r, c), R)) for m in mats for r in range(m.rows) for c in range(m.cols)]
    tag = "%s_%s" % (name, "_".join("%dx%d" % (m.rows, m.cols) for m in mats))
    f = z3.Function("LIB_" + tag, *([I, I] + [R] * len(args) + [R]))
    return Mat(join_kind(*["DM"] + [m.kind for m in mats]), rows, cols, lambda r, c: f(to_z3(r, I), to_z3(c, I), *args), const=all(m.const is True for m in mats))


def chol(ctx, a):
    a = as_mat(ctx, a)
    return opaque(ctx, "chol", [a], a.rows, a.cols)


def solve(ctx, a, b):
    a, b = as_mat(ctx, a), as_mat(ctx, b)
    if a.rows == 0 or b.cols == 0:
        return empty(join_kind(a.kind, b.kind), a.cols, b.cols)
    return opaque(ctx, "solve", [a, b], a.cols, b.cols)


def inv(ctx, a):
    a = as_mat(ctx, a)
    return opaque(ctx, "inv", [a], a.cols, a.rows)


def diagcat(ctx, mats):
    """Blocks along the diagonal, zeros elsewhere (sizes as numbers; empty matrices add their rows and columns)."""
    mats = [as_mat(ctx, m) for m in mats]
    if not all(isinstance(m.rows, int) and isinstance(m.cols, int) for m in mats):
        raise Unsupported("diagcat of unknown sizes")
    if any(m.kind != "DM" for m in mats):
        raise Unsupported("diagcat of expressions")
    z = z3.RealVal(0)
    places, r0, c0 = [], 0, 0
    for m in mats:
        places.append((r0, c0, m))
        r0, c0 = r0 + m.rows, c0 + m.cols

    def el(r, c):
        out = z
        for a, b, m in places:
            for i in range(m.rows):
                for j in range(m.cols):
                    here = z3.And(to_z3(r, I) == a + i, to_z3(c, I) == b + j)
                    out = z3.If(here, m.el(i, j), out)
        return z3.simplify(out)
    return Mat("DM", r0, c0, el, const=all(m.const for m in mats))


def mmax(ctx, m):
    """The largest entry: an upper bound that is attained."""
    m = as_mat(ctx, m)
    if m.kind != "DM":
        raise Unsupported("mmax of an expression")
    if m.rows == 1 and m.cols == 1:
        return m
    if zero_int(ctx, m.rows) or zero_int(ctx, m.cols):
        raise Unsupported("mmax of an empty matrix")
    t = ctx.fresh_real("mmax")
    r, c = z3.Int(ctx.fresh_name("mm_r")), z3.Int(ctx.fresh_name("mm_c"))
    inside = z3.And(r >= 0, r < to_z3(m.rows, I), c >= 0, c < to_z3(m.cols, I))
    ctx.assume(z3.ForAll([r, c], z3.Implies(inside, m.el(r, c) <= t)))
    ctx.assume(z3.Exists([r, c], z3.And(inside, m.el(r, c) == t)))
    return scalar("DM", t)


def _flat(m):
    if m.is_vec() or m.rows == 1 or isinstance(m.cols, int):
        return m
    if isinstance(m.rows, int):
        return transpose(m)
    # both symbolic: canonicalise through a pairing of the indices
    f = lambda i: m.el(i / z3.Int("CANON_W"), i % z3.Int("CANON_W"))
    return Mat(m.kind, mul_int(m.rows, m.cols), 1, lambda r, c: f(to_z3(r, I)))


def dot(ctx, a, b):
    a, b = as_mat(ctx, a), as_mat(ctx, b)
    if not ctx.branch(same_shape(ctx, a, b), "dot sizes"):
        raise PyExc(RuntimeError, note="dot dimension mismatch")
    n = a.numel if isinstance(a.numel, int) else b.numel
    kind = join_kind(a.kind, b.kind)
    if isinstance(n, int):
        t = z3.RealVal(0)
        for k in range(n):
            t = t + real_mul(a.at(k), b.at(k), ctx)
        return scalar(kind, z3.simplify(t))
    ctx.taint.add("symbolic inner product")
    f = uf("DOT", I, I, R)
    ha, hb = ctx.handle(a, tag="M"), ctx.handle(b, tag="M")
    x, y = z3.Ints("dot_x dot_y")
    ctx.axiom(f(ha, hb) == f(hb, ha))
    return scalar(kind, f(ha, hb))


def fresh_sym(ctx, kind, name, rows, cols=1):
    """SX.sym / MX.sym: new symbols, different from every other symbol."""
    o = ctx.new_owner()
    js = [to_z3(k, I) for k in ctx.loop_idx[-2:]]
    while len(js) < 2:
        js.append(z3.IntVal(-1))
    if len(ctx.loop_idx) > 2:
        raise Unsupported("symbols created in three nested symbolic loops")

    def lin(r, c):
        if isinstance(c, int) and c == 0:
            return to_z3(r, I)
        return to_z3(add_int(mul_int(c, rows), r), I)
    sid = (lambda i: SID(z3.IntVal(o), js[0], js[1], to_z3(i, I)))
    m = Mat(kind, rows, cols, lambda r, c: V(sid(lin(r, c))), sid=sid, const=False)
    m.names = name
    return m
