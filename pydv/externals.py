"""Assumed contracts of everything outside /repo: Python builtins, the standard library, casadi."""
import z3

from . import matlib as ml
from .interp import (Bound, Builtin, CasFunction, CasType, Env, ExcObj, ExcSuppress, ExtModule, KMap, Lambda, NZ, Obj,
                     Opt, PendingKey, PyDict, PyList, PySet, RepoClass, RepoFunc, RepoModule, StarSym, Undefined, elem,
                     opt_parts, same_ident, subst_val, sum_term, Marker)
from .terms import *

DM, MX, SX = CasType("DM"), CasType("MX"), CasType("SX")


class PyType:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<type %s>" % self.name


class Opaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<opaque %s>" % self.name


class DictView:
    def __init__(self, d, what):
        self.d, self.what = d, what


# ------------------------------------------------------------------------------------------- lists
def list_append(it, l, v):
    l.segs = l.segs + [One(v)]


def list_extend(it, l, v):
    l.segs = l.segs + list(it.iter_segs(as_iter(it, v)))


def as_iter(it, v):
    if isinstance(v, DictView):
        return view_list(it, v)
    return v


def view_list(it, v):
    segs = []
    for s in dict_segs(it, v.d):
        i = {"keys": 0, "values": 1}.get(v.what)
        if isinstance(s, One):
            segs.append(One(s.value if i is None else s.value[i]))
        else:
            segs.append(MapSeg(s.n, (lambda k, s=s: s.fn(k)) if i is None else (lambda k, s=s, i=i: s.fn(k)[i])))
            segs[-1].all_keys = i == 0 and s.all_keys
    return PyList(segs)


def dict_segs(it, d):
    """Entries as segments of (key, value)."""
    segs = [One((k, v)) for k, v in d.d.items()]
    if d.rng is not None:
        if isinstance(d.rng, PendingKey):
            raise Unsupported("dictionary with a pending symbolic key")
        r = d.rng
        o = (lambda k: k) if r.order is None else (lambda k: r.order(to_z3(k, I)))
        segs.append(MapSeg(r.n, lambda k: (o(k), r.fn(o(k)))))
        segs[-1].all_keys = True
    for e in d.om:
        if isinstance(e, KMap):
            segs.append(MapSeg(e.n, lambda k, e=e: (e.key(k), e.val(k))))
        else:
            segs.append(One((e.key, e.value)))
    return segs


class KOne:
    def __init__(self, key, value):
        self.key, self.value = key, value


def length(it, v):
    v = as_iter(it, v)
    if isinstance(v, (tuple, list, str)):
        return len(v)
    if isinstance(v, PySet):
        return len(v.items) if v.rng is None else v.rng
    if isinstance(v, PyDict):
        n = len(v.d)
        if v.rng is not None:
            n = add_int(n, v.rng.n)
        for e in v.om:
            n = add_int(n, e.n if isinstance(e, KMap) else 1)
        return n
    if isinstance(v, PyList):
        n = 0
        for s in v.segs:
            if isinstance(s, One):
                n = add_int(n, 1)
            elif isinstance(s, MapSeg):
                n = add_int(n, s.n)
            elif isinstance(s, FilterSeg):
                n = add_int(n, filter_len(it, s))
            else:
                n = add_int(n, concat_len(it, s))
        return n
    if isinstance(v, NZ):
        return v.mat.numel
    if isinstance(v, SymRange):
        segs = it.iter_segs(v)
        return sum_len(segs)
    if isinstance(v, Obj):
        m = v.cls.lookup("__len__")
        if m:
            return it.call_repo(m, [v], {})
    if v is None or isinstance(v, (int, float)):
        raise PyExc(TypeError, note="len")
    if isinstance(v, Mat):
        raise Unsupported("len of a matrix")
    raise Unsupported("len of %r" % (v,))


def sum_len(segs):
    n = 0
    for s in segs:
        n = add_int(n, 1 if isinstance(s, One) else s.n)
    return n


def filter_len(it, s):
    cnt, sel, rank = ml.filter_sel(it.ctx, s.n, s.cond)
    note_nonempty(it, s, cnt, sel, rank)
    if not it.ctx.loop_idx:
        for t in it.unique_index(s, z3.BoolVal(True), collect=True):
            it.ctx.axiom(z3.Implies(z3.And(t >= 0, t < to_z3(s.n, I), to_z3(s.cond(t), B)), cnt > 0))
        t = it.unique_index(s, z3.BoolVal(True))
        if t is not None:       # at most one: the count is whether that one satisfies the condition
            it.ctx.axiom(cnt == z3.If(z3.And(t >= 0, t < to_z3(s.n, I), to_z3(s.cond(t), B)), 1, 0))
    return cnt


def note_nonempty(it, s, cnt, sel, rank):
    # cnt > 0 <=> some k satisfies the condition
    k = z3.Int("ne_k")
    it.ctx.axiom(z3.Implies(cnt == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < to_z3(s.n, I)), z3.Not(to_z3(s.cond(k), B))))))
    it.ctx.axiom(z3.Implies(cnt > 0, z3.And(sel(0) >= 0, sel(0) < to_z3(s.n, I), to_z3(s.cond(sel(0)), B))))


def concat_len(it, s):
    """Only emptiness of a concatenation is modelled: total is 0 iff every inner list is empty."""
    ctx = it.ctx
    t = ctx.fresh_int("tot")
    k = z3.Int("cl_k")
    inner = s.inner(k)
    conds = []
    for x in inner.segs:
        if isinstance(x, One):
            conds.append(z3.BoolVal(True))
        elif isinstance(x, MapSeg):
            conds.append(to_z3(x.n, I) > 0)
        elif isinstance(x, FilterSeg):
            j = z3.Int("cl_j")
            conds.append(z3.Exists([j], z3.And(j >= 0, j < to_z3(x.n, I), to_z3(x.cond(j), B))))
        else:
            raise Unsupported("length of a doubly nested list")
    ne = z3.Exists([k], z3.And(k >= 0, k < to_z3(s.n, I), z3.Or(*conds)))
    ctx.axiom(z3.And(t >= 0, (t > 0) == ne))
    # instances of that for the first element of a selection, at the places where the blocks of the searched vector start
    inv = ctx.__dict__.get("inverses", ())
    for x in s.inner(z3.IntVal(0)).segs if inv else ():
        if isinstance(x, FilterSeg):
            off, sums = z3.IntVal(0), [z3.IntVal(0)]
            n = to_z3(x.n, I)
            for a in n.children() if z3.is_add(n) else ():
                off = off + a
                sums.append(off)
            for f, b in inv:
                for o in sums[:12]:
                    j = o + f(0)
                    ctx.axiom(z3.Implies(z3.And(to_z3(s.n, I) > 0, j >= 0, j < n, to_z3(x.cond(j), B)), t > 0))
    ctx.taint.add("list-total-length")
    return t


def contains(it, x, c):
    """x in c as a term or bool."""
    if isinstance(c, Obj):
        m = c.cls.lookup("__contains__")
        if m is not None:
            return it.call_repo(m, [c, x], {})
        c = it.obj_iter(c)
    c = as_iter(it, c)
    if isinstance(c, PyDict):
        if isinstance(x, Mat):
            return om_find(it, c, x)[0]
        if is_z3(x) or c.rng is not None:
            conds = [to_z3(equal(it, x, k), B) for k in c.d]
            if c.rng is not None:
                conds.append(z3.And(to_z3(x, I) >= 0, to_z3(x, I) < to_z3(c.rng.n, I)) if not isinstance(x, str) else z3.BoolVal(False))
            return simp(z3.Or(*conds)) if conds else False
        if isinstance(x, OpaqueStr):
            if any(isinstance(k, str) for k in c.d):
                raise Unsupported("membership of an unknown string")
            return False
        return hashable(x) in c.d
    if isinstance(c, PySet):
        if c.rng is not None:
            if is_numv(x):
                return simp(z3.And(to_z3(x, I) >= 0, to_z3(x, I) < to_z3(c.rng, I)))
            raise Unsupported("membership in a set of symbolic length")
        return any_true([equal(it, x, y) for y in c.items])
    if isinstance(c, (tuple, list)):
        return any_true([equal(it, x, y) for y in c])
    if isinstance(c, (PyList, SymRange, NZ)):
        conds = []
        for s in it.iter_segs(c):
            conds.append(seg_contains(it, x, s))
        return any_true(conds)
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
    raise Unsupported("membership in %r" % (c,))


def seg_contains(it, x, s):
    ctx = it.ctx
    if isinstance(s, One):
        return equal(it, x, s.value)
    k = z3.Int(ctx.fresh_name("q"))
    rng = z3.And(k >= 0, k < to_z3(s.n, I))
    if isinstance(s, MapSeg):
        return simp(z3.Exists([k], z3.And(rng, to_z3(equal(it, x, s.fn(k)), B))))
    if isinstance(s, FilterSeg):
        return simp(z3.Exists([k], z3.And(rng, to_z3(s.cond(k), B), to_z3(equal(it, x, s.fn(k)), B))))
    inner = [seg_contains(it, x, t) for t in s.inner(k).segs]
    return simp(z3.Exists([k], z3.And(rng, to_z3(any_true(inner), B))))


def any_true(cs):
    if any(c is True for c in cs):
        return True
    cs = [c for c in cs if c is not False]
    if not cs:
        return False
    return simp(z3.Or(*[to_z3(c, B) for c in cs]))


def all_true(cs):
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    if not cs:
        return True
    return simp(z3.And(*[to_z3(c, B) for c in cs]))


def hashable(x):
    if isinstance(x, (str, int, float, bool, tuple)) or x is None:
        return x
    if isinstance(x, (Obj, RepoClass, RepoFunc)):
        return x
    raise Unsupported("dictionary key %r" % (x,))


def range_set(it, segs):
    """The set of the items of segments that each run over 0, 1, ..., n - 1."""
    n = 0
    for s in segs:
        if isinstance(s, PySet):
            m = s.rng
        elif isinstance(s, MapSeg):
            k = it.ctx.fresh_int("key")
            v = s.fn(k)
            if not (is_z3(v) and v.eq(k)) and not s.all_keys:
                raise Unsupported("set of symbolic length")
            m = s.n
        else:
            raise Unsupported("set of symbolic length")
        n = m if n == 0 else n if same_ident(n, m) else simp(z3.If(to_z3(n, I) > to_z3(m, I), to_z3(n, I), to_z3(m, I)))
    r = PySet([])
    r.rng = n
    return r


def make_set(it, items):
    out = []
    for x in items:
        dup = any_true([equal(it, x, y) for y in out])
        if dup is True:
            continue
        if dup is False:
            out.append(x)
        elif not it.ctx.branch(dup, "set"):
            out.append(x)
    return PySet(out)


# ------------------------------------------------------------------------------- symbol-keyed dicts
def om_find(it, d, key):
    """(found, position) where position identifies the entry; forks on the possible entries."""
    ctx = it.ctx
    if key.sid is None or key.kind == "MX":
        raise Unsupported("dictionary keyed by an expression %s %s" % (key.kind, key.sid))
    if not (key.numel == 1):
        raise Unsupported("dictionary keyed by a vector")
    s = to_z3(key.sid(0), I)
    for i, e in enumerate(d.om):
        if isinstance(e, KMap):
            j = z3.Int(ctx.fresh_name("q"))
            ex = z3.Exists([j], z3.And(j >= 0, j < to_z3(e.n, I), to_z3(e.key(j).sid(0), I) == s))
            # a common shape: the key is the k-th key of this very block
            w = om_witness(it, e, s)
            if w is not None:
                return True, (i, w)
            t = it.unique_index(FilterSeg(e.n, lambda q, e=e: to_z3(e.key(q).sid(0), I) == s, lambda q: q), z3.BoolVal(True))
            if t is not None:
                if ctx.branch(z3.And(t >= 0, t < to_z3(e.n, I), to_z3(e.key(t).sid(0), I) == s), "key present"):
                    return True, (i, t)
                continue
            if ctx.branch(ex, "key present"):
                j0 = ctx.fresh_int("j0")
                ctx.assume(z3.And(j0 >= 0, j0 < to_z3(e.n, I), to_z3(e.key(j0).sid(0), I) == s))
                return True, (i, j0)
        else:
            if ctx.branch(to_z3(e.key.sid(0), I) == s, "key equal"):
                return True, (i, None)
    return False, None


def om_witness(it, e, s):
    """If s is syntactically the sid of e.key(t) for an evident t in range, return t."""
    ctx = it.ctx
    j = z3.Int("OMW")
    ks = z3.simplify(to_z3(e.key(j).sid(0), I))
    s = z3.simplify(s)
    if ks.decl().eq(s.decl()) and ks.num_args() == s.num_args():
        cand = None
        for a, b in zip(ks.children(), s.children()):
            if a.eq(j):
                cand = b
            elif not a.eq(b):
                return None
        if cand is not None and ctx.must(z3.And(cand >= 0, cand < to_z3(e.n, I))):
            return cand
    return None


def om_get(it, d, pos):
    i, j = pos
    e = d.om[i]
    return e.val(j) if isinstance(e, KMap) else e.value


def om_set(it, d, key, value):
    found, pos = om_find(it, d, key)
    om = list(d.om)
    if not found:
        om.append(KOne(key, value))
    else:
        i, j = pos
        e = om[i]
        if isinstance(e, KMap):
            old = e.val
            om[i] = KMap(e.n, e.key, lambda q, old=old, j=j: it.merge(to_z3(q, I) == to_z3(j, I), value, old(q)), mod=(e, "set", j, value))
        else:
            om[i] = KOne(e.key, value)
    d.om = om


# ------------------------------------------------------------------------------------------ items
def getitem(it, o, k):
    ctx = it.ctx
    if isinstance(o, Mat):
        if isinstance(k, PyList):
            k2 = k.items()
            return ml.index(ctx, o, k2 if k2 is not None else SymList(k.segs))
        return ml.index(ctx, o, k)
    if isinstance(o, NZ):
        if isinstance(k, (slice, PyList)):
            return getitem(it, ml.vec(ctx, o.mat), k)
        return ml.index(ctx, o.mat, k)
    if isinstance(o, tuple):
        if isinstance(k, int) or isinstance(k, slice):
            try:
                return o[k]
            except IndexError:
                raise PyExc(IndexError)
        if is_z3(k):
            return it.pick(list(o), k)
    if isinstance(o, PyList):
        return list_get(it, o, k)
    if isinstance(o, PyDict):
        return dict_get(it, o, k)
    if isinstance(o, str) and isinstance(k, (int, slice)):
        return o[k]
    if isinstance(o, Obj):
        m = o.cls.lookup("__getitem__")
        if m is not None:
            return it.call_repo(m, [o, k], {})
    if isinstance(o, SymRange):
        return list_get(it, PyList(it.iter_segs(o)), k)
    if o is None:
        raise PyExc(TypeError, note="None is not subscriptable")
    if isinstance(o, (Opaque, PyType)):
        return Opaque("typing")
    if isinstance(o, RepoClass):
        return o
    raise Unsupported("subscript of %r" % (o,))


def list_get(it, o, k):
    items = it.concrete_items(o)
    ctx = it.ctx
    if isinstance(k, slice):
        if items is not None and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            return PyList.of(items[k])
        if k.step is None and isinstance(o, PyList) and (k.start is None or isinstance(k.start, int) and k.start >= 0) and (
                k.stop is None or isinstance(k.stop, int) and k.stop < 0):
            segs = list(o.segs)
            i, j = k.start or 0, -(k.stop or 0)
            while j and segs and isinstance(segs[-1], One):
                segs.pop()
                j -= 1
            while i and segs and isinstance(segs[0], One):
                segs.pop(0)
                i -= 1
            if not i and not j:
                return PyList(segs)
        n, get = it.indexable(o)
        if k.step is not None:
            raise Unsupported("list slice step")
        a = 0 if k.start is None else k.start
        b = n if k.stop is None else k.stop
        if isinstance(a, int) and a < 0:
            a = add_int(n, a)
        if isinstance(b, int) and b < 0:
            b = add_int(n, b)
        # clamp like Python
        az, bz, nz = to_z3(a, I), to_z3(b, I), to_z3(n, I)
        if not ctx.must(z3.And(az >= 0, az <= bz, bz <= nz)):
            cl = lambda x: z3.If(x < 0, z3.IntVal(0), z3.If(x > nz, nz, x))
            a, b = simp(cl(az)), simp(cl(bz))
            b = simp(z3.If(to_z3(b, I) < to_z3(a, I), to_z3(a, I), to_z3(b, I)))
        cnt = sub_int(b, a)
        if isinstance(cnt, int):
            return PyList.of([get(add_int(a, q)) for q in range(cnt)])
        return PyList([MapSeg(cnt, lambda q: get(add_int(a, q)))])
    if isinstance(k, Mat):
        raise Unsupported("list index by matrix")
    if items is not None and isinstance(k, int):
        try:
            return items[k]
        except IndexError:
            raise PyExc(IndexError)
    n, get = it.indexable(o)
    if isinstance(k, int) and k < 0:
        k = add_int(n, k)
    kk, nn = to_z3(k, I), to_z3(n, I)
    if not ctx.branch(z3.And(kk >= 0, kk < nn), "list index"):
        if ctx.branch(z3.And(kk < 0, kk >= -nn), "negative list index"):
            return get(simp(kk + nn))
        raise PyExc(IndexError)
    return get(k)


def dict_get(it, o, k):
    ctx = it.ctx
    if isinstance(k, Mat):
        found, pos = om_find(it, o, k)
        if not found:
            raise PyExc(KeyError)
        return om_get(it, o, pos)
    if isinstance(o.rng, PendingKey):
        raise Unsupported("read of a dictionary being built in a loop")
    if is_z3(k) or o.rng is not None:
        if o.default is not None:
            raise Unsupported("symbolic key of a defaultdict")
        if isinstance(k, str):
            if k in o.d:
                return o.d[k]
            raise PyExc(KeyError)
        for kk, v in o.d.items():
            if isinstance(kk, int) and ctx.branch(to_z3(k, I) == kk, "dict key"):
                return v
        if o.rng is not None:
            if ctx.branch(z3.And(to_z3(k, I) >= 0, to_z3(k, I) < to_z3(o.rng.n, I)), "dict key in range"):
                return o.rng.fn(k)
        raise PyExc(KeyError)
    if isinstance(k, OpaqueStr):
        raise Unsupported("dictionary key is an unknown string")
    k = hashable(k)
    if k in o.d:
        return o.d[k]
    if o.default is not None and o.is_plain():
        v = it.call(o.default, [], {})
        setitem(it, o, k, v)
        return v
    raise PyExc(KeyError)


def setitem(it, o, k, v):
    ctx = it.ctx
    if isinstance(o, PyDict):
        if isinstance(k, Mat):
            om_set(it, o, k, v)
            return
        if is_z3(k):
            if o.is_plain() and not o.d and ctx.loop_idx:
                o.rng = PendingKey(k, v)
                return
            if isinstance(o.rng, SymDict):
                # overwrite / extend by one
                r = o.rng
                kk, nn = to_z3(k, I), to_z3(r.n, I)
                if ctx.branch(z3.And(kk >= 0, kk < nn), "overwrite key"):
                    o.rng = SymDict(r.n, lambda q: it.merge(to_z3(q, I) == kk, v, r.fn(q)))
                    return
                if ctx.must(kk == nn):
                    o.rng = SymDict(add_int(r.n, 1), lambda q: it.merge(to_z3(q, I) == kk, v, r.fn(q)))
                    return
            raise Unsupported("symbolic dictionary key")
        if isinstance(k, OpaqueStr):
            raise Unsupported("dictionary key is an unknown string")
        if isinstance(o.rng, SymDict) and isinstance(k, int):
            r = o.rng
            if ctx.branch(z3.And(to_z3(k, I) >= 0, to_z3(k, I) < to_z3(r.n, I)), "overwrite key"):
                o.rng = SymDict(r.n, lambda q: it.merge(to_z3(q, I) == k, v, r.fn(q)))
                return
        o.d = dict(o.d)
        o.d[hashable(k)] = v
        return
    if isinstance(o, PyList):
        items = o.items()
        if items is not None and isinstance(k, int):
            if not -len(items) <= k < len(items):
                raise PyExc(IndexError)
            segs = list(o.segs)
            segs[k] = One(v)
            o.segs = segs
            return
        n, get = it.indexable(o)
        kk = to_z3(k, I)
        if not ctx.branch(z3.And(kk >= 0, kk < to_z3(n, I)), "list store"):
            raise PyExc(IndexError)
        o.segs = [MapSeg(n, lambda q: it.merge(to_z3(q, I) == kk, v, get(q)))]
        return
    if isinstance(o, Obj):
        m = o.cls.lookup("__setitem__")
        if m is not None:
            it.call_repo(m, [o, k, v], {})
            return
    if isinstance(o, Mat):
        it.replace_mat(o, store_of(it, o, k, v))
        return
    raise Unsupported("item assignment on %r" % (o,))


def store_of(it, m, k, v):
    if isinstance(k, PyList):
        k2 = k.items()
        k = k2 if k2 is not None else SymList(k.segs)
    return ml.store(it.ctx, m, k, v)


def delitem(it, o, k):
    if isinstance(o, PyDict):
        if isinstance(k, Mat):
            found, pos = om_find(it, o, k)
            if not found:
                raise PyExc(KeyError)
            i, j = pos
            if isinstance(o.om[i], KMap):
                e = o.om[i]
                jz = to_z3(j, I)
                sh = lambda q: z3.If(to_z3(q, I) < jz, to_z3(q, I), to_z3(q, I) + 1)
                o.om = o.om[:i] + [KMap(sub_int(e.n, 1), lambda q: e.key(sh(q)), lambda q: e.val(sh(q)), mod=(e, "del", j, None))] + o.om[i + 1:]
            else:
                o.om = o.om[:i] + o.om[i + 1:]
            return
        if o.rng is None and not is_z3(k):
            if hashable(k) not in o.d:
                raise PyExc(KeyError)
            o.d = {a: b for a, b in o.d.items() if a != k}
            return
    if isinstance(o, PyList) and o.items() is not None and isinstance(k, int):
        segs = list(o.segs)
        try:
            del segs[k]
        except IndexError:
            raise PyExc(IndexError)
        o.segs = segs
        return
    raise Unsupported("del item")


def dict_update(it, d, other):
    if isinstance(other, PyDict):
        if other.rng is not None:
            if d.is_plain() and not d.d:
                d.rng = other.rng
            else:
                raise Unsupported("merge of symbolic dictionaries")
        for k, v in other.d.items():
            setitem(it, d, k, v)
        for e in other.om:
            if isinstance(e, KMap):
                om_update_block(it, d, e)
            else:
                om_set(it, d, e.key, e.value)
        return
    raise Unsupported("dict update")


def om_update_block(it, d, e):
    """d.update({key(0): val(0), ...}) for a block of entries."""
    if not d.om:
        d.om = d.om + [e]
        return
    ctx = it.ctx
    k = ctx.fresh_int("uk")
    # every key of the block already present in one block f with a known position map?
    if len(d.om) == 1 and isinstance(d.om[0], KMap):
        f = d.om[0]
        j = z3.Int("OMW")
        ks = z3.simplify(to_z3(f.key(j).sid(0), I))
        es = z3.simplify(to_z3(e.key(j).sid(0), I))
        if ks.eq(es) and ctx.must(to_z3(f.n, I) == to_z3(e.n, I)):
            d.om = [KMap(f.n, f.key, e.val)]
            return
    # appended block, disjoint from all present ones
    q = z3.Int(ctx.fresh_name("q"))
    p = z3.Int(ctx.fresh_name("q"))
    if all(isinstance(x, KMap) for x in d.om):
        # whole block equal to one existing block
        for i, f in enumerate(d.om):
            j = z3.Int("OMW")
            ks = z3.simplify(to_z3(f.key(j).sid(0), I))
            es = z3.simplify(to_z3(e.key(j).sid(0), I))
            if ks.eq(es) and ctx.must(to_z3(f.n, I) == to_z3(e.n, I)):
                d.om = d.om[:i] + [KMap(f.n, f.key, e.val)] + d.om[i + 1:]
                return
    disj = []
    for f in d.om:
        if isinstance(f, KMap):
            disj.append(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < to_z3(f.n, I), q >= 0, q < to_z3(e.n, I)),
                                                     to_z3(f.key(p).sid(0), I) != to_z3(e.key(q).sid(0), I))))
        else:
            disj.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < to_z3(e.n, I)), to_z3(f.key.sid(0), I) != to_z3(e.key(q).sid(0), I))))
    if ctx.must(z3.And(*disj)):
        d.om = d.om + [e]
        return
    # every key of the block is in exactly one of the present blocks
    if all(isinstance(f, KMap) for f in d.om):
        k = ctx.fresh_int("uk")
        rk = z3.And(k >= 0, k < to_z3(e.n, I))
        ek = to_z3(e.key(k).sid(0), I)
        new, hits = [], []
        it.distinct_keys(e.key, e.n)
        for f in d.om:
            t = it.unique_index(FilterSeg(f.n, lambda q, f=f: to_z3(f.key(q).sid(0), I) == ek, lambda q: q), rk)
            if t is None:
                if it.valid(z3.Implies(z3.And(rk, q >= 0, q < to_z3(f.n, I)), to_z3(f.key(q).sid(0), I) != ek)):
                    new.append(f)
                    continue
                raise Unsupported("dictionary update with overlapping symbolic keys")
            c = z3.And(t >= 0, t < to_z3(f.n, I), to_z3(f.key(t).sid(0), I) == ek)
            hits.append(c)
            hit, idx = it.inverse(lambda i, t=t: z3.substitute(t, (k, to_z3(i, I))), lambda i, c=c: z3.substitute(c, (k, to_z3(i, I))), e.n)
            new.append(KMap(f.n, f.key, lambda q, f=f, hit=hit, idx=idx: it.merge(hit(q), e.val(idx(q)), f.val(q))))
        if it.valid(z3.Implies(rk, z3.Or(*hits) if hits else z3.BoolVal(False))):
            d.om = new
            return
    raise Unsupported("dictionary update with overlapping symbolic keys")


# -------------------------------------------------------------------------------------- operators
def num_sort(*vs):
    return R if any(isinstance(v, float) or (is_z3(v) and v.sort() == R) for v in vs) else I


def is_numv(v):
    return isinstance(v, (int, float)) or (is_z3(v) and v.sort() in (I, R))


OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Pow": "**"}


def binop(it, op, a, b):
    ctx = it.ctx
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        import operator
        f = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv,
             "Mod": operator.mod, "Pow": operator.pow}.get(op)
        if f is None:
            raise Unsupported("operator " + op)
        try:
            return f(a, b)
        except ZeroDivisionError:
            raise PyExc(ZeroDivisionError)
    if isinstance(a, Opt) or isinstance(b, Opt):
        raise Unsupported("arithmetic on an optional")
    if isinstance(a, Mat) or isinstance(b, Mat):
        if a is None or b is None:
            raise PyExc(TypeError)
        if isinstance(a, (PyList, str)) or isinstance(b, (PyList, str)):
            raise Unsupported("list with matrix arithmetic")
        if op == "MatMult":
            return ml.mtimes(ctx, a, b)
        if op not in OPS:
            raise Unsupported("matrix operator " + op)
        return ml.arith(ctx, OPS[op], a, b)
    if is_numv(a) and is_numv(b):
        s = num_sort(a, b)
        if op == "Div":
            x, y = to_z3(a, R), to_z3(b, R)
            if not ctx.branch(y != 0, "division"):
                raise PyExc(ZeroDivisionError)
            return real_div(x, y, ctx)
        x, y = to_z3(a, s), to_z3(b, s)
        if op == "Add":
            return simp(x + y)
        if op == "Sub":
            return simp(x - y)
        if op == "Mult":
            return simp(x * y) if s == I else real_mul(x, y, ctx)
        if op == "FloorDiv" and s == I:
            if not ctx.branch(y != 0, "division"):
                raise PyExc(ZeroDivisionError)
            if isinstance(b, int) and b > 0:
                return simp(x / y)
            raise Unsupported("floor division by a symbolic number")
        if op == "Mod" and s == I and isinstance(b, int) and b > 0:
            return simp(x % y)
        if op == "Pow" and b == 2:
            return simp(x * x) if s == I else real_mul(x, x, ctx)
        raise Unsupported("operator %s on symbolic numbers" % op)
    if isinstance(a, PySet) and isinstance(b, PySet) and op == "BitOr" and a.rng is None and b.rng is None:
        return make_set(it, list(a.items) + list(b.items))
    if isinstance(a, PySet) and isinstance(b, PySet) and op == "Sub":
        if a.rng is None and b.rng is None:
            return PySet([x for x in a.items if not it.truth(contains(it, x, b))])
        na, nb = (x.rng if x.rng is not None else 0 if not x.items else None for x in (a, b))
        if na is None or nb is None:
            raise Unsupported("difference of sets of symbolic length")
        if ctx.branch(to_z3(na, I) <= to_z3(nb, I), "difference of sets"):
            return PySet([])
        return PySet([Opaque("rest of a set")])      # not empty; its items are unknown
    if isinstance(a, PyList) and isinstance(b, PyList) and op == "Add":
        return PyList(a.segs + b.segs)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
        return a + b
    if op == "Mult" and isinstance(b, PyList) and is_numv(a):
        a, b = b, a
    if op == "Mult" and isinstance(a, PyList) and is_numv(b):
        if isinstance(b, int):
            return PyList(list(a.segs) * max(b, 0))
        items = a.items()
        if items is not None and len(items) == 1:
            n = b if ctx.must(to_z3(b, I) >= 0) else simp(z3.If(to_z3(b, I) >= 0, to_z3(b, I), z3.IntVal(0)))
            return PyList([MapSeg(n, lambda k: items[0])])
        raise Unsupported("list repetition")
    if isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)) and op == "Add":
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        return OpaqueStr(("+", str_key(a), str_key(b)))
    if isinstance(a, str) and op == "Mod":
        return OpaqueStr(("%", a, str_key(b)))
    if isinstance(a, str) and op == "Mult" and isinstance(b, int):
        return a * b
    if isinstance(a, Obj) and op in ("Add", "Sub", "Mult", "Div"):
        nm = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}[op]
        m = a.cls.lookup(nm)
        if m is not None:
            return it.call_repo(m, [a, b], {})
    if a is None or b is None:
        raise PyExc(TypeError, note="None operand")
    raise Unsupported("operator %s on %r, %r" % (op, type(a).__name__, type(b).__name__))


def str_key(x):
    if isinstance(x, OpaqueStr):
        return x.key
    if isinstance(x, (str, int, float, bool)) or x is None:
        return str(x)
    if is_z3(x):
        return x.sexpr()
    return "<%s>" % type(x).__name__


def equal(it, a, b):
    """Python ==, as bool or term."""
    ctx = it.ctx
    if a is None or b is None:
        if isinstance(a, Opt) or isinstance(b, Opt):
            o = a if isinstance(a, Opt) else b
            return simp(z3.Not(to_z3(o.present, B)))
        if isinstance(a, Mat) or isinstance(b, Mat):
            raise Unsupported("matrix == None")
        return a is b
    if is_numv(a) and is_numv(b) or isinstance(a, bool) and isinstance(b, bool):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        s = num_sort(a, b)
        if s == R:
            d = z3.simplify(to_z3(a, s) - to_z3(b, s))
            if is_num(d):
                return d.as_fraction() == 0
        return simp(to_z3(a, s) == to_z3(b, s))
    if is_z3(a) and a.sort() == B or is_z3(b) and b.sort() == B:
        if isinstance(a, (bool,)) or is_z3(a):
            if isinstance(b, bool) or is_z3(b):
                return simp(to_z3(a, B) == to_z3(b, B))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, OpaqueStr) and isinstance(b, OpaqueStr) and a.key == b.key:
        return True
    if isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)):
        raise Unsupported("comparison of unknown strings")
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all_true([equal(it, x, y) for x, y in zip(a, b)])
    if isinstance(a, PyList) and isinstance(b, PyList):
        x, y = it.concrete_items(a), it.concrete_items(b)
        if x is not None and y is not None:
            if len(x) != len(y):
                return False
            return all_true([equal(it, p, q) for p, q in zip(x, y)])
        raise Unsupported("comparison of symbolic lists")
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        if a is b:
            return True
        if a.is_plain() and b.is_plain():
            if set(a.d) != set(b.d):
                return False
            return all_true([equal(it, a.d[k], b.d[k]) for k in a.d])
        raise Unsupported("comparison of symbolic dictionaries")
    if isinstance(a, Obj) and a.cls.lookup("__eq__"):
        return it.call_repo(a.cls.lookup("__eq__"), [a, b], {})
    if isinstance(a, Mat) or isinstance(b, Mat):
        if isinstance(a, (str, PyList, PyDict)) or isinstance(b, (str, PyList, PyDict)):
            raise Unsupported("matrix compared with a container")
        return ml.arith(ctx, "==", a, b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        return a is b
    if isinstance(a, (Builtin, Bound)) != isinstance(b, (Builtin, Bound)) and (isinstance(a, (int, float, str)) or isinstance(b, (int, float, str))):
        return False
    if isinstance(a, (RepoClass, PyType, CasType, type, RepoFunc)) or isinstance(b, (RepoClass, PyType, CasType, type, RepoFunc)):
        return a is b
    if type(a) is not type(b) and isinstance(a, (str, tuple, PyList, PyDict, int, float, bool)) and isinstance(b, (str, tuple, PyList, PyDict, int, float, bool)):
        return False
    raise Unsupported("comparison of %r and %r" % (type(a).__name__, type(b).__name__))


def negate(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, Mat):
        raise Unsupported("negated matrix comparison")
    return simp(z3.Not(v))


def compare(it, op, a, b):
    ctx = it.ctx
    if op in ("Is", "IsNot"):
        if isinstance(a, Opt) or isinstance(b, Opt):
            o, x = (a, b) if isinstance(a, Opt) else (b, a)
            if x is None:
                r = simp(z3.Not(to_z3(o.present, B)))
            else:
                raise Unsupported("identity of an optional")
        elif is_z3(a) and isinstance(b, bool) and a.sort() == B:
            r = simp(a == b)
        else:
            r = a is b or (isinstance(a, (bool, int, str, float)) and type(a) is type(b) and a == b)
        return r if op == "Is" else negate(r)
    if op == "Eq":
        return equal(it, a, b)
    if op == "NotEq":
        if isinstance(a, Mat) or isinstance(b, Mat):
            return ml.arith(ctx, "!=", a, b)
        return negate(equal(it, a, b))
    if op in ("In", "NotIn"):
        r = contains(it, a, b)
        if isinstance(r, Mat):
            r = it.truth_term(r)
        return r if op == "In" else negate(r)
    sym = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
    if isinstance(a, Mat) or isinstance(b, Mat):
        return ml.arith(ctx, sym, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sym]
    if is_numv(a) and is_numv(b):
        s = num_sort(a, b)
        x, y = to_z3(a, s), to_z3(b, s)
        return simp({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[sym])
    if a is None or b is None:
        raise PyExc(TypeError)
    raise Unsupported("ordering of %r and %r" % (type(a).__name__, type(b).__name__))


# --------------------------------------------------------------------------------- attribute models
def bi(name, fn):
    return Builtin(name, fn)


def getattr(it, o, name):
    ctx = it.ctx
    if isinstance(o, Mat):
        return mat_attr(it, o, name)
    if isinstance(o, Opt):
        raise Unsupported("attribute of an optional")
    if isinstance(o, PyList):
        return list_attr(it, o, name)
    if isinstance(o, PyDict):
        return dict_attr(it, o, name)
    if isinstance(o, CasType):
        return castype_attr(it, o, name)
    if isinstance(o, (str, OpaqueStr)):
        return str_attr(it, o, name)
    if isinstance(o, NZ):
        raise Unsupported("nz attribute")
    if isinstance(o, PySet):
        if o.rng is not None:
            raise Unsupported("set.%s of symbolic length" % name)
        if name == "add":
            def add(it_, a, k):
                c = contains(it, a[0], o)
                if c is True:
                    return None
                if c is False or not ctx.branch(c):
                    o.items = o.items + [a[0]]
            return bi("set.add", add)
        if name in ("union", "update"):
            def union(it_, a, k):
                items = list(o.items)
                for x in a:
                    new = it.concrete_items(as_iter(it, x))
                    if new is None:
                        raise Unsupported("union with a set of symbolic length")
                    items += new
                r = make_set(it, items)
                if name == "union":
                    return r
                o.items = r.items
            return bi("set." + name, union)
        if name in ("intersection", "difference"):
            raise Unsupported("set." + name)
    if isinstance(o, CasFunction):
        side = {"in": o.ins, "out": o.outs}.get(name.split("_")[-1])
        ms = None if side is None else [ml.as_mat(it.ctx, m) for m in side]
        if name in ("n_in", "n_out"):
            return bi("Function." + name, lambda it, a, k: len(ms))
        if name in ("numel_in", "numel_out", "size1_in", "size1_out"):
            def size(it, a, k):
                of = (lambda m: m.numel) if name.startswith("numel") else (lambda m: m.rows)
                if a:
                    if not isinstance(a[0], int) or not 0 <= a[0] < len(ms):
                        raise Unsupported("Function.%s of this argument" % name)
                    return of(ms[a[0]])
                if not name.startswith("numel") and len(ms) != 1:
                    raise Unsupported("Function.%s without an argument" % name)
                total = 0
                for m in ms:
                    total = add_int(total, of(m))
                return total
            return bi("Function." + name, size)
        raise Unsupported("Function.%s" % name)
    if o is None:
        raise PyExc(AttributeError, note="None.%s" % name)
    if isinstance(o, Opaque) and o.name == "logger" and name in ("debug", "info", "warning", "error", "exception", "critical", "setLevel", "log"):
        return bi("logger." + name, lambda it, a, k: None)
    if isinstance(o, Opaque):
        return Opaque(o.name + "." + name)
    if isinstance(o, (int, float)) or is_z3(o):
        if name in ("numel", "shape", "size1", "append", "keys", "items", "name", "nz", "T"):
            raise PyExc(AttributeError, note="number.%s" % name)
    if isinstance(o, Bound) and name == "__name__":
        return o.func.node.name
    if isinstance(o, RepoFunc) and name == "__name__":
        return o.node.name
    if isinstance(o, tuple) and name in ("append", "numel", "keys"):
        raise PyExc(AttributeError)
    if isinstance(o, ExcObj):
        return Opaque("exception." + name)
    if isinstance(o, DictView):
        raise Unsupported("view attribute")
    raise Unsupported("attribute %s of %r" % (name, o))


def mat_attr(it, m, name):
    ctx = it.ctx
    if name == "numel":
        return bi("Mat.numel", lambda i, a, k: m.numel)
    if name == "size1":
        return bi("Mat.size1", lambda i, a, k: m.rows)
    if name == "size2":
        return bi("Mat.size2", lambda i, a, k: m.cols)
    if name == "shape":
        return (m.rows, m.cols)
    if name == "size":
        return bi("Mat.size", lambda i, a, k: (m.rows, m.cols) if not a else (m.rows if a[0] == 1 else m.cols))
    if name == "nz":
        return NZ(m)
    if name == "T":
        return ml.transpose(m)
    if name == "is_constant":
        return bi("Mat.is_constant", lambda i, a, k: m.const)
    if name in ("is_empty",):
        return bi("Mat.is_empty", lambda i, a, k: simp(to_z3(m.numel, I) == 0))
    if name == "is_symbolic":
        return bi("Mat.is_symbolic", lambda i, a, k: m.sid is not None)
    if name == "to_DM":
        def to_dm(i, a, k):
            if m.const is not True:
                raise Unsupported("to_DM of a possibly symbolic expression")
            return Mat("DM", m.rows, m.cols, m.el)
        return bi("MX.to_DM", to_dm)
    if name == "op":
        return bi("Mat.op", lambda i, a, k: opcode(i, m))
    if name == "dep":
        def dep(i, a, k):
            if m.deps is None:
                raise Unsupported("dep of an unknown expression")
            return m.deps[a[0]]
        return bi("Mat.dep", dep)
    if name == "reshape":
        def rs(i, a, k):
            sh = a[0] if isinstance(a[0], tuple) else tuple(a)
            if m.is_vec() and sh == (0, 1):
                return ml.empty(m.kind, 0, 1)
            return reshape(i, m, sh)
        return bi("Mat.reshape", rs)
    if name == "name":
        def nm(i, a, k):
            if m.sid is None or not (m.numel == 1):
                raise PyExc(RuntimeError, note="name of a non-symbol")
            return OpaqueStr(("name", z3.simplify(to_z3(m.sid(0), I)).sexpr()))
        return bi("Mat.name", nm)
    if name in ("full", "toarray"):
        raise Unsupported("conversion to numpy")
    raise Unsupported("matrix attribute %s" % name)


def reshape(it, m, sh):
    ctx = it.ctx
    r, c = sh
    if not ctx.branch(to_z3(mul_int(r, c), I) == to_z3(m.numel, I), "reshape"):
        raise PyExc(RuntimeError, note="reshape")
    rr = to_z3(r, I)

    def el(i, j):
        return m.at(add_int(mul_int(j, r), i))
    return Mat(m.kind, r, c, el, const=m.const)


OPCODES = {"OP_LT": 20, "OP_LE": 21, "OP_EQ": 22, "OP_NE": 23}


def opcode(it, m):
    if m.op is not None:
        return OPCODES.get(m.op, 1000)
    if m.sid is not None:
        return 37
    if m.boolean:
        raise Unsupported("op of a boolean expression")
    return 1000


def list_attr(it, l, name):
    ctx = it.ctx
    if name == "append":
        return bi("list.append", lambda i, a, k: list_append(i, l, a[0]))
    if name == "extend":
        return bi("list.extend", lambda i, a, k: list_extend(i, l, a[0]))
    if name == "copy":
        return bi("list.copy", lambda i, a, k: PyList(l.segs))
    if name == "reverse":
        def rev(i, a, k):
            items = l.items()
            if items is not None:
                l.segs = [One(x) for x in reversed(items)]
                return
            l.segs = [rev_seg(s) for s in reversed(l.segs)]
        return bi("list.reverse", rev)
    if name == "insert":
        def ins(i, a, k):
            items = l.items()
            if items is not None and isinstance(a[0], int):
                items.insert(a[0], a[1])
                l.segs = [One(x) for x in items]
                return
            if a[0] == 0:
                l.segs = [One(a[1])] + l.segs
                return
            raise Unsupported("list.insert")
        return bi("list.insert", ins)
    if name == "index":
        def idx(i, a, k):
            n = 0
            for s in l.segs:
                if isinstance(s, One):
                    e = compare(i, "Eq", s.value, a[0]) if not (a[0] is None) else compare(i, "Is", s.value, None)
                    if i.truth(e):
                        return n
                    n = add_int(n, 1)
                    continue
                if isinstance(s, MapSeg):
                    q = z3.Int(ctx.fresh_name("q"))
                    def eqk(kk):
                        v = s.fn(kk)
                        e = compare(i, "Is", v, None) if a[0] is None else equal(i, v, a[0])
                        return to_z3(e, B)
                    if ctx.branch(z3.Exists([q], z3.And(q >= 0, q < to_z3(s.n, I), eqk(q))), "list.index"):
                        j = ctx.fresh_int("j0")
                        ctx.assume(z3.And(j >= 0, j < to_z3(s.n, I), eqk(j), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < j), z3.Not(eqk(q))))))
                        return add_int(n, j)
                    n = add_int(n, s.n)
                    continue
                raise Unsupported("list.index")
            raise PyExc(ValueError, note="not in list")
        return bi("list.index", idx)
    if name == "pop":
        def pop(i, a, k):
            items = l.items()
            if items is None:
                raise Unsupported("list.pop")
            if not items:
                raise PyExc(IndexError)
            v = items.pop(*a)
            l.segs = [One(x) for x in items]
            return v
        return bi("list.pop", pop)
    if name == "remove":
        def rem(i, a, k):
            items = l.items()
            if items is None:
                raise Unsupported("list.remove")
            for j, x in enumerate(items):
                if i.truth(equal(i, x, a[0])):
                    del items[j]
                    l.segs = [One(x) for x in items]
                    return
            raise PyExc(ValueError)
        return bi("list.remove", rem)
    if name == "count":
        raise Unsupported("list.count")
    if name == "sort":
        def sort(i, a, k):
            l.segs = list(b_sorted(i, [PyList(l.segs)], k).segs)
        return bi("list.sort", sort)
    raise PyExc(AttributeError, note="list.%s" % name)


def rev_seg(s):
    if isinstance(s, One):
        return s
    if isinstance(s, MapSeg):
        return MapSeg(s.n, lambda k: s.fn(sub_int(sub_int(s.n, 1), k)))
    if isinstance(s, FilterSeg):
        f = lambda k: sub_int(sub_int(s.n, 1), k)
        return FilterSeg(s.n, lambda k: s.cond(f(k)), lambda k: s.fn(f(k)))
    if isinstance(s, ConcatSeg):
        def inner(k):
            l = s.inner(sub_int(sub_int(s.n, 1), k))
            return PyList([rev_seg(x) for x in reversed(l.segs)])
        return ConcatSeg(s.n, inner)
    raise Unsupported("reverse")


def dict_attr(it, d, name):
    if name in ("keys", "values", "items"):
        return bi("dict." + name, lambda i, a, k: view_list(i, DictView(d, name)))
    if name == "get":
        def get(i, a, k):
            c = contains(i, a[0], d)
            if i.truth(c):
                return dict_get(i, d, a[0])
            return a[1] if len(a) > 1 else k.get("default")
        return bi("dict.get", get)
    if name == "pop":
        def pop(i, a, k):
            if i.truth(contains(i, a[0], d)):
                v = dict_get(i, d, a[0])
                delitem(i, d, a[0])
                return v
            if len(a) > 1:
                return a[1]
            raise PyExc(KeyError)
        return bi("dict.pop", pop)
    if name == "update":
        def up(i, a, k):
            if a:
                dict_update(i, d, a[0])
            for kk, v in k.items():
                setitem(i, d, kk, v)
        return bi("dict.update", up)
    if name == "copy":
        return bi("dict.copy", lambda i, a, k: copy_dict(d))
    if name == "setdefault":
        def sd(i, a, k):
            if not i.truth(contains(i, a[0], d)):
                setitem(i, d, a[0], a[1] if len(a) > 1 else None)
            return dict_get(i, d, a[0])
        return bi("dict.setdefault", sd)
    raise PyExc(AttributeError, note="dict.%s" % name)


def copy_dict(d):
    n = PyDict(d.d)
    n.rng, n.om = d.rng, list(d.om)
    return n


def str_attr(it, s, name):
    if name == "format":
        return bi("str.format", lambda i, a, k: OpaqueStr(("format", str_key(s)) + tuple(str_key(x) for x in a)))
    if isinstance(s, str):
        if name in ("lower", "upper", "strip", "split", "startswith", "endswith", "replace", "join", "center", "isdigit"):
            def f(i, a, k):
                if name == "join":
                    items = i.concrete_items(a[0])
                    if items is None or not all(isinstance(x, str) for x in items):
                        return OpaqueStr("join")
                    return s.join(items)
                if all(isinstance(x, (str, int)) for x in a):
                    r = __builtins__["getattr"](s, name)(*a) if isinstance(__builtins__, dict) else __builtins__.getattr(s, name)(*a)
                    return PyList.of(r) if isinstance(r, list) else r
                raise Unsupported("str." + name)
            return bi("str." + name, f)
    if isinstance(s, OpaqueStr):
        raise Unsupported("method of an unknown string")
    raise PyExc(AttributeError, note="str.%s" % name)


# ------------------------------------------------------------------------------------- constructors
def shape_args(it, args):
    if not args:
        return 1, 1
    if len(args) == 1:
        if isinstance(args[0], tuple):
            return args[0]
        return args[0], 1
    return args[0], args[1]


def castype_attr(it, t, name):
    if name == "sym":
        def sym(i, a, k):
            r, c = shape_args(i, a[1:])
            return ml.fresh_sym(i.ctx, t.kind, a[0], r, c)
        return bi("casadi.%s.sym" % t.kind, sym)
    if name in ("inf", "zeros", "ones"):
        v = {"inf": float("inf"), "zeros": 0, "ones": 1}[name]
        return bi("casadi.%s.%s" % (t.kind, name), lambda i, a, k: ml.full(t.kind, *shape_args(i, a), v))
    if name == "eye":
        def eye(i, a, k):
            return Mat(t.kind, a[0], a[0], lambda r, c: z3.simplify(z3.If(to_z3(r, I) == to_z3(c, I), z3.RealVal(1), z3.RealVal(0))), const=True)
        return bi("casadi.%s.eye" % t.kind, eye)
    if name == "__name__":
        return t.kind
    raise Unsupported("casadi.%s.%s" % (t.kind, name))


def construct(it, t, args, kwargs):
    ctx = it.ctx
    if any(isinstance(a, StarSym) for a in args):
        raise Unsupported("constructor with symbolic star")
    if kwargs:
        raise Unsupported("constructor keywords")
    if not args:
        return ml.empty(t.kind, 0, 0)
    if len(args) == 1:
        a = args[0]
        if a is None:
            raise PyExc(NotImplementedError)
        if isinstance(a, Mat):
            if t.kind == "DM" and a.kind != "DM":
                if a.const is True:
                    return Mat("DM", a.rows, a.cols, a.el)
                raise PyExc(NotImplementedError, note="DM of a symbolic")
            if {t.kind, a.kind} == {"SX", "MX"}:
                raise PyExc(NotImplementedError)
            if a.kind == t.kind:
                if a.kind != "DM":
                    return a
                return Mat(a.kind, a.rows, a.cols, a.el, sid=a.sid, segs=a.segs, const=a.const)
            return Mat(t.kind, a.rows, a.cols, a.el, sid=None, segs=None, const=a.const)
        if isinstance(a, PyList):
            items = a.items()
            if items is not None and all(is_numv(x) for x in items):
                return ml.list_to_dm(items, t.kind)
            if items is None and all(isinstance(s, One) and is_numv(s.value) or isinstance(s, MapSeg) and is_numv(s.fn(z3.Int("CANON_IDX"))) for s in a.segs):
                return ml.vertcat(ctx, [ml.as_mat(ctx, s.value) if isinstance(s, One) else ml.map_to_vec(ctx, s) for s in a.segs])
            if items is not None and t.kind == "DM" and all(is_numv(x) or isinstance(x, Mat) and x.kind == "DM" and x.rows == 1 and x.cols == 1 for x in items):
                return ml.vertcat(ctx, [ml.as_mat(ctx, x) for x in items])
            raise Unsupported("matrix from a list")
        if is_numv(a):
            return ml.scalar(t.kind, to_z3(a, R), const=True)
        if isinstance(a, SymRange) or isinstance(a, range):
            items = it.concrete_items(a)
            if items is not None:
                return ml.list_to_dm(items, t.kind)
        raise Unsupported("%s(%r)" % (t.kind, a))
    if len(args) == 2 and all(isinstance(x, int) or is_z3(x) for x in args):
        return ml.full(t.kind, args[0], args[1], 0)
    raise Unsupported("%s with %d arguments" % (t.kind, len(args)))


def call_function(it, f, args, kwargs):
    ctx = it.ctx
    if kwargs and not f.in_names:
        raise Unsupported("Function keywords")
    if kwargs:
        raise Unsupported("Function keywords")
    if len(args) != len(f.ins):
        raise PyExc(RuntimeError, note="wrong number of function inputs")
    args = [ml.as_mat(ctx, a if not isinstance(a, PyList) else list_to_mat(it, a)) for a in args]
    olds, news = [], []
    for x, a in zip(f.ins, args):
        if x.numel == 0:
            continue
        ok = z3.Or(to_z3(a.numel, I) == to_z3(x.numel, I), to_z3(a.numel, I) == 1)
        if not ctx.branch(ok, "function input size"):
            if ctx.branch(to_z3(a.numel, I) == 0, "empty function input"):
                # casadi reads an empty argument as zeros
                a = ml.full("DM", x.rows, 1, 0)
            else:
                raise Unsupported("function input size (map or error)")
        olds.append(ml.vec(ctx, x))
        if a.numel == 1 and x.numel != 1:
            a = ml.repmat(ctx, a, x.numel)
        elif not ctx.must(to_z3(a.numel, I) == to_z3(x.numel, I)):
            a = ml.repmat(ctx, a, x.numel)
        news.append(ml.vec(ctx, a))
    if not olds:
        kind = join_kind(*[a.kind for a in args]) if args else "DM"
        outs = [o if o.kind == kind else Mat(kind, o.rows, o.cols, o.el, const=o.const) for o in f.outs]
    else:
        old, new = ml.vertcat(ctx, olds), ml.vertcat(ctx, news)
        kind = join_kind(*[a.kind for a in args]) if args else "DM"
        g = ml.substitution(ctx, old, new)
        outs = [Mat(kind, o.rows, o.cols, ml.remembered(lambda r, c, o=o: g(o.el(r, c))), const=kind == "DM") for o in f.outs]
    return outs[0] if len(outs) == 1 else tuple(outs)


def list_to_mat(it, l):
    items = l.items()
    if items is not None and all(is_numv(x) for x in items):
        return ml.list_to_dm(items)
    raise Unsupported("list as a matrix")


# ------------------------------------------------------------------------------------------ casadi
def expand_mats(it, args):
    """Arguments of vertcat/horzcat, possibly with a symbolic star."""
    out = []
    for a in args:
        if isinstance(a, StarSym):
            v = a.value
            if not isinstance(v, PyList):
                v = PyList(it.iter_segs(v))
            out.append(ml.symlist_to_vec(it.ctx, v))
        elif isinstance(a, PyList):
            items = a.items()
            if items is not None and all(is_numv(x) for x in items):
                out.append(ml.list_to_dm(items))
            elif items is None and all(isinstance(s, MapSeg) and is_numv(s.fn(z3.Int("CANON_IDX"))) for s in a.segs):
                out.append(ml.symlist_to_vec(it.ctx, a))
            elif items is not None and len(args) == 1:
                raise PyExc(NotImplementedError, note="vertcat of a list of matrices")
            else:
                raise Unsupported("vertcat of a list")
        elif a is None:
            raise PyExc(NotImplementedError, note="vertcat of None")
        elif isinstance(a, Opt):
            raise Unsupported("vertcat of an optional")
        else:
            out.append(a)
    return out


def c_vertcat(it, a, k):
    if len(a) == 1 and isinstance(a[0], PyList) and a[0].items() == []:
        return ml.empty("DM", 0, 0)
    return ml.vertcat(it.ctx, expand_mats(it, a))


def c_horzcat(it, a, k):
    if any(isinstance(x, StarSym) for x in a):
        if len(a) == 1:
            l = a[0].value
            segs = it.iter_segs(l)
            mats = []
            for s in segs:
                if isinstance(s, One):
                    mats.append(ml.as_mat(it.ctx, s.value))
                elif isinstance(s, MapSeg):
                    p = ml.as_mat(it.ctx, s.fn(z3.Int("CANON_IDX")))
                    if not p.is_vec():
                        raise Unsupported("horzcat")
                    if is_z3(p.rows) and occurs(z3.Int("CANON_IDX"), p.rows):
                        raise Unsupported("horzcat of columns of different sizes")
                    if ml.zero_int(it.ctx, s.n):
                        continue
                    mats.append(Mat(p.kind, p.rows, s.n, lambda r, c, s=s: ml.as_mat(it.ctx, s.fn(c)).el(r, 0), const=p.const))
                else:
                    raise Unsupported("horzcat")
            return ml.horzcat(it.ctx, mats)
        raise Unsupported("horzcat of a symbolic list")
    return ml.horzcat(it.ctx, expand_mats(it, a))


def c_repmat(it, a, k):
    return ml.repmat(it.ctx, a[0], *a[1:])


def c_Function(it, a, k):
    ins = it.concrete_items(a[1]) if len(a) > 1 else None
    outs = it.concrete_items(a[2]) if len(a) > 2 else None
    if ins is None or outs is None:
        raise Unsupported("Function")
    ins = [ml.as_mat(it.ctx, x) for x in ins]
    outs = [ml.as_mat(it.ctx, x) for x in outs]
    for x in ins:
        if x.sid is None and not (isinstance(x.numel, int) and x.numel == 0):
            raise Unsupported("Function input is not symbolic")
    nm = [it.concrete_items(x) for x in a[3:5]]
    return CasFunction(a[0], ins, outs, *(nm if len(nm) == 2 else (None, None)))


def unary(name):
    def f(it, a, k):
        if len(a) == 1 and isinstance(a[0], Mat):
            u = ml.unary_uf(name)
            m = a[0]
            return Mat(m.kind, m.rows, m.cols, lambda r, c: u(m.el(r, c)), const=m.const)
        raise Unsupported(name)
    return f


def radau_points(degree, kind="radau"):
    """The numbers of casadi's table, exactly."""
    import casadi
    from fractions import Fraction
    return [z3.RealVal(str(Fraction(v))) for v in casadi.collocation_points(degree, kind)]


def c_collocation_points(it, a, k):
    """A table of casadi's: looked up in the installed casadi for every degree that is known."""
    degree = a[0] if a else k.get("order")
    kind = a[1] if len(a) > 1 else k.get("scheme", "radau")
    if isinstance(degree, bool) or not isinstance(degree, int) or not isinstance(kind, str):
        raise Unsupported("collocation points of a degree that is not known")
    try:
        return PyList.of(radau_points(degree, kind))
    except Exception:
        raise PyExc(RuntimeError)


def c_vertsplit(it, a, k):
    m = ml.as_mat(it.ctx, a[0])
    if len(a) > 1 and a[1] != 1:
        raise Unsupported("vertsplit")
    row = lambda i: Mat(m.kind, 1, m.cols, lambda r, c: m.el(i, c), const=m.const)
    return PyList([One(row(i)) for i in range(m.rows)] if isinstance(m.rows, int) else [MapSeg(m.rows, row)])


def c_fabs(it, a, k):
    m = ml.as_mat(it.ctx, a[0])
    if m.kind != "DM":
        return unary("fabs")(it, [m], {})
    return Mat(m.kind, m.rows, m.cols, lambda r, c: z3.If(m.el(r, c) >= 0, m.el(r, c), -m.el(r, c)), const=m.const)


def minmax(name):
    def f(it, a, k):
        x, y = [ml.as_mat(it.ctx, v) for v in a]
        if x.kind == "DM" and y.kind == "DM":
            g = (lambda p, q: z3.If(p <= q, p, q)) if name == "fmin" else (lambda p, q: z3.If(p >= q, p, q))
        else:
            u = ml.uf(name, R, R, R)
            g = lambda p, q: u(p, q)
        return ml.elementwise(it.ctx, x, y, g)
    return f


CASADI = {
    "DM": DM, "MX": MX, "SX": SX, "inf": float("inf"), "pi": 3.141592653589793,
    "vertcat": bi("casadi.vertcat", c_vertcat),
    "horzcat": bi("casadi.horzcat", c_horzcat),
    "repmat": bi("casadi.repmat", c_repmat),
    "densify": bi("casadi.densify", lambda it, a, k: ml.as_mat(it.ctx, a[0])),
    "vec": bi("casadi.vec", lambda it, a, k: ml.vec(it.ctx, a[0])),
    "depends_on": bi("casadi.depends_on", lambda it, a, k: ml.depends_on(it.ctx, a[0], a[1])),
    "is_equal": bi("casadi.is_equal", lambda it, a, k: ml.is_equal(it.ctx, *a)),
    "substitute": bi("casadi.substitute", lambda it, a, k: ml.substitute(it.ctx, *a)),
    "mtimes": bi("casadi.mtimes", lambda it, a, k: ml.mtimes(it.ctx, *a)),
    "dot": bi("casadi.dot", lambda it, a, k: ml.dot(it.ctx, *a)),
    "gradient": bi("casadi.gradient", lambda it, a, k: ml.gradient(it.ctx, *a)),
    "jacobian": bi("casadi.jacobian", lambda it, a, k: ml.jacobian(it.ctx, *a)),
    "Function": bi("casadi.Function", c_Function),
    "OP_LT": OPCODES["OP_LT"], "OP_LE": OPCODES["OP_LE"], "OP_EQ": OPCODES["OP_EQ"], "OP_NE": OPCODES["OP_NE"],
    "sin": bi("casadi.sin", unary("sin")), "cos": bi("casadi.cos", unary("cos")), "exp": bi("casadi.exp", unary("exp")),
    "sqrt": bi("casadi.sqrt", unary("sqrt")),
    "diag": bi("casadi.diag", lambda it, a, k: ml.diag(it.ctx, a[0])),
    "chol": bi("casadi.chol", lambda it, a, k: ml.chol(it.ctx, *a)), "solve": bi("casadi.solve", lambda it, a, k: ml.solve(it.ctx, *a)), "inv": bi("casadi.inv", lambda it, a, k: ml.inv(it.ctx, *a)),
    "diagcat": bi("casadi.diagcat", lambda it, a, k: ml.diagcat(it.ctx, a)),
    "vertsplit": bi("casadi.vertsplit", c_vertsplit),
    "fabs": bi("casadi.fabs", c_fabs), "fmin": bi("casadi.fmin", minmax("fmin")), "fmax": bi("casadi.fmax", minmax("fmax")),
    "collocation_points": bi("casadi.collocation_points", c_collocation_points),
    "reshape": bi("casadi.reshape", lambda it, a, k: reshape(it, ml.as_mat(it.ctx, a[0]), a[1] if isinstance(a[1], tuple) else tuple(a[1:]))),
    "mmax": bi("casadi.mmax", lambda it, a, k: ml.mmax(it.ctx, a[0])),
}
CASADI_OPAQUE = ["nlpsol", "qpsol", "rootfinder", "integrator", "external", "horzsplit",
                 "blockcat", "sum1", "sum2", "norm_2", "if_else", "Callback", "Sparsity", "symvar", "collocation_coeff", "collocation_interpolators", "StringSerializer",
                 "StringDeserializer", "det", "expand", "tril", "triu", "kron", "DaeBuilder", "conic", "hessian", "gt", "ge", "le", "lt"]


# ---------------------------------------------------------------------------------------- builtins
def b_isinstance(it, a, k):
    return isinst(it, a[0], a[1])


def isinst(it, v, t):
    if isinstance(t, tuple):
        return any_true([isinst(it, v, x) for x in t])
    if isinstance(t, PyList):
        raise PyExc(TypeError)
    if isinstance(v, Opt):
        if isinstance(t, CasType):
            inner = isinst(it, v.value, t)
            return simp(z3.And(to_z3(v.present, B), to_z3(inner, B)))
        raise Unsupported("isinstance of an optional")
    if isinstance(t, CasType):
        return isinstance(v, Mat) and v.kind == t.kind
    if isinstance(t, RepoClass):
        return isinstance(v, Obj) and t in v.cls.mro()
    if isinstance(t, PyType):
        n = t.name
        if n == "bool":
            return isinstance(v, bool) or (is_z3(v) and v.sort() == B)
        if n == "int":
            return isinstance(v, int) or (is_z3(v) and v.sort() in (I, B))
        if n == "float":
            return isinstance(v, float) or (is_z3(v) and v.sort() == R)
        if n == "str":
            return isinstance(v, (str, OpaqueStr))
        if n == "list":
            return isinstance(v, PyList)
        if n == "dict":
            return isinstance(v, PyDict)
        if n == "tuple":
            return isinstance(v, tuple)
        if n == "set":
            return isinstance(v, PySet)
        if n == "object":
            return True
    if isinstance(t, Opaque) and t.name in ("collections.abc.Sequence", "typing.Sequence"):
        return isinstance(v, (PyList, tuple, str, OpaqueStr))
    if isinstance(t, Opaque) and t.name.endswith("EqualityEquation"):
        return False
    if isinstance(t, type) and issubclass(t, BaseException):
        return isinstance(v, ExcObj) and it.exc_match(v.cls, t)
    raise Unsupported("isinstance(%r, %r)" % (v, t))


def b_range(it, a, k):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    for x in a:
        if not (isinstance(x, int) or (is_z3(x) and x.sort() == I)):
            raise PyExc(TypeError, note="range")
    if len(a) == 1:
        return SymRange(0, a[0])
    return SymRange(*a)


def b_enumerate(it, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    items = it.concrete_items(as_iter(it, a[0]))
    if items is not None:
        return PyList.of([(add_int(i, start), x) for i, x in enumerate(items)])
    n, get = it.indexable(as_iter(it, a[0]))
    return PyList([MapSeg(n, lambda q: (add_int(q, start), get(q)))])


def b_zip(it, a, k):
    if any(isinstance(x, StarSym) for x in a):
        segs = it.iter_segs(a[0].value) if len(a) == 1 else []
        if len(segs) != 1 or not isinstance(segs[0], MapSeg) or not isinstance(segs[0].fn(z3.Int("CANON_IDX")), tuple):
            raise Unsupported("zip(*symbolic)")
        s = segs[0]
        if ml.zero_int(it.ctx, s.n):
            return PyList([])
        return PyList.of([PyList([MapSeg(s.n, lambda q, j=j: s.fn(q)[j])]) for j in range(len(s.fn(z3.Int("CANON_IDX"))))])
    cols = [it.concrete_items(as_iter(it, x)) for x in a]
    if all(c is not None for c in cols):
        return PyList.of([tuple(x) for x in zip(*cols)])
    pairs = [it.indexable(as_iter(it, x)) for x in a]
    n = pairs[0][0]
    for m, _ in pairs[1:]:
        if same_ident(m, n) or it.ctx.must(to_z3(m, I) == to_z3(n, I)):
            if is_z3(n) and not is_z3(m):
                n = m
            continue
        n = simp(z3.If(to_z3(m, I) < to_z3(n, I), to_z3(m, I), to_z3(n, I)))
    if isinstance(n, int):
        return PyList.of([tuple(g(q) for _, g in pairs) for q in range(n)])
    return PyList([MapSeg(n, lambda q: tuple(g(q) for _, g in pairs))])


def b_any(it, a, k, neg=False):
    """any(); with neg, all()."""
    ctx = it.ctx
    conds = []
    for s in it.iter_segs(as_iter(it, a[0])):
        if isinstance(s, One):
            t = it.truth_term(s.value)
            conds.append(negate(t) if neg else t)
            continue
        q = z3.Int(ctx.fresh_name("q"))
        rng = z3.And(q >= 0, q < to_z3(s.n, I))
        if isinstance(s, FilterSeg):
            rng = z3.And(rng, to_z3(s.cond(q), B))
        elif not isinstance(s, MapSeg):
            raise Unsupported("any over a nested list")
        t = it.truth_term(s.fn(q))
        t = negate(t) if neg else t
        conds.append(simp(z3.Exists([q], z3.And(rng, to_z3(t, B)))))
    r = any_true(conds)
    return negate(r) if neg else r


def b_sum(it, a, k):
    ctx = it.ctx
    acc = a[1] if len(a) > 1 else k.get("start", 0)
    for s in it.iter_segs(as_iter(it, a[0])):
        if isinstance(s, One):
            acc = it.binop("Add", acc, s.value)
            continue
        if not isinstance(s, MapSeg):
            raise Unsupported("sum over a filtered list")
        p = s.fn(z3.Int("CANON_IDX"))
        if is_numv(p):
            if num_sort(p) == I:
                raise Unsupported("integer sum")
            acc = it.binop("Add", acc, sum_term(ctx, s.n, lambda q: to_z3(s.fn(q), R)))
        elif isinstance(p, Mat):
            m = Mat(p.kind, p.rows, p.cols, lambda r, c, s=s: sum_term(ctx, s.n, lambda q: s.fn(q).el(r, c)))
            if is_z3(p.rows) and occurs(z3.Int("CANON_IDX"), p.rows):
                raise Unsupported("sum of varying shapes")
            acc = it.binop("Add", acc, m)
        else:
            raise Unsupported("sum")
    return acc


def minmax(name):
    def f(it, a, k):
        if k:
            raise Unsupported(name + " with key")
        items = it.concrete_items(as_iter(it, a[0])) if len(a) == 1 else list(a)
        ctx = it.ctx
        if items is None:
            l = as_iter(it, a[0])
            n = length(it, l)
            if not ctx.branch(to_z3(n, I) > 0, name + " of empty"):
                raise PyExc(ValueError, note=name)
            m = ctx.fresh_int("unk")
            q = z3.Int(ctx.fresh_name("q"))
            # m is one of the items and bounds all of them
            ctx.assume(to_z3(contains(it, m, l), B))
            for s in it.iter_segs(l):
                if isinstance(s, One):
                    v = to_z3(s.value, I)
                    ctx.assume(v <= m if name == "max" else v >= m)
                elif isinstance(s, (MapSeg, FilterSeg)):
                    rng = z3.And(q >= 0, q < to_z3(s.n, I))
                    if isinstance(s, FilterSeg):
                        rng = z3.And(rng, to_z3(s.cond(q), B))
                    v = to_z3(s.fn(q), I)
                    ctx.assume(z3.ForAll([q], z3.Implies(rng, v <= m if name == "max" else v >= m)))
                else:
                    p = z3.Int(ctx.fresh_name("q"))
                    inner = s.inner(p)
                    for x in inner.segs:
                        if isinstance(x, One):
                            v, rng = to_z3(x.value, I), z3.And(p >= 0, p < to_z3(s.n, I))
                            ctx.assume(z3.ForAll([p], z3.Implies(rng, v <= m if name == "max" else v >= m)))
                        else:
                            rng = z3.And(p >= 0, p < to_z3(s.n, I), q >= 0, q < to_z3(x.n, I))
                            if isinstance(x, FilterSeg):
                                rng = z3.And(rng, to_z3(x.cond(q), B))
                            v = to_z3(x.fn(q), I)
                            ctx.assume(z3.ForAll([p, q], z3.Implies(rng, v <= m if name == "max" else v >= m)))
            return m
        if not items:
            raise PyExc(ValueError, note=name)
        if all(isinstance(x, (int, float)) for x in items):
            return max(items) if name == "max" else min(items)
        if all(is_numv(x) for x in items):
            s = num_sort(*items)
            t = to_z3(items[0], s)
            for x in items[1:]:
                y = to_z3(x, s)
                t = z3.If(y > t, y, t) if name == "max" else z3.If(y < t, y, t)
            return simp(t)
        raise Unsupported(name)
    return f


def b_list(it, a, k):
    if not a:
        return PyList()
    return PyList(it.iter_segs(as_iter(it, a[0])))


def b_tuple(it, a, k):
    if not a:
        return ()
    items = it.concrete_items(as_iter(it, a[0]))
    if items is None:
        raise Unsupported("tuple of symbolic length")
    return tuple(items)


def b_dict(it, a, k):
    d = PyDict()
    if a:
        if isinstance(a[0], PyDict):
            d = copy_dict(a[0])
        else:
            for s in it.iter_segs(as_iter(it, a[0])):
                if isinstance(s, One):
                    kk, v = s.value
                    setitem(it, d, kk, v)
                elif isinstance(s, MapSeg):
                    p = s.fn(z3.Int("CANON_IDX"))
                    if isinstance(p[0], Mat):
                        om_update_block(it, d, KMap(s.n, lambda q, s=s: s.fn(q)[0], lambda q, s=s: s.fn(q)[1]))
                    else:
                        raise Unsupported("dict of a symbolic list")
                else:
                    raise Unsupported("dict of a filtered list")
    for kk, v in k.items():
        setitem(it, d, kk, v)
    return d


def b_set(it, a, k):
    if not a:
        return PySet([])
    items = it.concrete_items(as_iter(it, a[0]))
    if items is None:
        return range_set(it, it.iter_segs(as_iter(it, a[0])))
    return make_set(it, items)


def b_getattr(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with an unknown name")
    try:
        return it.getattr(a[0], a[1])
    except PyExc as e:
        if len(a) > 2 and e.cls is AttributeError:
            return a[2]
        raise


def b_hasattr(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyExc as e:
        if e.cls is AttributeError:
            return False
        raise


def b_setattr(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("setattr with an unknown name")
    it.setattr(a[0], a[1], a[2])


def b_callable(it, a, k):
    v = a[0]
    if v is None or isinstance(v, (int, float, str, Mat, PyList, PyDict, tuple)):
        return False
    return isinstance(v, (RepoFunc, RepoClass, Bound, Builtin, Lambda, CasFunction, CasType, type)) or (isinstance(v, Obj) and v.cls.lookup("__call__") is not None)


def b_len(it, a, k):
    return length(it, a[0])


def b_abs(it, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if is_z3(v):
        return simp(z3.If(v >= 0, v, -v))
    raise Unsupported("abs")


def b_int(it, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return int(v)
    if is_z3(v) and v.sort() == I:
        return v
    raise Unsupported("int()")


def b_float(it, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, str):
        return float(v)
    if is_z3(v):
        return to_z3(v, R)
    if isinstance(v, Mat) and v.numel == 1 and v.kind == "DM":
        return v.el(0, 0)
    raise Unsupported("float()")


def b_str(it, a, k):
    if not a:
        return ""
    if isinstance(a[0], str):
        return a[0]
    if isinstance(a[0], (int, float)):
        return str(a[0])
    return OpaqueStr(("str", str_key(a[0])))


def b_type(it, a, k):
    v = a[0]
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Mat):
        return {"DM": DM, "MX": MX, "SX": SX}[v.kind]
    for cls, n in ((bool, "bool"), (int, "int"), (float, "float"), (str, "str"), (tuple, "tuple"), (PyList, "list"), (PyDict, "dict"), (PySet, "set")):
        if isinstance(v, cls):
            return BUILTINS[n]
    raise Unsupported("type()")


def b_reversed(it, a, k):
    items = it.concrete_items(as_iter(it, a[0]))
    if items is not None:
        return PyList.of(items[::-1])
    segs = it.iter_segs(as_iter(it, a[0]))
    return PyList([rev_seg(s) for s in reversed(segs)])


def b_sorted(it, a, k):
    items = it.concrete_items(as_iter(it, a[0]))
    if items is not None and not k and all(isinstance(x, (int, float)) for x in items):
        return PyList.of(sorted(items))
    if items is not None and not k and all(isinstance(x, str) for x in items):
        return PyList.of(sorted(items))
    key = k.get("key")
    if set(k) - {"key", "reverse"} or ("reverse" in k and not isinstance(k["reverse"], bool)):
        raise Unsupported("sorted")
    if items is not None:
        if len(items) < 2:
            return PyList.of(items)
        ks = [it.call(key, [x], {}) if key is not None else x for x in items]
        ks = [x.at(0) if isinstance(x, Mat) and x.kind == "DM" and x.numel == 1 else x for x in ks]
        if all(isinstance(x, str) for x in ks) or all(isinstance(x, (int, float)) for x in ks):
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=k.get("reverse", False))
            return PyList.of([items[i] for i in order])
        diffs = [z3.simplify(to_z3(x, R) - to_z3(ks[0], R)) for x in ks] if all(is_numv(x) for x in ks) else []
        if diffs and all(is_num(x) for x in diffs):
            order = sorted(range(len(items)), key=lambda i: diffs[i].as_fraction(), reverse=k.get("reverse", False))
            return PyList.of([items[i] for i in order])
        if not all(is_numv(x) for x in ks) or len(ks) > 4:
            raise Unsupported("sorted of a list of known length")
        order = []
        for i in range(len(items)):  # stable insertion: the position is before the first key that is larger (smaller when reversed)
            at = len(order)
            while at > 0:
                p, q = to_z3(ks[order[at - 1]], R), to_z3(ks[i], R)
                if not it.ctx.branch(p < q if k.get("reverse", False) else q < p, "sorted"):
                    break
                at -= 1
            order.insert(at, i)
        return PyList.of([items[i] for i in order])
    segs = it.iter_segs(as_iter(it, a[0]))
    if len(segs) != 1 or not isinstance(segs[0], MapSeg):
        raise Unsupported("sorted")
    s = segs[0]
    by = lambda q: number_of(it, it.call(key, [s.fn(q)], {}) if key is not None else s.fn(q))
    f = ml.sort_perm(it.ctx, s.n, by, bool(k.get("reverse", False)))
    return PyList([MapSeg(s.n, lambda q: s.fn(f(to_z3(q, I))))])


def number_of(it, v):
    if isinstance(v, Mat):
        if not (v.kind == "DM" and v.numel == 1):
            raise Unsupported("order of matrices")
        v = v.el(0, 0)
    if is_numv(v):
        return to_z3(v, R)
    raise Unsupported("order of %r" % (v,))


def b_map(it, a, k):
    items = it.concrete_items(as_iter(it, a[1]))
    if items is None or len(a) > 2:
        raise Unsupported("map")
    return PyList.of([it.call(a[0], [x], {}) for x in items])


class TypeCtor(PyType):
    def __init__(self, name, fn):
        super().__init__(name)
        self.fn = fn


BUILTINS = {}


def _b():
    fs = {"isinstance": b_isinstance, "range": b_range, "enumerate": b_enumerate, "zip": b_zip,
          "any": b_any, "all": lambda it, a, k: b_any(it, a, k, neg=True), "sum": b_sum, "max": minmax("max"), "min": minmax("min"),
          "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr, "callable": b_callable, "len": b_len, "abs": b_abs,
          "print": lambda it, a, k: None, "type": b_type, "reversed": b_reversed, "sorted": b_sorted, "map": b_map,
          "id": lambda it, a, k: (_ for _ in ()).throw(Unsupported("id()")),
          "vars": lambda it, a, k: (_ for _ in ()).throw(Unsupported("vars()")),
          "repr": lambda it, a, k: OpaqueStr(("repr", str_key(a[0])))}
    for n, f in fs.items():
        BUILTINS[n] = bi(n, f)
    for n, f in {"list": b_list, "tuple": b_tuple, "dict": b_dict, "set": b_set, "int": b_int, "float": b_float, "str": b_str,
                 "bool": lambda it, a, k: it.truth_term(a[0]) if a else False}.items():
        BUILTINS[n] = CallableType(n, f)
    BUILTINS["object"] = PyType("object")
    import builtins
    for n in dir(builtins):
        v = builtins.__dict__[n]
        if isinstance(v, type) and issubclass(v, BaseException):
            BUILTINS[n] = v
    BUILTINS["NotImplemented"] = Opaque("NotImplemented")


class CallableType(Builtin, PyType):
    def __init__(self, name, fn):
        Builtin.__init__(self, name, fn)


_b()


def builtin(name):
    return BUILTINS.get(name)


# ----------------------------------------------------------------------------------------- modules
def ext_copy(it, a, k):
    v = a[0]
    if isinstance(v, Obj):
        if v.cls.lookup("__copy__") or v.cls.lookup("__getstate__") or v.cls.lookup("__reduce__"):
            raise Unsupported("custom copy")
        o = Obj(v.cls)
        o.attrs = dict(v.attrs)
        return o
    if isinstance(v, PyList):
        return PyList(v.segs)
    if isinstance(v, PyDict):
        return copy_dict(v)
    if v is None or isinstance(v, (int, float, str, tuple, Mat)) or is_z3(v):
        return v
    raise Unsupported("copy.copy")


def ext_deepcopy(it, a, k, memo=None):
    memo = {} if memo is None else memo
    v = a[0]
    if id(v) in memo:
        return memo[id(v)]
    if v is None or isinstance(v, (int, float, str, OpaqueStr)) or is_z3(v):
        return v
    if isinstance(v, Mat):
        return clone(v)
    if isinstance(v, tuple):
        return tuple(ext_deepcopy(it, [x], {}, memo) for x in v)
    if isinstance(v, PyList):
        items = v.items()
        if items is None:
            return PyList(v.segs)
        n = PyList()
        memo[id(v)] = n
        n.segs = [One(ext_deepcopy(it, [x], {}, memo)) for x in items]
        return n
    if isinstance(v, PyDict):
        n = copy_dict(v)
        memo[id(v)] = n
        n.d = {kk: ext_deepcopy(it, [x], {}, memo) for kk, x in n.d.items()}
        return n
    if isinstance(v, Obj) and v.cls.lookup("__deepcopy__") is None and v.cls.lookup("__reduce__") is None and v.cls.lookup("__getstate__") is None:
        n = Obj(v.cls)
        memo[id(v)] = n
        for kk, x in v.attrs.items():
            n.attrs[kk] = ext_deepcopy(it, [x], {}, memo)
        return n
    raise Unsupported("copy.deepcopy of %r" % (type(v).__name__,))


FOREVER = 1000          # an endless iterator is followed so far; the contracts stop the loops over it long before


def ext_islice(it, a, k):
    l = PyList(it.iter_segs(as_iter(it, a[0])))
    s = slice(None, a[1]) if len(a) == 2 else slice(a[1], a[2])
    return list_get(it, l, s)


def ext_chain(it, a, k):
    segs = []
    for x in a:
        segs.extend(it.iter_segs(as_iter(it, x)))
    return PyList(segs)


def ext_reduce(it, a, k):
    items = it.concrete_items(as_iter(it, a[1]))
    if items is None:
        raise Unsupported("reduce")
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = it.call(a[0], [acc, x], {})
    return acc


NOOP = lambda it, a, k: None


def has(mod, name):
    if mod == "casadi":
        return name in CASADI or name in CASADI_OPAQUE
    return False


def get(mod, name):
    if mod == "casadi":
        if name in CASADI:
            return CASADI[name]
        return Opaque("casadi." + name)
    if mod == "copy":
        return {"copy": bi("copy.copy", ext_copy), "deepcopy": bi("copy.deepcopy", ext_deepcopy)}.get(name, Opaque("copy." + name))
    if mod == "warnings":
        return bi("warnings." + name, NOOP)
    if mod in ("abc",) or mod.startswith("abc."):
        return Opaque("abc." + name)
    if mod == "collections" and name == "defaultdict":
        def dd(it, a, k):
            d = b_dict(it, a[1:], k)
            d.default = a[0] if a else None
            return d
        return bi("collections.defaultdict", dd)
    if mod == "collections" and name == "abc":
        return ExtModule("collections.abc")
    if mod == "collections.abc":
        return Opaque("collections.abc." + name)
    if mod == "itertools":
        return {"islice": bi("itertools.islice", ext_islice), "chain": bi("itertools.chain", ext_chain),
                "count": bi("itertools.count", lambda it, a, k: range(a[0] if a else 0, (a[0] if a else 0) + FOREVER))}.get(name, Opaque("itertools." + name))
    if mod == "numpy" and name == "random":
        return ExtModule("numpy.random")
    if mod == "numpy.random" and name == "rand":
        def rand(it, a, k):
            f = it.ctx.fresh_fun("rand", I, I, R)
            return Mat("DM", a[0] if a else 1, a[1] if len(a) > 1 else 1, lambda r, c: f(to_z3(r, I), to_z3(c, I)))
        return bi("numpy.random.rand", rand)
    if mod == "functools":
        if name == "partial":
            return bi("functools.partial", lambda it, a, k: bi("partial", lambda it, b, kk, a=list(a), k=dict(k): it.call(a[0], a[1:] + list(b), dict(k, **kk))))
        return {"reduce": bi("functools.reduce", ext_reduce)}.get(name, Opaque("functools." + name))
    if mod == "contextlib":
        if name == "suppress":
            return bi("contextlib.suppress", lambda it, a, k: ExcSuppress(list(a)))
        return Opaque("contextlib." + name)
    if mod == "typing":
        if name == "TypeVar":
            return bi("typing.TypeVar", lambda it, a, k: Opaque("TypeVar"))
        return Opaque("typing." + name)
    if mod == "logging":
        return bi("logging." + name, lambda it, a, k: Opaque("logger"))
    if mod == "time" and name in ("time", "perf_counter", "monotonic"):
        return bi("time." + name, lambda it, a, k: it.ctx.fresh_real("clock"))
    if mod == "math":
        import math
        v = math.__dict__.get(name)
        if isinstance(v, float):
            return v
        if name == "factorial":
            def factorial(it, a, k):
                n = a[0]
                if not isinstance(n, int):
                    raise Unsupported("math.factorial of an unknown number")
                if n < 0:
                    raise PyExc(ValueError, note="factorial() not defined for negative values")
                return math.factorial(n)
            return bi("math.factorial", factorial)
    return Opaque(mod + "." + name)
