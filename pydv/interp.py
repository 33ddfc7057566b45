"""Symbolic interpreter for the Python of /repo: executes the real function bodies (parsed from the
working tree on every run) over the values of terms.py.  Every construct it does not know raises
Unsupported, which makes the obligation undecided, never proved."""
import ast
import builtins as _bi
import os

import z3

from . import matlib as ml
from .terms import *

REPO = os.environ.get("PYDV_REPO", "/repo")


# ---------------------------------------------------------------------------------- containers
class PyList:
    def __init__(self, segs=()):
        self.segs = list(segs)

    @staticmethod
    def of(items):
        return PyList([One(x) for x in items])

    def items(self):
        if all(isinstance(s, One) for s in self.segs):
            return [s.value for s in self.segs]
        return None

    def __repr__(self):
        it = self.items()
        return "PyList(%s)" % (it if it is not None else [type(s).__name__ for s in self.segs])


class KMap:
    """n dictionary entries with symbolic-scalar keys key(0..n-1)."""

    def __init__(self, n, key, val, mod=None):
        self.n, self.key, self.val = simp(n), key, val
        self.mod = mod      # how it came out of one loop iteration: (block before, "set" or "del", position, value)


class PyDict:
    """d: entries with concrete keys. rng: [(n, fn)] entries for keys 0..n-1. om: ordered entries keyed by symbols."""

    def __init__(self, d=None):
        self.d = dict(d or {})
        self.rng = None
        self.om = []
        self.version = 0
        self.default = None     # what makes a missing entry (defaultdict)

    def is_plain(self):
        return self.rng is None and not self.om


class PySet:
    def __init__(self, items):
        self.items = items
        self.rng = None         # with no items: the numbers 0 .. rng - 1


class Opt:
    """A value that is None unless `present`."""

    def __init__(self, present, value):
        self.present, self.value = present, value


class Env:
    def __init__(self, parent=None, module=None, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.nonlocals = set()
        self.cls = None
        self.self_val = None


class RepoModule:
    def __init__(self, name, tree, path, interp):
        self.name = name
        self.tree = tree
        self.path = path
        self.interp = interp
        self.cache = {}
        self.index = {}
        self.stars = []
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.index[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.index[(a.asname or a.name).split(".")[0] if not a.asname else a.asname] = (st, a)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(st)
                    else:
                        self.index[a.asname or a.name] = (st, a)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.index[t.id] = st
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.index[e.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.index[st.target.id] = st
            elif isinstance(st, ast.Try):
                self._scan(st.body)
            elif isinstance(st, ast.If):
                self._scan(st.body)

    def resolve_from(self, st):
        base = st.module or ""
        if st.level:
            parts = self.name.split(".")
            if not self.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (st.level - 1)]
            base = ".".join(parts + ([st.module] if st.module else []))
        return base

    def has(self, name):
        if name in self.cache or name in self.index:
            return True
        return any(self.interp.module_has(self.resolve_from(s), name) for s in self.stars)

    def get(self, name):
        if name in self.cache:
            return self.cache[name]
        node = self.index.get(name)
        if node is None:
            for s in self.stars:
                m = self.resolve_from(s)
                if self.interp.module_has(m, name):
                    v = self.interp.import_name(m, name)
                    self.cache[name] = v
                    return v
            raise KeyError(name)
        env = Env(None, self)
        if isinstance(node, ast.FunctionDef):
            v = self.interp.make_function(node, env, self, None, node.name)
            v = self.interp.decorate(node, v, env)
        elif isinstance(node, ast.ClassDef):
            v = self.interp.make_class(node, env, self)
        elif isinstance(node, tuple):
            st, a = node
            if isinstance(st, ast.Import):
                v = self.interp.import_module(a.name if a.asname else a.name.split(".")[0])
            else:
                v = self.interp.import_name(self.resolve_from(st), a.name)
        else:
            value = node.value
            v = self.interp.eval(value, env)
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Tuple):
                for e, x in zip(node.targets[0].elts, v):
                    self.cache[e.id] = x
                return self.cache[name]
        self.cache[name] = v
        return v


class RepoFunc:
    def __init__(self, node, env, module, cls, qualname):
        self.node, self.env, self.module, self.cls, self.qualname = node, env, module, cls, qualname
        self.kind = "function"      # or static, class, property
        self.defaults = None

    @property
    def key(self):
        return self.module.name + ":" + self.qualname

    def __repr__(self):
        return "<func %s>" % self.key


class RepoClass:
    def __init__(self, name, bases, module, qualname):
        self.name, self.bases, self.module, self.qualname = name, bases, module, qualname
        self.ns = {}
        self.lazy = {}
        self.interp = None
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = [[self]] + [b.mro() for b in self.bases if isinstance(b, RepoClass)] + [[b for b in self.bases if isinstance(b, RepoClass)]]
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported("inconsistent MRO")
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def own(self, name):
        if name in self.ns:
            return True
        return name in self.lazy

    def own_get(self, name):
        if name in self.ns:
            return self.ns[name]
        v = self.lazy[name]()
        self.ns[name] = v
        return v

    def lookup(self, name, after=None):
        seen = after is None
        for c in self.mro():
            if seen and c.own(name):
                return c.own_get(name)
            if c is after:
                seen = True
        return None

    def external_bases(self):
        out = []
        for c in self.mro():
            out.extend(b for b in c.bases if not isinstance(b, RepoClass))
        return out

    def is_exception(self):
        return any(isinstance(b, type) and issubclass(b, BaseException) for b in self.external_bases())

    def __repr__(self):
        return "<class %s>" % self.qualname


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return "<%s object>" % self.cls.name


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Stub:
    """A stand-in for an external object (a solver): callable, with attributes; calls are recorded by the contract."""

    def __init__(self, name, fn, attrs=None):
        self.name, self.fn, self.attrs = name, fn, dict(attrs or {})

    def __repr__(self):
        return "<stub %s>" % self.name


class CasType:
    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return "<casadi.%s>" % self.kind


class ExtModule:
    def __init__(self, name):
        self.name = name


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class NZ:
    def __init__(self, mat):
        self.mat = mat


class CasFunction:
    """casadi.Function built from symbolic inputs and outputs: application is substitution."""

    def __init__(self, name, ins, outs, in_names=None, out_names=None):
        self.name, self.ins, self.outs, self.in_names, self.out_names = name, ins, outs, in_names, out_names


class ExcObj:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class Lambda:
    def __init__(self, node, env):
        self.node, self.env = node, env


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


# ---------------------------------------------------------------------------------- substitution
def zero(n):
    return isinstance(n, int) and n == 0


class FrozenSegs(list):
    def _no(self, *a, **k):
        raise Unsupported("change of a list of the last iteration")
    append = extend = insert = pop = remove = clear = sort = reverse = __setitem__ = __delitem__ = __iadd__ = _no


class FrozenList(PyList):
    """The list a loop variable holds after the loop: it may also be held elsewhere, so that it can only be read."""
    def __init__(self, segs):
        self.__dict__["_segs"] = FrozenSegs(segs)

    @property
    def segs(self):
        return self._segs

    @segs.setter
    def segs(self, v):
        if len(v) != len(self._segs) or any(a is not b for a, b in zip(v, self._segs)):
            raise Unsupported("change of a list of the last iteration")


def subst_val(v, pairs):
    """v with z3 constants replaced (closing over a loop index)."""
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if is_z3(v):
        return simp(z3.substitute(v, *pairs))
    if isinstance(v, Mat):
        el, sid = v.el, v.sid
        m = Mat(v.kind, subst_val(v.rows, pairs), subst_val(v.cols, pairs),
                lambda r, c: z3.substitute(el(r, c), *pairs),
                sid=(lambda i: z3.substitute(to_z3(sid(i), I), *pairs)) if sid else None,
                boolean=v.boolean, const=subst_val(v.const, pairs), op=v.op,
                deps=tuple(subst_val(d, pairs) for d in v.deps) if v.deps else None)
        if v.segs is not None:
            m.segs = [subst_seg(s, pairs) for s in v.segs] if v.segs != [v] else None
        m.names = v.names
        return m
    if isinstance(v, tuple):
        return tuple(subst_val(x, pairs) for x in v)
    if isinstance(v, PyList):
        return PyList([subst_seg(s, pairs) for s in v.segs])
    if isinstance(v, PyDict) and v.is_plain():
        return PyDict({k: subst_val(x, pairs) for k, x in v.d.items()})
    if isinstance(v, Opt):
        return Opt(subst_val(v.present, pairs), subst_val(v.value, pairs))
    if isinstance(v, (OpaqueStr, RepoFunc, RepoClass, Builtin, CasType, Obj, Bound)):
        return v
    if isinstance(v, NZ):
        return NZ(subst_val(v.mat, pairs))
    if isinstance(v, CasFunction):
        return v
    raise Unsupported("value %r in a symbolic loop" % (type(v).__name__,))


def subst_seg(s, pairs):
    if isinstance(s, One):
        return One(subst_val(s.value, pairs))
    if isinstance(s, MapSeg):
        return MapSeg(subst_val(s.n, pairs), lambda k: subst_val(s.fn(k), pairs))
    if isinstance(s, FilterSeg):
        return FilterSeg(subst_val(s.n, pairs), lambda k: subst_val(s.cond(k), pairs), lambda k: subst_val(s.fn(k), pairs))
    if isinstance(s, ConcatSeg):
        return ConcatSeg(subst_val(s.n, pairs), lambda k: subst_val(s.inner(k), pairs))
    if isinstance(s, Blocks):
        return Blocks(subst_val(s.count, pairs), lambda k: subst_val(s.block(k), pairs))
    if isinstance(s, Mat):
        return subst_val(s, pairs)
    raise Unsupported("segment")


def uses_fun(t, f):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x) and x.decl().eq(f):
            return True
        todo.extend(x.children())
    return False


def mentions(v, consts):
    """Does value v mention one of the z3 constants?"""
    if v is None or isinstance(v, (bool, int, float, str, OpaqueStr)):
        return False
    if is_z3(v):
        return any(occurs(c, v) for c in consts)
    if isinstance(v, Mat):
        i = z3.Int("MENT_I")
        return mentions(v.rows, consts) or mentions(v.cols, consts) or mentions(v.el(i, 0 if v.is_vec() else z3.Int("MENT_J")), consts)
    if isinstance(v, tuple):
        return any(mentions(x, consts) for x in v)
    if isinstance(v, PyList):
        for s in v.segs:
            if isinstance(s, One):
                if mentions(s.value, consts):
                    return True
            elif isinstance(s, (MapSeg, FilterSeg)):
                k = z3.Int("MENT_K")
                if mentions(s.n, consts) or mentions(s.fn(k), consts) or (isinstance(s, FilterSeg) and mentions(s.cond(k), consts)):
                    return True
            else:
                k = z3.Int("MENT_K")
                if mentions(s.n, consts) or mentions(s.inner(k), consts):
                    return True
        return False
    if isinstance(v, PyDict):
        return any(mentions(x, consts) for x in v.d.values())
    if isinstance(v, Opt):
        return mentions(v.present, consts) or mentions(v.value, consts)
    return False


def fresh_mat(r, args):
    """casadi's functions give new objects (which matters when entries are assigned to)."""
    if isinstance(r, Mat):
        for a in args:
            if r is a or isinstance(a, PyList) and any(isinstance(s, One) and s.value is r for s in a.segs):
                return clone(r)
    return r


def same_ident(a, b):
    if a is b:
        return True
    if isinstance(a, Mat) and isinstance(b, Mat):
        return a.el is b.el and a.kind == b.kind and same_ident(a.rows, b.rows) and same_ident(a.cols, b.cols)
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if type(a) is type(b) and isinstance(a, (int, float, str, bool)):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_ident(x, y) for x, y in zip(a, b))
    return False


# ---------------------------------------------------------------------------------- interpreter
_AST = {}
SHIMS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shims")     # models of libraries written in Python
SHIMMED = {"networkx"}


def interpreted(name):
    return name.split(".")[0] == "yaocptool" or name in SHIMMED


def parse_module(name):
    rel = name.replace(".", "/")
    root = SHIMS if name in SHIMMED else REPO
    for path in (os.path.join(root, rel, "__init__.py"), os.path.join(root, rel + ".py")):
        if os.path.isfile(path):
            st = os.stat(path)
            key = (path, st.st_mtime_ns, st.st_size)
            if key not in _AST:
                with open(path) as f:
                    _AST[key] = ast.parse(f.read(), path)
            return _AST[key], path
    return None, None


class Interp:
    def __init__(self, ctx, contracts=None, current=None):
        self.ctx = ctx
        ctx.valid = self.valid
        self.modules = {}
        self.contracts = contracts or {}
        self.current = current
        self.depth = 0
        self.used_contracts = set()
        self.inlined = set()
        self.externals_used = set()
        self.frames = []
        self.mutated = []       # (matrix object, its value after an assignment to its entries)
        self.overrides = {}
        from . import externals
        self.ext = externals

    # -- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        tree, path = parse_module(name)
        if tree is None:
            return None
        m = RepoModule(name, tree, path, self)
        self.modules[name] = m
        return m

    def module_has(self, name, attr):
        if interpreted(name):
            m = self.module(name)
            return m is not None and (m.has(attr) or self.module(name + "." + attr) is not None)
        return self.ext.has(name, attr)

    def import_module(self, name):
        if interpreted(name):
            m = self.module(name)
            if m is None:
                raise Unsupported("module %s" % name)
            return m
        return ExtModule(name)

    def import_name(self, mod, name):
        if interpreted(mod):
            m = self.module(mod)
            if m is None:
                raise Unsupported("module %s" % mod)
            if mod + "." + name in self.overrides:
                return self.overrides[mod + "." + name]
            if m.has(name):
                return m.get(name)
            sub = self.module(mod + "." + name)
            if sub is not None:
                return sub
            raise Unsupported("name %s in %s" % (name, mod))
        if mod.split(".")[0] == "casadi" and name in self.overrides:
            return self.overrides[name]
        if mod + "." + name in self.overrides:
            return self.overrides[mod + "." + name]
        return self.ext.get(mod, name)

    # -- definitions
    def make_function(self, node, env, module, cls, qualname):
        f = RepoFunc(node, env, module, cls, qualname)
        return f

    def decorate(self, node, f, env):
        for d in reversed(node.decorator_list):
            name = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
            if isinstance(d, ast.Call) and isinstance(d.func, (ast.Name, ast.Attribute)) and (d.func.id if isinstance(d.func, ast.Name) else d.func.attr) == "wraps":
                continue                # names and documentation only
            if name == "property":
                f.kind = "property"
            elif name == "cached_property":
                f.kind = "cached"
            elif name == "staticmethod":
                f.kind = "static"
            elif name == "classmethod":
                f.kind = "class"
            elif name in ("abstractmethod", "wraps"):
                pass
            elif name == "setter":
                f.kind = "setter"
            else:
                raise Unsupported("decorator on %s" % node.name)
        return f

    def make_class(self, node, env, module):
        bases = [self.eval(b, env) for b in node.bases]
        c = RepoClass(node.name, bases, module, node.name)
        c.interp = self
        cenv = Env(env if env.vars else None, module)
        setters = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in st.decorator_list):
                    setters[st.name] = st
                    continue

                def mk(st=st):
                    f = self.make_function(st, cenv, module, c, node.name + "." + st.name)
                    return self.decorate(st, f, cenv)
                c.lazy[st.name] = mk
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                c.lazy[st.targets[0].id] = (lambda st=st: self.eval(st.value, cenv))
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                c.lazy[st.target.id] = (lambda st=st: self.eval(st.value, cenv))
        for d in node.decorator_list:
            if isinstance(d, ast.Name) and d.id == "dataclass":
                # an __init__ that sets the annotated fields
                fields = [st for st in node.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)]
                a = ast.arguments(posonlyargs=[], args=[ast.arg("self")] + [ast.arg(st.target.id) for st in fields], kwonlyargs=[], kw_defaults=[],
                                  defaults=[st.value for st in fields if st.value is not None])
                body = [ast.Assign([ast.Attribute(ast.Name("self", ast.Load()), st.target.id, ast.Store())], ast.Name(st.target.id, ast.Load())) for st in fields]
                fn = ast.FunctionDef("__init__", a, body, [])
                ast.fix_missing_locations(ast.copy_location(fn, node))
                c.lazy["__init__"] = lambda fn=fn: self.make_function(fn, cenv, module, c, node.name + ".__init__")
            else:
                raise Unsupported("decorator on class %s" % node.name)
        c.setters = {n: self.make_function(s, cenv, module, c, node.name + "." + n) for n, s in setters.items()}
        return c

    # -- calls
    def call(self, f, args, kwargs):
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, RepoFunc):
            return self.call_repo(f, args, kwargs)
        if isinstance(f, RepoClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Builtin):
            self.externals_used.add(f.name)
            return fresh_mat(f.fn(self, args, kwargs), args)
        if isinstance(f, Stub):
            return f.fn(self, args, kwargs)
        if isinstance(f, CasType):
            self.externals_used.add("casadi." + f.kind)
            return fresh_mat(self.ext.construct(self, f, args, kwargs), args)
        if isinstance(f, Lambda):
            env = Env(f.env, f.env.module, f.env.func)
            env.cls, env.self_val = f.env.cls, f.env.self_val
            self.bind(f.node.args, args, kwargs, env, "<lambda>")
            return self.eval(f.node.body, env)
        if isinstance(f, CasFunction):
            return self.ext.call_function(self, f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcObj(f, args)
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call_repo(m, [f] + list(args), kwargs)
        if f is None:
            raise PyExc(TypeError, note="None is not callable")
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kwargs):
        if cls.is_exception():
            return ExcObj(cls, args)
        o = Obj(cls)
        init = cls.lookup("__init__")
        if init is not None:
            self.call_repo(init, [o] + list(args), kwargs)
        elif cls.external_bases() and any(b is not None and getattr(b, "name", "") not in ("abc.ABC", "object") and b is not object for b in cls.external_bases()):
            raise Unsupported("class with external base %s" % cls.name)
        return o

    def bind(self, a, args, kwargs, env, fname, defaults_env=None):
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        args = list(args)
        vals = {}
        for n, v in zip(names, args):
            vals[n] = v
        extra = args[len(names):]
        if extra and a.vararg is None:
            raise PyExc(TypeError, note="too many arguments to %s" % fname)
        if a.vararg is not None:
            env.vars[a.vararg.arg] = tuple(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        for k in list(kwargs):
            if k in names or k in kwonly:
                if k in vals:
                    raise PyExc(TypeError, note="multiple values for %s" % k)
                vals[k] = kwargs.pop(k)
        if kwargs and a.kwarg is None:
            raise PyExc(TypeError, note="unexpected keyword %s to %s" % (list(kwargs), fname))
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = PyDict(kwargs)
        denv = defaults_env or env
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyExc(TypeError, note="missing argument %s of %s" % (n, fname))
                vals[n] = self.default_value(a, ("p", j), a.defaults[j], denv)
        for i, n in enumerate(kwonly):
            if n not in vals:
                if a.kw_defaults[i] is None:
                    raise PyExc(TypeError, note="missing argument %s of %s" % (n, fname))
                vals[n] = self.default_value(a, ("k", i), a.kw_defaults[i], denv)
        env.vars.update(vals)

    def default_value(self, a, key, node, env):
        tab = self.__dict__.setdefault("_defaults", {})
        k = (id(a), key)
        if k not in tab:          # evaluated once, like CPython: mutable defaults are shared
            tab[k] = self.eval(node, Env(None, env.module) if env.module else env)
        return tab[k]

    def call_repo(self, f, args, kwargs):
        c = self.contracts.get(f.key)
        if c is not None and f.key != self.current:
            r = c.apply(self, f, args, kwargs)
            if r is not NotImplemented:
                self.used_contracts.add(f.key)
                return r
        return self.run_body(f, args, kwargs)

    def run_body(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("call depth")
        if f.key != self.current:
            self.inlined.add(f.key)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                raise Unsupported("generator function %s" % f.qualname)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node:
                pass
        env = Env(f.env if f.env.vars or f.env.parent else None, f.module, f)
        env.cls = f.cls
        denv = Env(None, f.module)
        self.bind(f.node.args, args, kwargs, env, f.qualname, denv)
        if f.cls is not None and args and f.kind != "static":
            env.self_val = args[0]
        self.frames.append(env)
        try:
            self.exec_block(f.node.body, env)
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.frames.pop()
            self.depth -= 1

    # -- statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        return m(st, env)

    def x_Pass(self, st, env):
        pass

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Global(self, st, env):
        raise Unsupported("global statement")

    def x_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def x_Import(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name.split(".")[0]] = self.import_module(a.name if a.asname else a.name.split(".")[0])

    def x_ImportFrom(self, st, env):
        base = env.module.resolve_from(st)
        for a in st.names:
            env.vars[a.asname or a.name] = self.import_name(base, a.name)

    def x_FunctionDef(self, st, env):
        f = self.make_function(st, env, env.module, None, (env.func.qualname if env.func else "") + ".<locals>." + st.name)
        env.vars[st.name] = self.decorate(st, f, env)

    def x_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise BreakEx()

    def x_Continue(self, st, env):
        raise ContinueEx()

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyExc(AssertionError)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                del env.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                self.ext.delitem(self, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise Unsupported("del attribute")
            else:
                raise Unsupported("del")

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = env.vars.get("$exc")
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        e = self.eval(st.exc, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            raise PyExc(e)
        if isinstance(e, RepoClass):
            raise PyExc(e)
        if isinstance(e, ExcObj):
            raise PyExc(e.cls, e.args)
        raise Unsupported("raise of %r" % (e,))

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, env)
            v = self.augment(op, cur, self.eval(st.value, env))
            self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augment(op, cur, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.ext.getitem(self, o, k)
            self.ext.setitem(self, o, k, self.augment(op, cur, self.eval(st.value, env)))
        else:
            raise Unsupported("augmented assignment")

    def augment(self, op, cur, v):
        if isinstance(cur, PyList) and op == "Add":
            self.ext.list_extend(self, cur, v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
            e.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Subscript):
                o, k = self.eval(t.value.value, env), self.eval_index(t.value.slice, env)
                m = self.ext.getitem(self, o, k)
                if isinstance(m, Mat) and isinstance(o, (PyDict, PyList)):
                    # an entry of an entry: the container may describe its entries by a function
                    new = self.ext.store_of(self, m, self.eval_index(t.slice, env), v)
                    if not self.replace_mat(m, new):
                        self.ext.setitem(self, o, k, new)
                else:
                    self.ext.setitem(self, m, self.eval_index(t.slice, env), v)
                return
            self.ext.setitem(self, self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t.elts)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, y, env)
                else:
                    self.assign(x, y, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, elts=None):
        items = self.concrete_items(v)
        if items is None:
            raise Unsupported("unpacking a symbolic sequence")
        st = [i for i, e in enumerate(elts or []) if isinstance(e, ast.Starred)]
        if st:
            i = st[0]
            after = n - i - 1
            if len(items) < n - 1:
                raise PyExc(ValueError, note="unpack")
            return list(items[:i]) + [PyList.of(items[i:len(items) - after])] + list(items[len(items) - after:])
        if len(items) != n:
            raise PyExc(ValueError, note="unpack")
        return items

    def x_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_While(self, st, env):
        n = 0
        while True:
            if not self.truth(self.eval(st.test, env)):
                self.exec_block(st.orelse, env)
                return
            n += 1
            if n > 64:
                raise Unsupported("while loop without a bound")
            try:
                self.exec_block(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue

    def x_With(self, st, env):
        mgrs = []
        for it in st.items:
            m = self.eval(it.context_expr, env)
            mgrs.append(m)
            if isinstance(m, ExcSuppress):
                pass
            elif isinstance(m, Obj):
                ent = m.cls.lookup("__enter__")
                if ent is None:
                    raise Unsupported("context manager")
                v = self.call_repo(ent, [m], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
            else:
                raise Unsupported("context manager")
        try:
            self.exec_block(st.body, env)
        except PyExc as e:
            for m in mgrs:
                if isinstance(m, ExcSuppress) and any(self.exc_match(e.cls, c) for c in m.classes):
                    return
            raise
        finally:
            for m in reversed(mgrs):
                if isinstance(m, Obj):
                    self.call_repo(m.cls.lookup("__exit__"), [m, None, None, None], {})

    def exc_match(self, cls, handler):
        if isinstance(handler, tuple):
            return any(self.exc_match(cls, h) for h in handler)
        if isinstance(cls, RepoClass):
            if isinstance(handler, RepoClass):
                return handler in cls.mro()
            return any(isinstance(b, type) and isinstance(handler, type) and issubclass(b, handler) for b in cls.external_bases())
        if isinstance(handler, RepoClass):
            return False
        return isinstance(cls, type) and isinstance(handler, type) and issubclass(cls, handler)

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    hc = self.eval(h.type, env) if h.type is not None else BaseException
                    if self.exc_match(e.cls, hc):
                        if h.name:
                            env.vars[h.name] = ExcObj(e.cls, e.eargs)
                        env.vars["$exc"] = e
                        self.exec_block(h.body, env)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env)

    # -- loops
    def x_For(self, st, env):
        it = self.eval(st.iter, env)
        segs = self.iter_segs(it)
        try:
            for s in segs:
                if isinstance(s, One):
                    self.assign(st.target, s.value, env)
                    try:
                        self.exec_block(st.body, env)
                    except ContinueEx:
                        pass
                else:
                    self.sym_loop(s, st, env)
        except BreakEx:
            return
        self.exec_block(st.orelse, env)

    def iter_segs(self, it):
        """The iterable as a list of segments (One / MapSeg / FilterSeg / ConcatSeg)."""
        it = self.obj_iter(it)
        items = self.concrete_items(it)
        if items is not None:
            return [One(x) for x in items]
        if isinstance(it, PyList):
            return list(it.segs)
        if isinstance(it, PySet):
            return [MapSeg(it.rng, lambda k: k)]
        if isinstance(it, SymRange):
            n = sub_int(it.b, it.a)
            a = it.a
            if it.step != 1:
                raise Unsupported("range step")
            nn = n if self.ctx.must(to_z3(n, I) >= 0) else simp(z3.If(to_z3(n, I) >= 0, to_z3(n, I), z3.IntVal(0)))
            return [MapSeg(nn, lambda k: add_int(a, k))]
        if isinstance(it, NZ):
            m = it.mat
            return [MapSeg(m.numel, lambda k: elem(m, k))]
        if isinstance(it, PyDict):
            return [self.key_seg(s) for s in self.ext.dict_segs(self, it)]
        raise Unsupported("iteration over %r" % (type(it).__name__,))

    def obj_iter(self, o):
        """What iter(o) runs over, for objects of interpreted classes."""
        while isinstance(o, Obj):
            m = o.cls.lookup("__iter__")
            if m is not None:
                o = self.call_repo(m, [o], {})
                continue
            m = o.cls.lookup("__getitem__")
            if m is None:
                break
            out = []
            while True:
                try:
                    out.append(self.call_repo(m, [o, len(out)], {}))
                except PyExc as e:
                    if isinstance(e.cls, type) and issubclass(e.cls, IndexError):
                        break
                    raise
                if len(out) > 1000:
                    raise Unsupported("iteration by index")
            return PyList.of(out)
        return o

    def key_seg(self, s):
        if isinstance(s, One):
            return One(s.value[0])
        return MapSeg(s.n, lambda k: s.fn(k)[0])

    def concrete_items(self, it):
        """List of items when the number of items is concrete, else None."""
        it = self.obj_iter(it)
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, PyList):
            r = it.items()
            if r is not None:
                return r
            if all(isinstance(s, One) or (isinstance(s, MapSeg) and isinstance(s.n, int)) for s in it.segs):
                out = []
                for s in it.segs:
                    out.extend([s.value] if isinstance(s, One) else [s.fn(k) for k in range(s.n)])
                return out
            return None
        if isinstance(it, range):
            return list(it)
        if isinstance(it, SymRange):
            if isinstance(it.a, int) and isinstance(it.b, int) and isinstance(it.step, int):
                return list(range(it.a, it.b, it.step))
            n = sub_int(it.b, it.a)
            if isinstance(n, int) and it.step == 1:
                return [add_int(it.a, k) for k in range(max(n, 0))]
            return None
        if isinstance(it, NZ):
            if isinstance(it.mat.numel, int):
                return [elem(it.mat, k) for k in range(it.mat.numel)]
            return None
        if isinstance(it, PyDict):
            if it.is_plain():
                return list(it.d.keys())
            segs = self.ext.dict_segs(self, it)
            if all(isinstance(s, One) for s in segs):
                return [s.value[0] for s in segs]
            return None
        if isinstance(it, PySet):
            return list(it.items) if it.rng is None else list(range(it.rng)) if isinstance(it.rng, int) else None
        if isinstance(it, str):
            return list(it)
        if isinstance(it, Mat):
            raise Unsupported("iteration over a matrix")
        return None

    def indexable(self, it):
        """(n, get)"""
        items = self.concrete_items(it)
        if items is not None:
            return len(items), (lambda k: self.pick(items, k))
        segs = self.iter_segs(it)
        if len(segs) == 1 and isinstance(segs[0], MapSeg):
            return segs[0].n, segs[0].fn
        if len(segs) == 1 and isinstance(segs[0], FilterSeg):
            s = segs[0]
            cnt, sel, rank = ml.filter_sel(self.ctx, s.n, s.cond)
            return cnt, (lambda k: s.fn(sel(to_z3(k, I))))
        if all(isinstance(s, (One, MapSeg)) for s in segs):
            offs = [0]
            for s in segs:
                offs.append(add_int(offs[-1], 1 if isinstance(s, One) else s.n))

            def get(k):
                t = None
                for s, o, e in reversed(list(zip(segs, offs, offs[1:]))):
                    v = s.value if isinstance(s, One) else s.fn(sub_int(k, o))
                    if t is None:
                        t = v
                    else:
                        c = simp(to_z3(k, I) < to_z3(e, I))
                        t = v if c is True else (t if c is False else self.merge(c, v, t))
                return t
            return offs[-1], get
        raise Unsupported("indexing a nested symbolic list")

    def pick(self, items, k):
        if isinstance(k, int):
            return items[k]
        t = items[-1]
        for j in reversed(range(len(items) - 1)):
            t = self.merge(to_z3(k, I) == j, items[j], t)
        return t

    # -- sub-exploration -----------------------------------------------------------------------
    def reach(self, extra=()):
        """All mutable containers reachable from the frames."""
        seen = {}
        todo = list(self.frames) + list(extra)
        roots = getattr(self, "roots", None)
        if roots:
            todo.extend(roots)
        while todo:
            x = todo.pop()
            if x is None or isinstance(x, (int, float, str, bool, Mat, OpaqueStr, Builtin, CasType, RepoModule)) or is_z3(x):
                continue
            if id(x) in seen:
                continue
            if isinstance(x, Env):
                seen[id(x)] = x
                todo.extend(x.vars.values())
                if x.parent is not None:
                    todo.append(x.parent)
                if x.self_val is not None:
                    todo.append(x.self_val)
            elif isinstance(x, Obj):
                seen[id(x)] = x
                todo.extend(x.attrs.values())
            elif isinstance(x, PyList):
                seen[id(x)] = x
                todo.extend(s.value for s in x.segs if isinstance(s, One))
            elif isinstance(x, PyDict):
                seen[id(x)] = x
                todo.extend(x.d.values())
            elif isinstance(x, PySet):
                seen[id(x)] = x
            elif isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, Bound):
                todo.append(x.obj)
            elif isinstance(x, (Lambda,)):
                todo.append(x.env)
        return list(seen.values())

    def replace_mat(self, old, new):
        """An assignment to entries of a matrix: every reference to the object now is to the new value."""
        hit = False

        def rep(x):
            nonlocal hit
            if x is old:
                hit = True
                return new
            if isinstance(x, tuple) and any(q is old or isinstance(q, tuple) for q in x):
                y = tuple(rep(q) for q in x)
                return y if any(a is not b for a, b in zip(x, y)) else x
            return x
        for x in self.reach():
            if isinstance(x, Env):
                for k, v in list(x.vars.items()):
                    w = rep(v)
                    if w is not v:
                        x.vars[k] = w
            elif isinstance(x, Obj):
                for k, v in list(x.attrs.items()):
                    w = rep(v)
                    if w is not v:
                        x.attrs[k] = w
            elif isinstance(x, PyList):
                if any(isinstance(s, One) and rep(s.value) is not s.value for s in x.segs):
                    x.segs = [One(rep(s.value)) if isinstance(s, One) and rep(s.value) is not s.value else s for s in x.segs]
            elif isinstance(x, PyDict):
                if any(rep(v) is not v for v in x.d.values()):
                    x.d = {k: rep(v) for k, v in x.d.items()}
                if any(isinstance(e, KMap) is False and rep(e.value) is not e.value for e in x.om):
                    raise Unsupported("assignment to entries of a value in a dictionary of symbols")
        self.mutated.append((old, new))
        return hit

    def snapshot(self):
        snap = []
        for x in self.reach():
            if isinstance(x, Env):
                snap.append((x, dict(x.vars)))
            elif isinstance(x, Obj):
                snap.append((x, dict(x.attrs)))
            elif isinstance(x, PyList):
                snap.append((x, list(x.segs)))
            elif isinstance(x, PyDict):
                snap.append((x, (dict(x.d), x.rng, list(x.om))))
            elif isinstance(x, PySet):
                snap.append((x, list(x.items)))
        return snap

    def restore(self, snap):
        for x, c in snap:
            if isinstance(x, Env):
                x.vars = dict(c)
            elif isinstance(x, Obj):
                x.attrs = dict(c)
            elif isinstance(x, PyList):
                x.segs = list(c)
            elif isinstance(x, PyDict):
                x.d, x.rng, x.om = dict(c[0]), c[1], list(c[2])
            elif isinstance(x, PySet):
                x.items = list(c)

    def diff(self, snap):
        """Locations changed since the snapshot: list of (container, key, newvalue)."""
        out = []
        for x, c in snap:
            if isinstance(x, (Env, Obj)):
                cur = x.vars if isinstance(x, Env) else x.attrs
                for k in cur:
                    if k not in c or not same_ident(cur[k], c[k]):
                        out.append((x, k))
                for k in c:
                    if k not in cur:
                        raise Unsupported("deletion in a symbolic loop")
            elif isinstance(x, PyList):
                if len(x.segs) != len(c) or any(a is not b for a, b in zip(x.segs, c)):
                    out.append((x, "$list"))
            elif isinstance(x, PyDict):
                if x.rng is not c[1] or len(x.d) != len(c[0]) or any(k not in c[0] or not same_ident(x.d[k], c[0][k]) for k in x.d) or len(x.om) != len(c[2]) or any(a is not b for a, b in zip(x.om, c[2])):
                    out.append((x, "$dict"))
            elif isinstance(x, PySet):
                if len(x.items) != len(c) or any(a is not b for a, b in zip(x.items, c)):
                    raise Unsupported("set in a symbolic loop")
        return out

    def sub_explore(self, fn, snap):
        """Run fn on every path from the snapshot; returns [(condition, outcome)]."""
        ctx = self.ctx
        saved = (ctx.prefix, ctx.pos, ctx.taken, ctx.pending)
        results = []
        stack = [[]]
        frames = list(self.frames)
        depth = self.depth
        n0 = len(ctx.pc)
        before = dict(ctx.counter)
        try:
            while stack:
                ctx.budget.paths += 1
                if len(results) > 60:
                    raise Unsupported("too many paths in a loop body")
                prefix = stack.pop()
                self.restore(snap)
                self.frames = list(frames)
                self.depth = depth
                ctx.prefix, ctx.pos, ctx.taken, ctx.pending = list(prefix), 0, [], []
                ctx.solver.push()
                ax0 = len(ctx.axioms)
                try:
                    out = fn()
                    conds = ctx.pc[n0:]
                    for c in conds:
                        for nm in consts_of(c):
                            b, _, i = nm.partition("!")
                            if b in LEAKY and i.isdigit() and int(i) >= before.get(b, 0):
                                raise Unsupported("iteration-local unknown %s" % nm)
                    results.append((z3.And(*conds) if conds else z3.BoolVal(True), out))
                except Infeasible:
                    pass
                finally:
                    stack.extend(ctx.pending)
                    del ctx.pc[n0:]
                    ctx.solver.pop()
                    for a in ctx.axioms[ax0:]:
                        ctx.solver.add(a)
        finally:
            ctx.prefix, ctx.pos, ctx.taken, ctx.pending = saved
            self.restore(snap)
            self.frames = list(frames)
            self.depth = depth
        return results

    def sym_loop(self, seg, st, env):
        """A for loop over a segment of symbolic length, summarised by a closed form per iteration."""
        ctx = self.ctx
        if isinstance(seg, ConcatSeg):
            raise Unsupported("loop over a nested symbolic list")
        n = seg.n
        nz = to_z3(n, I)
        if ctx.check(nz > 0) == z3.unsat:
            return
        k = ctx.fresh_int("k")
        guard = seg.cond if isinstance(seg, FilterSeg) else None
        snap = self.snapshot()
        target_names = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}

        def run_once(place):
            ctx.assume(z3.And(k >= 0, k < nz))
            if guard is not None:
                ctx.assume(to_z3(guard(k), B))
            for (cont, key, val) in place:
                put(cont, key, val)
            ctx.loop_idx.append(k)
            try:
                self.assign(st.target, seg.fn(k), env)
                try:
                    self.exec_block(st.body, env)
                    kind = "normal"
                except ContinueEx:
                    kind = "normal"
                except (BreakEx, ReturnEx, PyExc) as e:
                    kind = "exit"
            finally:
                ctx.loop_idx.pop()
            changed = self.diff(snap)
            vals = []
            for (cont, key) in changed:
                if isinstance(cont, Env) and key in target_names and cont is env:
                    continue
                vals.append((cont, key, take_val(cont, key)))
            return kind, vals

        # discovery of the modified locations, to a fixpoint
        locs = []
        n_mutated = len(self.mutated)

        def have(c, key):
            return any(c is a and key == b for a, b in locs)
        place = []
        consts = []
        for _ in range(6):
            res = self.sub_explore(lambda: run_once(place), snap)
            new = False
            for cond, (kind, vals) in res:
                if kind != "normal":
                    continue
                for c, key, v in vals:
                    if not have(c, key):
                        locs.append((c, key))
                        new = True
            if not new:
                break
            place, consts = [], []
            for (c, key) in locs:
                base = snap_val(snap, c, key)
                stored = any(isinstance(v, Mat) and v.store is not None for _, (_, vals) in res for cc, kk, v in vals if cc is c and kk == key)
                ph, cs = self.placeholder(base, stored)
                place.append((c, key, ph))
                consts.extend(cs)
        else:
            raise Unsupported("loop state does not stabilise")

        # exits
        exit_conds = [cond for cond, (kind, _) in res if kind == "exit"]
        normal = [(cond, vals) for cond, (kind, vals) in res if kind == "normal"]
        closed = []     # (cont, key, f(kk) -> value before iteration kk)
        pend = []
        for (c, key), (_, _, ph) in zip(locs, place):
            base = snap_val(snap, c, key)
            upd = []
            for cond, vals in normal:
                v = next((v for cc, kk, v in vals if cc is c and kk == key), None)
                found = any(cc is c and kk == key for cc, kk, v in vals)
                upd.append((cond, v if found else ph, found))
            pend.append((c, key, base, ph, upd))
        # simple inductions first (their closed forms may appear in the others)
        subst_pairs = []
        order = []
        for item in pend:
            cf = self.close_simple(item, k, n, guard)
            if cf is not None:
                closed.append((item[0], item[1], cf))
                ph = item[3]
                if is_z3(ph):
                    subst_pairs.append((ph, to_z3(cf(k))))
            else:
                order.append(item)
        rest_consts = [c for c in consts if not any(c.eq(p) for p, _ in subst_pairs)]

        def sub(v):
            return subst_val(v, subst_pairs) if subst_pairs else v

        exit_conds = [sub(c) for c in exit_conds]
        for c in exit_conds:
            if mentions(c, rest_consts):
                raise Unsupported("loop exit depends on accumulated state")
        rng_k = z3.And(k >= 0, k < nz)
        for (c, key, base, ph, upd) in order:
            upd = [(sub(cond), self.sub_acc(v, ph, sub), found) for cond, v, found in upd]
            for cond, v, found in upd:
                if mentions(cond, rest_consts):
                    raise Unsupported("loop branch depends on accumulated state")
            closed.append((c, key, self.close_acc(base, ph, upd, k, n, guard, rng_k, rest_consts)))

        anyexit = simp(z3.Or(*[to_z3(c, B) for c in exit_conds])) if exit_conds else False
        self.restore(snap)
        del self.mutated[n_mutated:]
        stored = [base for (c, key, base, ph, upd) in pend if isinstance(ph, Mat) and ph.tag and ph.tag[0] == "store"]
        if len({id(b) for b in stored}) != len(stored):
            raise Unsupported("assignment in a loop to entries of a matrix with two names")
        if anyexit is not False:
            # conditions collected as path conditions contain the range of k; fresh constants inside are a problem
            names = set(consts_of(to_z3(anyexit, B)))
            bad = [x for x in names if x.startswith(("k!", "d!", "fd!")) and x != k.decl().name() and not any(x == q.decl().name() for q in ctx.loop_idx)]
            if bad:
                raise Unsupported("loop exit through an inner skolem %s" % bad)
            q = z3.Int(ctx.fresh_name("q"))
            no_exit = lambda bound: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < bound), z3.Not(z3.substitute(to_z3(anyexit, B), (k, q)))))
            ex = z3.Exists([q], z3.And(q >= 0, q < nz, z3.substitute(to_z3(anyexit, B), (k, q))))
            if ctx.branch(ex, "loop exit"):
                k0 = ctx.fresh_int("k0")
                ctx.assume(z3.And(k0 >= 0, k0 < nz, z3.substitute(to_z3(anyexit, B), (k, k0)), no_exit(k0)))
                for c, key, cf in closed:
                    put(c, key, cf(k0))
                self.assign(st.target, seg.fn(k0), env)
                ctx.loop_idx.append(k0)
                try:
                    self.exec_block(st.body, env)
                finally:
                    ctx.loop_idx.pop()
                raise Unsupported("exit iteration did not exit")
            ctx.assume(no_exit(nz))
        for c, key, cf in closed:
            v = cf(n)
            if isinstance(v, Mat) and v.store is not None:
                self.mutated.append((snap_val(snap, c, key), v))
            put(c, key, v)
        # the loop variable keeps its last value
        if ctx.must(nz > 0) and guard is None:
            self.assign(st.target, seg.fn(sub_int(n, 1)), env)
        else:
            for nm in target_names:
                env.vars[nm] = Undefined("loop variable %s" % nm)

    def sub_acc(self, v, ph, sub):
        """Substitute in the part added to an accumulator, leaving the placeholder alone."""
        if isinstance(v, PyListState):
            return PyListState([s if (isinstance(s, One) and s.value is ph.mark) else subst_seg_fn(s, sub) for s in v.segs])
        if isinstance(v, Mat) and isinstance(ph, Mat) and v.segs is not None:
            m = Mat(v.kind, v.rows, v.cols, v.el, v.sid, const=v.const)
            m.segs = [s if s is ph else subst_seg_fn(s, sub) for s in v.segs]
            return m
        if isinstance(v, PyDictState):
            return v
        return sub(v) if not isinstance(v, (PyListState,)) else v

    def placeholder(self, base, stored=False):
        ctx = self.ctx
        if stored and isinstance(base, Mat):
            f = ctx.fresh_fun("phw", I, R)
            m = Mat(base.kind, base.rows, base.cols, lambda r, c: f(to_z3(r, I)), const=base.const)
            m.tag = ("store", f)
            return m, []
        if isinstance(base, Missing):
            return Undefined("first assigned in the loop"), []
        if isinstance(base, PyListState):
            mark = Marker()
            return PyListState([One(mark)], mark), []
        if isinstance(base, PyDictState):
            reads = []
            om = []
            for e in base.om:
                if isinstance(e, KMap):
                    b = KMap(e.n, e.key, None)
                    b.val = lambda q, e=e, b=b: (reads.append((b, q)), e.val(q))[1]
                    b.base = e
                    om.append(b)
                else:
                    om.append(e)
            st = PyDictState(dict(base.d), base.rng, om)
            st.reads = reads
            return st, []
        if isinstance(base, bool):
            b = ctx.fresh_bool("phb")
            return b, [b]
        if isinstance(base, int):
            b = ctx.fresh_int("phi")
            return b, [b]
        if isinstance(base, float):
            b = ctx.fresh_real("phr")
            return b, [b]
        if is_z3(base):
            b = z3.Const(ctx.fresh_name("ph"), base.sort())
            return b, [b]
        if isinstance(base, Mat):
            if base.is_vec() or (base.rows == 0 and base.cols == 0):
                rows = ctx.fresh_int("phn")
                f = ctx.fresh_fun("phv", I, R)
                if base.numel == 1 and not (base.segs is not None and len(base.segs) == 0):
                    x = ctx.fresh_real("phs")
                    m = Mat(base.kind, 1, 1, lambda r, c: x, const=False)
                    m.tag = ("scalar", x)
                    # also usable as an accumulator of rows
                    m.segs = [m]
                    return m, [x]
                m = Mat(base.kind, rows, 1, lambda r, c: f(to_z3(r, I)), const=base.const)
                m.segs = [m]
                m.tag = ("vec", f, rows)
                return m, [rows]
            raise Unsupported("matrix accumulated in a symbolic loop")
        if base is None or isinstance(base, (str, OpaqueStr)):
            return Undefined("loop-carried value"), []
        if isinstance(base, (Obj, Undefined, RepoFunc, RepoClass, tuple, NZ, Opt, PyList, PyDict, CasFunction)):
            return Undefined("loop-carried reference"), []
        raise Unsupported("loop-carried %s" % type(base).__name__)

    def close_simple(self, item, k, n, guard):
        """Induction variables x := x + c."""
        c, key, base, ph, upd = item
        if not (is_z3(ph) and ph.sort() in (I, R)) or guard is not None:
            return None
        deltas = []
        for cond, v, found in upd:
            if not (is_z3(v) or isinstance(v, (int, float))):
                return None
            d = z3.simplify(to_z3(v, ph.sort()) - ph)
            if occurs(ph, d) or occurs(k, d):
                return None
            deltas.append(d)
        if not deltas or any(not d.eq(deltas[0]) for d in deltas):
            return None
        d = deltas[0]
        sort = ph.sort()
        b = to_z3(base, sort)

        def cf(kk):
            kt = to_z3(kk, I)
            return simp(b + (d * kt if sort == I else real_mul(d, z3.ToReal(kt))))
        return cf

    def close_anew(self, base, ph, upd, k, consts):
        """A value assigned anew in every iteration, whatever it was before (a temporary defined before the loop)."""
        ctx = self.ctx
        if is_z3(ph):
            own, fn = [ph], None
        elif isinstance(ph, Mat) and ph.tag and ph.tag[0] == "scalar":
            own, fn = [ph.tag[1]], None
        elif isinstance(ph, Mat) and ph.tag and ph.tag[0] == "vec":
            own, fn = [ph.tag[2]], ph.tag[1]
        else:
            return None
        for c, v, f in upd:
            if not f or not (is_z3(v) or isinstance(v, (bool, int, float, Mat))) or mentions(v, own) or v is ph:
                return None
            if isinstance(v, Mat):
                i, j = z3.Int("MENT_I"), z3.Int("MENT_J")
                e = v.el(i, 0 if v.is_vec() else j)
                if v.store is not None or (v.segs is not None and any(s is ph for s in v.segs)) or (fn is not None and is_z3(e) and uses_fun(e, fn)):
                    return None
        try:
            val = upd[-1][1]
            for c, v, f in reversed(upd[:-1]):
                val = self.merge(c, v, val)
            if mentions(val, consts):
                return lambda kk: Undefined("temporary after the loop")
        except Unsupported:
            return lambda kk: Undefined("temporary after the loop")

        def cf(kk):
            if zero(kk):
                return base
            out = subst_val(val, [(k, to_z3(sub_int(kk, 1), I))])
            if ctx.must(to_z3(kk, I) > 0):
                return out
            try:
                return self.merge(to_z3(kk, I) > 0, out, base)
            except Unsupported:
                return Undefined("temporary after the loop")
        return cf

    def close_acc(self, base, ph, upd, k, n, guard, rng_k, consts):
        ctx = self.ctx
        if guard is None and upd:
            cf = self.close_anew(base, ph, upd, k, consts)
            if cf is not None:
                return cf
        # ---- lists
        if isinstance(ph, PyListState):
            parts = []
            for cond, v, found in upd:
                if not found:
                    parts.append((cond, []))
                    continue
                segs = v.segs
                if not segs or not (isinstance(segs[0], One) and segs[0].value is ph.mark):
                    raise Unsupported("list rewritten in a symbolic loop")
                parts.append((cond, segs[1:]))
            for cond, segs in parts:
                for s in segs:
                    if isinstance(s, One) and (s.value is ph.mark or mentions(s.value, consts)):
                        raise Unsupported("appended value depends on accumulated state")
            parts = self.single_hits(parts, rng_k)
            nonempty = [(c, s) for c, s in parts if s]
            if not nonempty:
                return lambda kk: PyListState(list(base.segs))
            if all(len(s) == 1 and isinstance(s[0], One) for _, s in nonempty):
                val = nonempty[-1][1][0].value
                for c, s in reversed(nonempty[:-1]):
                    val = self.merge(c, s[0].value, val)
                fn = lambda kk: subst_val(val, [(k, to_z3(kk, I))])
                full = len(nonempty) == len(parts) and guard is None
                if full:
                    return lambda kk: PyListState(list(base.segs) + ([MapSeg(kk, fn)] if not zero(kk) else []))
                cond = simp(z3.Or(*[to_z3(c, B) for c, _ in nonempty]))
                if guard is not None:
                    cond = simp(z3.And(to_z3(cond, B), to_z3(guard(k), B)))
                cond = strip_range(cond, rng_k)
                cfn = lambda kk: subst_val(cond, [(k, to_z3(kk, I))])
                return lambda kk: PyListState(list(base.segs) + ([FilterSeg(kk, cfn, fn)] if not zero(kk) else []))
            if len(nonempty) == len(parts) == 1 and guard is None:
                inner_segs = nonempty[0][1]
                fn = lambda kk: PyList([subst_seg(s, [(k, to_z3(kk, I))]) for s in inner_segs])
                return lambda kk: PyListState(list(base.segs) + ([ConcatSeg(kk, fn)] if not zero(kk) else []))
            raise Unsupported("list growth pattern")
        # ---- dictionaries
        if isinstance(ph, PyDictState):
            return self.close_dict(base, ph, upd, k, n, guard, rng_k, consts)
        # ---- vectors whose entries are assigned to
        if isinstance(ph, Mat) and ph.tag and ph.tag[0] == "store":
            return self.close_store(base, ph, upd, k, guard)
        # ---- vectors grown by concatenation
        if isinstance(ph, Mat) and ph.tag and ph.tag[0] == "vec":
            outs = [(c, v) for c, v, f in upd]
            adds = []
            for c, v in outs:
                if v is ph:
                    adds.append((c, []))
                    continue
                if not isinstance(v, Mat) or v.segs is None or not v.segs or v.segs[0] is not ph:
                    raise Unsupported("vector rewritten in a symbolic loop")
                adds.append((c, v.segs[1:]))
            if any(any(s is ph for s in a) for _, a in adds):
                raise Unsupported("vector rewritten in a symbolic loop")
            if all(len(a) == 0 for _, a in adds):
                return lambda kk: base
            if guard is not None:
                raise Unsupported("guarded vector growth")
            def seg_of(a):
                if len(a) == 1 and isinstance(a[0], Mat):
                    return a[0]
                return ml.vertcat(ctx, [x if isinstance(x, Mat) else ml.map_to_vec(ctx, MapSeg(x.count, x.block)) for x in a])
            if len(adds) == 1:
                piece = seg_of(adds[0][1])
                fn = lambda kk: subst_val(piece, [(k, to_z3(kk, I))])
                return lambda kk: ml.vertcat(ctx, [base, ml.map_to_vec(ctx, MapSeg(kk, fn))]) if not zero(kk) else base
            one = [(c, a) for c, a in adds if a]
            if all(len(a) == 1 and isinstance(a[0], Mat) and a[0].numel == 1 for _, a in one):
                val = one[-1][1][0]
                for c, a in reversed(one[:-1]):
                    val = self.merge(c, a[0], val)
                fn = lambda kk: subst_val(val, [(k, to_z3(kk, I))])
                if len(one) == len(adds):
                    return lambda kk: ml.vertcat(ctx, [base, ml.map_to_vec(ctx, MapSeg(kk, fn))])
                cond = strip_range(simp(z3.Or(*[to_z3(c, B) for c, _ in one])), rng_k)
                cfn = lambda kk: subst_val(cond, [(k, to_z3(kk, I))])
                return lambda kk: ml.vertcat(ctx, [base, ml.filter_to_vec(ctx, FilterSeg(kk, cfn, fn))])
            raise Unsupported("vector growth pattern")
        # ---- booleans: or-folds
        if is_z3(ph) and ph.sort() == B:
            conds = []
            for c, v, f in upd:
                vv = to_z3(v, B)
                c = to_z3(c, B)
                # v == ph or something
                if vv.eq(ph):
                    continue
                t = z3.simplify(z3.substitute(vv, (ph, z3.BoolVal(True))))
                if not z3.is_true(t):
                    # last-value or and-fold
                    f_ = z3.simplify(z3.substitute(vv, (ph, z3.BoolVal(False))))
                    raise Unsupported("boolean loop pattern")
                f_ = z3.simplify(z3.substitute(vv, (ph, z3.BoolVal(False))))
                conds.append(z3.And(c, f_))
            body = z3.Or(*conds) if conds else z3.BoolVal(False)
            if guard is not None:
                body = z3.And(to_z3(guard(k), B), body)
            b = to_z3(base, B)

            def cf(kk):
                q = z3.Int(ctx.fresh_name("q"))
                return simp(z3.Or(b, z3.Exists([q], z3.And(q >= 0, q < to_z3(kk, I), z3.substitute(body, (k, q))))))
            return cf
        # ---- sums
        scal = ph.tag[1] if isinstance(ph, Mat) and ph.tag and ph.tag[0] == "scalar" else (ph if is_z3(ph) and ph.sort() == R else None)
        if scal is not None:
            terms = []
            for c, v, f in upd:
                t = v.el(0, 0) if isinstance(v, Mat) else to_z3(v, R)
                if isinstance(v, Mat) and not (v.numel == 1):
                    raise Unsupported("scalar accumulator changes shape")
                d = z3.simplify(t - scal)
                if occurs(scal, d):
                    raise Unsupported("non-additive scalar accumulation")
                terms.append((c, d))
            body = terms[-1][1]
            for c, d in reversed(terms[:-1]):
                body = z3.If(to_z3(c, B), d, body)
            if guard is not None:
                body = z3.If(to_z3(guard(k), B), body, z3.RealVal(0))
            b = base.el(0, 0) if isinstance(base, Mat) else to_z3(base, R)
            kind = base.kind if isinstance(base, Mat) else None
            if isinstance(base, Mat):
                for c, v, f in upd:
                    kind = join_kind(kind, v.kind)

            def cf(kk):
                t = z3.simplify(b + sum_term(ctx, kk, lambda q: z3.substitute(body, (k, to_z3(q, I)))))
                return ml.scalar(kind, t) if kind else t
            return cf
        # ---- plain last value (temporaries)
        if isinstance(ph, Undefined):
            vals = [(c, v) for c, v, f in upd if f]
            if not vals:
                return lambda kk: base
            if len(vals) == len(upd) and guard is None:
                try:
                    val = vals[-1][1]
                    for c, v in reversed(vals[:-1]):
                        val = self.merge(c, v, val)
                    if mentions(val, consts):
                        return lambda kk: Undefined("temporary after the loop")
                except Unsupported:
                    return lambda kk: Undefined("temporary after the loop")

                def cf(kk):
                    if isinstance(val, (Undefined, Obj, PyDict, RepoFunc, Bound, Lambda)):
                        return Undefined("temporary after the loop")
                    if ctx.must(to_z3(kk, I) > 0):
                        if isinstance(val, PyList):
                            return FrozenList([subst_seg(s, [(k, to_z3(sub_int(kk, 1), I))]) for s in val.segs])
                        return subst_val(val, [(k, to_z3(sub_int(kk, 1), I))])
                    return Undefined("temporary after the loop")
                return cf
            return lambda kk: Undefined("temporary after the loop")
        raise Unsupported("loop-carried state of type %s" % type(base).__name__)

    def close_store(self, base, ph, upd, k, guard):
        ctx = self.ctx
        if len(upd) != 1 or guard is not None or not isinstance(upd[0][1], Mat) or upd[0][1].store is None or upd[0][1].store[0] is not ph:
            raise Unsupported("pattern of assignments to entries in a loop")
        v = upd[0][1]
        st = v.store[1]
        f = ph.tag[1]
        q = ctx.fresh_int("sq")
        sb = lambda t, kk: t if not is_z3(t) else z3.substitute(t, (k, to_z3(kk, I)))
        if uses_fun(to_z3(st.fn(q), R), f) or isinstance(st, Scatter):
            raise Unsupported("pattern of assignments to entries in a loop")
        a, n = to_z3(st.start, I), st.count
        if is_z3(n) and occurs(k, n):
            raise Unsupported("pattern of assignments to entries in a loop")
        c = z3.simplify(sb(a, 0))
        const = v.const
        if self.valid(a == c + k * to_z3(n, I)):
            if n == 1:
                new = lambda kk: Block(c, kk, lambda j: sb(to_z3(st.fn(0), R), j))
            else:
                dv = lambda j: simp(to_z3(j, I) / to_z3(n, I))
                md = lambda j: simp(to_z3(j, I) % to_z3(n, I))
                new = lambda kk: Block(c, mul_int(kk, n), lambda j: sb(to_z3(st.fn(md(j)), R), dv(j)))
        elif n == 1:
            new = lambda kk: Scatter(kk, lambda j: sb(a, j), lambda j: sb(to_z3(st.fn(0), R), j))
        else:
            raise Unsupported("pattern of assignments to entries in a loop")
        return lambda kk: ml.apply_store(ctx, base, new(kk), v.kind, const) if not zero(kk) else base

    def single_hits(self, parts, rng_k):
        """A filter that can select at most one element, known by a term, is that element when its condition holds."""
        out = []
        for cond, segs in parts:
            if len(segs) == 1 and isinstance(segs[0], FilterSeg):
                t = self.unique_index(segs[0], z3.And(rng_k, to_z3(cond, B)))
                if t is not None:
                    s = segs[0]
                    hit = z3.And(t >= 0, t < to_z3(s.n, I), to_z3(s.cond(t), B))
                    c = to_z3(cond, B)
                    st = self.valid(z3.Implies(z3.And(rng_k, c), hit))
                    if st:
                        out.append((cond, [One(s.fn(t))]))
                    else:
                        out.append((simp(z3.And(c, hit)), [One(s.fn(t))]))
                        out.append((simp(z3.And(c, z3.Not(hit))), []))
                    continue
            out.append((cond, segs))
        return out

    def valid(self, goal, timeout=1500):
        s = self.ctx.solver
        s.push()
        s.set("timeout", timeout)
        try:
            s.add(z3.Not(goal))
            return s.check() == z3.unsat
        finally:
            s.pop()
            s.set("timeout", 1000)
            self.ctx.budget.queries += 1

    def unique_index(self, seg, hyp, collect=False):
        """A term t with: cond(q) implies q == t, for every q in range (checked by the solver)."""
        q = z3.Int(self.ctx.fresh_name("uq"))
        body = z3.simplify(to_z3(seg.cond(q), B))

        def leaves(e):
            if z3.is_app_of(e, z3.Z3_OP_ITE):
                return leaves(e.arg(1)) + leaves(e.arg(2))
            return [e]

        def eqs(e):
            if z3.is_eq(e):
                yield e
            for ch in e.children():
                yield from eqs(ch)
        cands = []

        def solve(e, leaf_targets):
            """Follow the conditionals of the known side."""
            if z3.is_app_of(e, z3.Z3_OP_ITE):
                a, b = solve(e.arg(1), leaf_targets), solve(e.arg(2), leaf_targets)
                if a is None:
                    return b
                return a if b is None else z3.If(e.arg(0), a, b)
            if z3.is_app(e) and e.decl().name() == "SID":
                for l in leaf_targets:
                    if z3.is_app(l) and l.decl().name() == "SID" and all(x.eq(y) for x, y in zip(l.children()[:3], e.children()[:3])):
                        off = z3.simplify(l.arg(3) - q)
                        if not occurs(q, off):
                            return z3.simplify(e.arg(3) - off)
            return None
        for e in eqs(body):
            for l, r in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if occurs(q, l) and not occurs(q, r) and r.sort() == I:
                    if l.eq(q):
                        cands.append(r)
                    else:
                        off = z3.simplify(l - q)
                        if not occurs(q, off):
                            cands.append(z3.simplify(r - off))
                    t = solve(r, leaves(l))
                    if t is not None:
                        cands.append(t)
        if collect:
            return cands[:6]
        for t in cands[:6]:
            if self.valid(z3.Implies(z3.And(hyp, q >= 0, q < to_z3(seg.n, I), body), q == t)):
                return t
        return None

    def close_dict(self, base, ph, upd, k, n, guard, rng_k, consts):
        if guard is not None:
            raise Unsupported("guarded dictionary growth")
        if ph.om and any(f and len(v.om) == len(ph.om) and any(a is not b for a, b in zip(v.om, ph.om)) for c, v, f in upd):
            return self.close_dict_mods(base, ph, upd, k, n, rng_k, consts)
        adds = []
        for c, v, f in upd:
            if not f:
                raise Unsupported("conditional dictionary growth")
            newk = [x for x in v.d if x not in base.d]
            for x in base.d:
                if x not in v.d or not same_ident(v.d[x], base.d[x]):
                    raise Unsupported("dictionary rewritten in a symbolic loop")
            if newk:
                raise Unsupported("concrete dictionary keys in a symbolic loop")
            if v.rng is not None and v.rng is not base.rng and isinstance(v.rng, PendingKey) and base.rng is None and not base.d:
                adds.append((c, "rng", v.rng))
            elif len(v.om) == len(ph.om) + 1 and all(a is b for a, b in zip(v.om, ph.om)):
                adds.append((c, "om", v.om[-1]))
            else:
                raise Unsupported("dictionary growth pattern")
        if len(adds) != 1:
            raise Unsupported("dictionary growth pattern")
        c, what, e = adds[0]
        if what == "rng":
            if not z3.simplify(to_z3(e.key, I) - k).eq(z3.IntVal(0)):
                raise Unsupported("dictionary key is not the loop index")
            fn = lambda kk: subst_val(e.value, [(k, to_z3(kk, I))])

            def cf(kk):
                return PyDictState(dict(base.d), SymDict(kk, fn) if not zero(kk) else None, list(base.om))
            return cf
        key, val = e.key, e.value
        self.distinct_keys(lambda q: subst_val(key, [(k, to_z3(q, I))]), n)
        return lambda kk: PyDictState(dict(base.d), base.rng, list(base.om) + ([KMap(
            kk, lambda q: subst_val(key, [(k, to_z3(q, I))]), lambda q: subst_val(val, [(k, to_z3(q, I))]))] if not zero(kk) else []))

    def distinct_keys(self, key, n):
        a, b = self.ctx.fresh_int("dk"), self.ctx.fresh_int("dk")
        nz = to_z3(n, I)
        if not self.valid(z3.Implies(z3.And(a >= 0, a < b, b < nz), to_z3(key(a).sid(0), I) != to_z3(key(b).sid(0), I))):
            raise Unsupported("dictionary keys that may coincide")

    def inverse(self, pos, cond, n):
        """(hit, idx): hit(q) says that q == pos(k) for some k in 0..n-1 with cond(k), which is then idx(q)."""
        ctx = self.ctx
        k = ctx.fresh_int("ik")
        p = z3.simplify(to_z3(pos(k), I))
        nz = to_z3(n, I)
        off = z3.simplify(p - k)
        known = None
        if not occurs(k, off):
            idx = lambda q: simp(to_z3(q, I) - off)
        else:
            k2 = ctx.fresh_int("ik")
            if not self.valid(z3.Implies(z3.And(k >= 0, k < nz, k2 >= 0, k2 < nz, k != k2, to_z3(cond(k), B), to_z3(cond(k2), B)),
                                         p != to_z3(pos(k2), I))):
                raise Unsupported("positions that may coincide")
            known = None
            for f, b in ctx.__dict__.get("inverses", []):
                off = z3.simplify(p - f(k))
                if not occurs(k, off):
                    known = (b, off)
            if known is not None:
                b, off = known
                idx = lambda q: b(z3.simplify(to_z3(q, I) - off))
        if occurs(k, off) and known is None:
            inv = ctx.fresh_fun("inv", I, I)
            q = z3.Int(ctx.fresh_name("q"))
            pq = z3.simplify(z3.substitute(p, (k, q)))
            pats = uninterpreted_with(pq, q)
            ax = z3.Implies(z3.And(q >= 0, q < nz, to_z3(cond(q), B)), inv(pq) == q)
            ctx.axiom(z3.ForAll([q], ax, patterns=pats[:1]) if pats else z3.ForAll([q], ax))
            idx = lambda q: inv(to_z3(q, I))

        def hit(q, upto=n):
            i = to_z3(idx(q), I)
            return simp(z3.And(i >= 0, i < to_z3(upto, I), to_z3(cond(i), B), to_z3(pos(i), I) == to_z3(q, I)))
        return hit, idx

    def close_dict_mods(self, base, ph, upd, k, n, rng_k, consts):
        """Iterations that overwrite, or delete, one entry each."""
        mods = {}
        for c, v, f in upd:
            if not f:
                continue
            if v.rng is not ph.rng or set(v.d) != set(base.d) or any(not same_ident(v.d[x], base.d[x]) for x in v.d) or len(v.om) != len(ph.om):
                raise Unsupported("dictionary rewritten in a symbolic loop")
            for i, (a, b) in enumerate(zip(v.om, ph.om)):
                if a is b:
                    continue
                if not isinstance(a, KMap) or a.mod is None or a.mod[0] is not b:
                    raise Unsupported("dictionary rewritten in a symbolic loop")
                mods.setdefault(i, []).append((strip_range(simp(c), rng_k), a.mod))
        at = lambda t, kk: subst_val(t, [(k, to_z3(kk, I))])
        out = {}
        for i, ms in mods.items():
            kinds = {m[1] for _, m in ms}
            if len(kinds) != 1:
                raise Unsupported("entries both overwritten and deleted in a symbolic loop")
            p0 = z3.simplify(to_z3(ms[0][1][2], I))
            if any(not z3.simplify(to_z3(m[2], I)).eq(p0) for _, m in ms):
                raise Unsupported("entries at several positions")
            for _, m in ms:
                if mentions(m[3], consts):
                    raise Unsupported("entry depends on accumulated state")
            cond = simp(z3.Or(*[to_z3(c, B) for c, _ in ms]))
            hit, idx = self.inverse(lambda kk, p0=p0: at(p0, kk), lambda kk, cond=cond: at(cond, kk) if is_z3(cond) else cond, n)
            out[i] = (ms, hit, idx, kinds.pop(), p0)
        # values read in the loop must not have been changed by an earlier iteration
        for b, q in ph.reads:
            i = next(j for j, x in enumerate(ph.om) if x is b)
            if i in out and not self.valid(z3.Implies(rng_k, to_z3(q, I) == out[i][4])):
                raise Unsupported("entry read at another position than it is written")

        def cf(kk):
            om = list(base.om)
            for i, (ms, hit, idx, kind, p0) in out.items():
                e = base.om[i]
                if zero(kk):
                    continue
                if kind == "set":
                    def val(q, e=e, ms=ms, hit=hit, idx=idx):
                        r = None
                        for c, m in reversed(ms):
                            v = at(m[3], idx(q)) if m[3] is not None else None
                            r = v if r is None and m is ms[-1][1] else self.merge(at(c, idx(q)) if is_z3(c) else c, v, r)
                        return self.merge(hit(q, kk), r, e.val(q))
                    om[i] = KMap(e.n, e.key, val)
                else:
                    cnt, sel, _ = ml.filter_sel(self.ctx, e.n, lambda q, hit=hit: z3.Not(to_z3(hit(q, kk), B)))
                    om[i] = KMap(cnt, lambda q, e=e, sel=sel: e.key(sel(to_z3(q, I))), lambda q, e=e, sel=sel: e.val(sel(to_z3(q, I))))
            return PyDictState(dict(base.d), base.rng, om)
        return cf

    # -- comprehension
    def comprehension(self, gens, env, emit, depth=0):
        """Returns list of segments for the generator nest; emit() evaluates the element."""
        if not gens:
            return [One(emit())]
        g = gens[0]
        it = self.eval(g.iter, env)
        out = []
        for s in self.iter_segs(it):
            if isinstance(s, One):
                self.assign(g.target, s.value, env)
                if all(self.truth(self.eval(c, env)) for c in g.ifs):
                    out.extend(self.comprehension(gens[1:], env, emit, depth + 1))
                continue
            out.extend(self.sym_comp(s, g, gens, env, emit))
        return out

    def sym_comp(self, s, g, gens, env, emit):
        ctx = self.ctx
        k = ctx.fresh_int("k")
        nz = to_z3(s.n, I)
        if ctx.check(nz > 0) == z3.unsat:
            return []
        if isinstance(s, ConcatSeg):
            raise Unsupported("comprehension over a nested symbolic list")
        snap = self.snapshot()
        if env not in [x for x, _ in snap]:
            snap.append((env, dict(env.vars)))

        def run():
            ctx.assume(z3.And(k >= 0, k < nz))
            if isinstance(s, FilterSeg):
                ctx.assume(to_z3(s.cond(k), B))
            ctx.loop_idx.append(k)
            try:
                self.assign(g.target, s.fn(k), env)
                for c in g.ifs:
                    if not self.truth(self.eval(c, env)):
                        return "skip", None
                segs = self.comprehension(gens[1:], env, emit)
                changed = [x for x in self.diff(snap) if not (x[0] is env)]
                if changed:
                    return "effect", segs
                return "emit", segs
            except PyExc as e:
                return "raise", e
            finally:
                ctx.loop_idx.pop()
        res = self.sub_explore(run, snap)
        if any(kind == "effect" for _, (kind, _) in res):
            return self.comp_with_effects(s, g, gens, env, emit, k, snap)
        raises = [(c, e) for c, (kind, e) in res if kind == "raise"]
        if raises:
            anyr = z3.Or(*[c for c, _ in raises])
            q = z3.Int(ctx.fresh_name("q"))
            ex = z3.Exists([q], z3.And(q >= 0, q < nz, z3.substitute(anyr, (k, q))))
            if ctx.branch(ex, "comprehension raises"):
                if len({id(e.cls) for _, e in raises}) == 1:
                    raise raises[0][1]
                raise Unsupported("comprehension raising different exceptions")
        emits = [(c, v) for c, (kind, v) in res if kind == "emit"]
        if not emits:
            return []
        rng_k = z3.And(k >= 0, k < nz)
        if all(len(v) == 1 and isinstance(v[0], One) for _, v in emits):
            val = emits[-1][1][0].value
            for c, v in reversed(emits[:-1]):
                val = self.merge(c, v[0].value, val)
            fn = lambda kk: subst_val(val, [(k, to_z3(kk, I))])
            if not any(kind == "skip" for _, (kind, _) in res) and isinstance(s, MapSeg):
                return [MapSeg(s.n, fn)]
            cond = strip_range(simp(z3.Or(*[to_z3(c, B) for c, _ in emits])), rng_k)
            if isinstance(s, MapSeg) and cond is not True and self.valid(z3.Implies(rng_k, to_z3(cond, B)), timeout=500):
                return [MapSeg(s.n, fn)]
            if isinstance(s, MapSeg) and is_z3(cond):
                parts = self.split_filter(k, nz, cond)
                if parts is not None:
                    return [MapSeg(m, lambda kk, off=off: fn(add_int(off, kk))) for off, m in parts]
            return [FilterSeg(s.n, lambda kk: subst_val(cond, [(k, to_z3(kk, I))]), fn)]
        if len(emits) == 1 and not any(kind == "skip" for _, (kind, _) in res) and isinstance(s, MapSeg):
            inner = emits[0][1]
            return [ConcatSeg(s.n, lambda kk: PyList([subst_seg(x, [(k, to_z3(kk, I))]) for x in inner]))]
        raise Unsupported("nested comprehension pattern")

    def split_filter(self, k, n, cond):
        """When 0..n-1 is a row of blocks, and the condition holds on all or on none of each: the blocks where it holds."""
        n = z3.simplify(n)
        if not z3.is_add(n) or self.ctx.loop_idx:
            return None
        off, out = z3.IntVal(0), []
        for m in n.children():
            rng = z3.And(k >= off, k < z3.simplify(off + m))
            if self.valid(z3.Implies(rng, cond), timeout=500):
                out.append((simp(off), simp(m)))
            elif not self.valid(z3.Implies(rng, z3.Not(cond)), timeout=500):
                return None
            off = z3.simplify(off + m)
        for m in n.children():
            if not self.valid(m >= 0, timeout=500):
                return None
        return out

    def comp_with_effects(self, s, g, gens, env, emit, k, snap):
        """[f(x) for x in xs] where f has effects: run as a for loop appending to a list."""
        if len(gens) != 1 or g.ifs:
            raise Unsupported("comprehension with effects")
        lst = PyList()
        tmp = self.ctx.fresh_name("$comp")
        env.vars[tmp] = lst

        class _Body(ast.stmt):
            pass
        node = _EmitStmt(lambda: self.ext.list_append(self, env.vars[tmp], emit()))
        loop = ast.For(target=g.target, iter=g.iter, body=[node], orelse=[])
        self.frames.append(env)
        try:
            self.sym_loop(s, loop, env)
        finally:
            self.frames.pop()
        del env.vars[tmp]
        return list(lst.segs)

    def x__EmitStmt(self, st, env):
        st.fn()

    # -- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def narrow(self, v):
        p = to_z3(v.present, B)
        if self.ctx.must(p):
            return v.value
        if self.ctx.must(z3.Not(p)):
            return None
        return v

    def lookup_name(self, name, env):
        x = env
        while x is not None:
            if name in x.vars:
                v = x.vars[name]
                if isinstance(v, Undefined):
                    raise Unsupported(v.why)
                if isinstance(v, Opt):
                    return self.narrow(v)
                return v
            x = x.parent
        if env.module is not None and env.module.has(name):
            return env.module.get(name)
        v = self.ext.builtin(name)
        if v is not None:
            return v
        if name in ("None", "True", "False"):
            return {"None": None, "True": True, "False": False}[name]
        if name == "__name__":
            return env.module.name
        raise Unsupported("name %s" % name)

    def e_Name(self, e, env):
        return self.lookup_name(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Undefined):
                    raise Unsupported(v.why)
                # data descriptors (properties) win over instance attributes
                p = o.cls.lookup(name)
                if isinstance(p, RepoFunc) and p.kind == "property":
                    return self.call_repo(p, [o], {})
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return PySet([k for k in o.attrs if not k.startswith("%")])     # its keys; anything else asked of it is not supported
            v = o.cls.lookup(name)
            if v is not None:
                return self.bind_member(v, o)
            ga = o.cls.lookup("__getattr__")
            if ga is not None:
                return self.call_repo(ga, [o, name], {})
            raise PyExc(AttributeError, note="%s.%s" % (o.cls.name, name))
        if isinstance(o, RepoClass):
            if name == "__name__":
                return o.name
            v = o.lookup(name)
            if v is None:
                raise PyExc(AttributeError, note="%s.%s" % (o.name, name))
            if isinstance(v, RepoFunc) and v.kind == "class":
                return Bound(o, v)
            return v
        if isinstance(o, SuperProxy):
            v = o.obj.cls.lookup(name, after=o.cls)
            if v is None:
                if name == "__init__":
                    return Builtin("object.__init__", lambda it, a, k: None)
                raise PyExc(AttributeError, note="super().%s" % name)
            return self.bind_member(v, o.obj)
        if isinstance(o, RepoModule):
            if o.has(name):
                return o.get(name)
            sub = self.module(o.name + "." + name)
            if sub is not None:
                return sub
            raise PyExc(AttributeError)
        if isinstance(o, ExtModule):
            if o.name == "casadi" and name in self.overrides:
                return self.overrides[name]
            if o.name + "." + name in self.overrides:
                return self.overrides[o.name + "." + name]
            return self.ext.get(o.name, name)
        if isinstance(o, Stub):
            if name in o.attrs:
                return o.attrs[name]
            raise Unsupported("attribute %s of a stub" % name)
        return self.ext.getattr(self, o, name)

    def bind_member(self, v, o):
        if isinstance(v, RepoFunc):
            if v.kind == "property":
                return self.call_repo(v, [o], {})
            if v.kind == "cached":
                o.attrs[v.node.name] = r = self.call_repo(v, [o], {})
                return r
            if v.kind == "static":
                return v
            if v.kind == "class":
                return Bound(o.cls, v)
            return Bound(o, v)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            for c in o.cls.mro():
                if name in getattr(c, "setters", {}):
                    self.call_repo(c.setters[name], [o, v], {})
                    return
                if c.own(name):
                    p = c.own_get(name)
                    if isinstance(p, RepoFunc) and p.kind == "property":
                        raise PyExc(AttributeError, note="can't set attribute")
                    break
            o.attrs[name] = v
            return
        raise Unsupported("setattr on %r" % (o,))

    def e_Call(self, e, env):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if not e.args:
                x = env
                while x is not None and x.cls is None:
                    x = x.parent
                if x is None:
                    raise Unsupported("super() outside a method")
                return SuperProxy(x.cls, x.self_val)
            return SuperProxy(self.eval(e.args[0], env), self.eval(e.args[1], env))
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                items = self.concrete_items(v)
                if items is None:
                    args.append(StarSym(v))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for kw in e.keywords:
            if kw.arg is None:
                d = self.eval(kw.value, env)
                if not isinstance(d, PyDict) or not d.is_plain():
                    raise Unsupported("** of %r" % (d,))
                for k, v in d.d.items():
                    if k in kwargs:
                        raise PyExc(TypeError, note="repeated keyword")
                    kwargs[k] = v
            else:
                kwargs[kw.arg] = self.eval(kw.value, env)
        if any(isinstance(a, StarSym) for a in args) and not isinstance(f, Builtin):
            raise Unsupported("star argument of symbolic length")
        return self.call(f, args, kwargs)

    def e_Lambda(self, e, env):
        return Lambda(e, env)

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.concrete_items(self.eval(x.value, env))
                if items is None:
                    raise Unsupported("star in a display")
                out.extend(items)
            else:
                out.append(self.eval(x, env))
        return out

    def e_List(self, e, env):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.iter_segs(self.eval(x.value, env)))
            else:
                segs.append(One(self.eval(x, env)))
        return PyList(segs)

    def e_Set(self, e, env):
        return PySet(self.elts(e.elts, env))

    def e_Dict(self, e, env):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.ext.dict_update(self, d, self.eval(v, env))
            else:
                self.ext.setitem(self, d, self.eval(k, env), self.eval(v, env))
        return d

    def comp_env(self, env):
        c = Env(env, env.module, env.func)
        c.cls, c.self_val = env.cls, env.self_val
        return c

    def e_ListComp(self, e, env):
        c = self.comp_env(env)
        self.frames.append(c)
        try:
            return PyList(self.comprehension(e.generators, c, lambda: self.eval(e.elt, c)))
        finally:
            self.frames.pop()

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env)

    def e_SetComp(self, e, env):
        l = self.e_ListComp(e, env)
        it = l.items()
        if it is None:
            raise Unsupported("symbolic set")
        return self.ext.make_set(self, it)

    def e_DictComp(self, e, env):
        c = self.comp_env(env)
        self.frames.append(c)
        try:
            segs = self.comprehension(e.generators, c, lambda: (self.eval(e.key, c), self.eval(e.value, c)))
        finally:
            self.frames.pop()
        d = PyDict()
        for s in segs:
            if isinstance(s, One):
                self.ext.setitem(self, d, s.value[0], s.value[1])
            elif isinstance(s, MapSeg):
                k = self.ctx.fresh_int("dk")
                key = s.fn(k)[0]
                if is_z3(key) and z3.simplify(key - k).eq(z3.IntVal(0)) and d.is_plain() and not d.d:
                    d.rng = SymDict(s.n, lambda q, s=s: s.fn(q)[1])
                elif isinstance(key, Mat) and key.sid is not None and d.rng is None and not d.d:
                    d.om.append(KMap(s.n, lambda q, s=s: s.fn(q)[0], lambda q, s=s: s.fn(q)[1]))
                else:
                    raise Unsupported("symbolic dictionary comprehension " + repr(key)+ " "+repr(k))
            else:
                raise Unsupported("symbolic dictionary comprehension " + repr(s))
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        allc = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if isinstance(x, (str, int, float)) and not isinstance(x, bool) and v.format_spec is None:
                    parts.append(str(x))
                else:
                    allc = False
                    parts.append(OpaqueStr(self.ext.str_key(x)))
        if allc:
            return "".join(parts)
        return OpaqueStr(tuple(p if isinstance(p, str) else p.key for p in parts))

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(self.eval(s.lower, env) if s.lower else None, self.eval(s.upper, env) if s.upper else None,
                         self.eval(s.step, env) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.ext.getitem(self, o, self.eval_index(e.slice, env))

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else simp(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Mat):
                return ml.neg(v)
            if is_z3(v):
                return simp(-v)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        return self.ext.binop(self, op, a, b)

    def e_BoolOp(self, e, env):
        # Python semantics: the value of the deciding operand; conditions on symbolic booleans are joined
        is_and = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            last = i == len(e.values) - 1
            isbool = isinstance(v, bool) or (is_z3(v) and v.sort() == B)
            if acc is not None and not (isbool and (last or pure(e.values[i + 1:]))):
                # the operands so far decide before this one does
                if self.ctx.branch(acc, "boolop") != is_and:
                    return not is_and
                acc = None
            if last and acc is None:
                return v
            t = self.truth_term(v)
            if isbool and (last or pure(e.values[i + 1:])) and not (acc is None and isinstance(t, bool)):
                acc = to_z3(t, B) if acc is None else (z3.And(acc, to_z3(t, B)) if is_and else z3.Or(acc, to_z3(t, B)))
                if last:
                    return simp(acc)
                continue
            if (t if isinstance(t, bool) else self.ctx.branch(t, "boolop")) != is_and:
                return v
        return acc

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = self.ext.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            t = self.truth_term(v)
            if isinstance(t, bool):
                if not t:
                    return False
            else:
                res = t if res is None else z3.And(res, t)
            left = right
        return True if res is None else simp(res)

    # -- truth
    def truth_term(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if is_z3(v):
            if v.sort() == B:
                return simp(v)
            return simp(v != 0)
        if isinstance(v, PyList):
            return simp(self.ext.length(self, v) != 0) if v.items() is None else bool(v.items())
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, PyDict):
            n = self.ext.length(self, v)
            return simp(to_z3(n, I) != 0) if is_z3(n) else n != 0
        if isinstance(v, PySet):
            return bool(v.items) if v.rng is None else simp(to_z3(v.rng, I) > 0)
        if isinstance(v, Mat):
            if not (v.numel == 1):
                if self.ctx.branch(to_z3(v.numel, I) == 1):
                    pass
                else:
                    raise PyExc(Exception, note="only a scalar can be cast to bool")
            if v.kind != "DM" and v.const is not True:
                if v.boolean and v.op == "OP_EQ" and v.deps[0].sid is not None and v.deps[1].sid is not None:
                    return simp(v.el(0, 0))
                raise PyExc(RuntimeError, note="truth value of a symbolic expression")
            t = v.el(0, 0)
            return simp(t if v.boolean else t != 0)
        if isinstance(v, Obj):
            if v.cls.lookup("__bool__") or v.cls.lookup("__len__"):
                raise Unsupported("__bool__")
            return True
        if isinstance(v, (RepoFunc, RepoClass, Bound, Builtin, CasFunction, Lambda, CasType, RepoModule)):
            return True
        if isinstance(v, Opt):
            raise Unsupported("truth of an optional")
        if isinstance(v, NZ):
            raise Unsupported("truth of nz")
        raise Unsupported("truth of %r" % (v,))

    def truth(self, v):
        t = self.truth_term(v)
        if isinstance(t, bool):
            return t
        return self.ctx.branch(t)

    # -- merging
    def merge(self, cond, a, b):
        cond = simp(cond)
        if cond is True:
            return a
        if cond is False:
            return b
        if same_ident(a, b):
            return a
        if a is None and b is None:
            return None
        if isinstance(a, Mat) and isinstance(b, Mat):
            kind = join_kind(a.kind, b.kind)
            rows = a.rows if same_ident(a.rows, b.rows) else simp(z3.If(cond, to_z3(a.rows, I), to_z3(b.rows, I)))
            cols = a.cols if same_ident(a.cols, b.cols) else simp(z3.If(cond, to_z3(a.cols, I), to_z3(b.cols, I)))
            sid = None
            if a.sid is not None and b.sid is not None:
                sid = lambda i: z3.If(cond, to_z3(a.sid(i), I), to_z3(b.sid(i), I))
            const = a.const if a.const is b.const else z3.If(cond, to_z3(a.const, B), to_z3(b.const, B))
            return Mat(kind, rows, cols, lambda r, c: z3.If(cond, a.el(r, c), b.el(r, c)), sid=sid, const=const, boolean=a.boolean)
        if (a is None or isinstance(a, (Mat, Opt))) and (b is None or isinstance(b, (Mat, Opt))):
            pa, va = opt_parts(a)
            pb, vb = opt_parts(b)
            val = va if vb is None else (vb if va is None else self.merge(cond, va, vb))
            return Opt(simp(z3.If(cond, to_z3(pa, B), to_z3(pb, B))), val)
        if isinstance(a, bool) and isinstance(b, bool) or (is_z3(a) and a.sort() == B) or (is_z3(b) and b.sort() == B):
            return simp(z3.If(cond, to_z3(a, B), to_z3(b, B)))
        if isinstance(a, (int, float)) or is_z3(a):
            if isinstance(b, (int, float)) or is_z3(b):
                real = isinstance(a, float) or isinstance(b, float) or any(is_z3(x) and x.sort() == R for x in (a, b))
                s = R if real else I
                return simp(z3.If(cond, to_z3(a, s), to_z3(b, s)))
        if isinstance(a, PyList) and isinstance(b, PyList) and len(a.segs) == len(b.segs) and all(
                type(s) is type(q) and (isinstance(s, One) or isinstance(s, MapSeg) and same_ident(s.n, q.n)) for s, q in zip(a.segs, b.segs)):
            # a read-only value chosen by a condition; the list it came from is frozen by FrozenList
            return FrozenList([One(self.merge(cond, s.value, q.value)) if isinstance(s, One) else
                               MapSeg(s.n, lambda k, s=s, q=q: self.merge(cond, s.fn(k), q.fn(k))) for s, q in zip(a.segs, b.segs)])
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(cond, x, y) for x, y in zip(a, b))
        if isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)):
            return OpaqueStr(("ite", str(cond), getattr(a, "key", a), getattr(b, "key", b)))
        raise Unsupported("merge of %r and %r" % (type(a).__name__, type(b).__name__))


def opt_parts(x):
    if x is None:
        return False, None
    if isinstance(x, Opt):
        return x.present, x.value
    return True, x


def pure(nodes):
    """Evaluating the nodes early is harmless (no calls that may raise or have effects on symbolic operands)."""
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                f = x.func
                nm = f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else "")
                if nm not in ("numel", "size1", "size2", "isinstance", "len", "is_constant", "depends_on", "callable", "hasattr", "any", "all"):
                    return False
            if isinstance(x, (ast.Subscript, ast.NamedExpr)):
                return False
    return True


LEAKY = {"k0", "iseq", "b", "n", "r", "j0", "unk"}


class ExcSuppress:
    def __init__(self, classes):
        self.classes = classes


class StarSym:
    def __init__(self, value):
        self.value = value


class Undefined:
    def __init__(self, why):
        self.why = why


class Missing:
    pass


class Marker:
    pass


class PyListState:
    def __init__(self, segs, mark=None):
        self.segs = list(segs)
        self.mark = mark


class PyDictState:
    def __init__(self, d, rng, om):
        self.d, self.rng, self.om = d, rng, om


class PendingKey:
    """d[key] = value with a symbolic integer key, inside a symbolic loop."""

    def __init__(self, key, value):
        self.key, self.value = key, value


class _EmitStmt(ast.stmt):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn


def elem(m, k):
    return Mat(m.kind, 1, 1, lambda r, c: m.at(k), sid=(lambda _: m.sid(k)) if m.sid is not None else None,
               const=m.const, boolean=m.boolean)


def put(cont, key, val):
    if isinstance(cont, Env):
        cont.vars[key] = val
    elif isinstance(cont, Obj):
        cont.attrs[key] = val
    elif isinstance(cont, PyList):
        cont.segs = list(val.segs)
    elif isinstance(cont, PyDict):
        cont.d, cont.rng, cont.om = dict(val.d), val.rng, list(val.om)


def take_val(cont, key):
    if isinstance(cont, Env):
        return cont.vars[key]
    if isinstance(cont, Obj):
        return cont.attrs[key]
    if isinstance(cont, PyList):
        return PyListState(cont.segs)
    return PyDictState(dict(cont.d), cont.rng, list(cont.om))


def snap_val(snap, cont, key):
    for x, c in snap:
        if x is cont:
            if isinstance(x, (Env, Obj)):
                return c.get(key, Missing()) if key in c else Missing()
            if isinstance(x, PyList):
                return PyListState(c)
            return PyDictState(dict(c[0]), c[1], list(c[2]))
    raise Unsupported("unknown container")


def subst_seg_fn(s, sub):
    if isinstance(s, One):
        return One(sub(s.value))
    if isinstance(s, Mat):
        return sub(s)
    if isinstance(s, MapSeg):
        return MapSeg(sub(s.n), lambda k: sub(s.fn(k)))
    if isinstance(s, FilterSeg):
        return FilterSeg(sub(s.n), lambda k: sub(s.cond(k)), lambda k: sub(s.fn(k)))
    if isinstance(s, Blocks):
        return Blocks(sub(s.count), lambda k: sub(s.block(k)))
    raise Unsupported("segment substitution")


def uninterpreted_with(t, q):
    """Smallest applications of uninterpreted functions in t that contain q."""
    out = []

    def walk(e):
        if not occurs(q, e):
            return False
        below = False
        for ch in e.children():
            below = walk(ch) or below
        if below:
            return True
        if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
            return True
        return False
    walk(t)
    return out


def strip_range(cond, rng):
    """Drop the conjuncts 0 <= k and k < n (implied by the range of the filter)."""
    if not is_z3(cond):
        return cond
    if z3.is_and(cond):
        drop = [z3.simplify(x) for x in rng.children()]
        keep = [c for c in cond.children() if not any(c.eq(d) for d in drop)]
        return simp(z3.And(*keep)) if keep else True
    drop = [z3.simplify(x) for x in rng.children()]
    if any(cond.eq(d) for d in drop):
        return True
    return cond


def sum_term(ctx, n, f):
    """Sum of f(q) for q in 0..n-1: an uninterpreted total indexed by the summand (structural + extensional)."""
    idx = z3.Int("CANON_IDX")
    body = z3.simplify(f(idx))
    if isinstance(n, int):
        t = z3.RealVal(0)
        for q in range(n):
            t = t + f(q)
        return z3.simplify(t)
    free = [k for k in ctx.loop_idx if occurs(k, body)]
    tab = ctx.__dict__.setdefault("sums", {})
    canon = [z3.Int("CANON_S%d" % i) for i in range(len(free))]
    kb = z3.substitute(body, *zip(free, canon)) if free else body
    key = kb.sexpr()
    if key not in tab:
        fn = z3.Function(ctx.fresh_name("SUM"), *([I] * (len(free) + 1) + [R]))
        if not free:
            ctx.axiom(fn(z3.IntVal(0)) == 0)
            for (k2, (fn2, body2, nf2)) in list(tab.items()):
                if nf2:
                    continue
                d = ctx.fresh_int("d")
                # equal summands give equal sums
                m = z3.Int("sum_m")
                ctx.axiom(z3.Or(z3.And(d >= 0, z3.substitute(body, (idx, d)) != z3.substitute(body2, (idx, d))),
                                z3.ForAll([m], fn(m) == fn2(m), patterns=[fn(m)])))
        tab[key] = (fn, body, len(free))
    fn = tab[key][0]
    ctx.taint.add("symbolic-sum")
    return fn(*(list(free) + [to_z3(n, I)]))
