#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package, on which every check must stay silent.
 python3 tools/quiet_edits.py [-k KIND,KIND] [C01 C02 ...]     (scratch copies of /repo; KIND: see KINDS)"""
import ast, copy, glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fresh(node, i=[0]):
    i[0] += 1
    return "tmp_%d" % i[0]


def load(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


class Stmts(ast.NodeTransformer):
    """Rewrites statement by statement inside functions."""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        return f


class NameTests(Stmts):
    """if <test>: -> flag = <test>; if flag:   and   return e -> out = e; return out"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Name):
            return n
        t = fresh(n)
        a = ast.Assign([store(t)], n.test)
        n.test = load(t)
        return [a, n]

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        t = fresh(n)
        return [ast.Assign([store(t)], n.value), ast.Return(load(t))]


def fix_elif(tree):
    return tree


class Invert(Stmts):
    """if a: X else: Y -> if not a: Y else: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Unroll(Stmts):
    """x = [e for v in it if c] -> loop with append; the same for dictionaries"""
    def __init__(self):
        self.pre = []

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n

    def visit_FunctionDef(self, f):
        f.body = self.block(f.body)
        return f

    def block(self, body):
        out = []
        for s in body:
            for fld in ("body", "orelse", "finalbody"):
                if getattr(s, fld, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, fld, self.block(getattr(s, fld)))
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1:
                c = s.value
                g = c.generators[0]
                t = fresh(s)
                names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                ren = {x: x + "_" + t for x in names}

                class R(ast.NodeTransformer):
                    def visit_Name(self, x):
                        return ast.Name(ren.get(x.id, x.id), x.ctx)
                r = R()
                tgt = r.visit(copy.deepcopy(g.target))
                if isinstance(c, ast.ListComp):
                    inner = [ast.Expr(ast.Call(ast.Attribute(load(t), "append", ast.Load()), [r.visit(copy.deepcopy(c.elt))], []))]
                    init = ast.List([], ast.Load())
                else:
                    inner = [ast.Assign([ast.Subscript(load(t), r.visit(copy.deepcopy(c.key)), ast.Store())], r.visit(copy.deepcopy(c.value)))]
                    init = ast.Dict([], [])
                for i in reversed(g.ifs):
                    inner = [ast.If(r.visit(copy.deepcopy(i)), inner, [])]
                out += [ast.Assign([store(t)], init), ast.For(tgt, g.iter, inner, [])]
                s.value = load(t)
            out.append(s)
        return out


class Rename(Stmts):
    """Local variables of functions get other names (functions with nested scopes are left)."""
    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not f for x in ast.walk(f)):
            return f
        args = {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
        glob_ = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        names = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args - glob_
        names -= {n for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names for n in [a.asname or a.name]}
        hs = {h.name for h in ast.walk(f) if isinstance(h, ast.ExceptHandler) and h.name}
        names -= hs
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = x.id + "_value"
        return f


class NoOps(Stmts):
    """A statement that does nothing at the start of every function and loop."""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body = f.body[:k] + [ast.Assign([store("unused_")], ast.Constant(0)), ast.Pass()] + f.body[k:]
        return f

    def visit_For(self, n):
        self.generic_visit(n)
        n.body = n.body + [ast.Pass()]
        return n


class Aug(Stmts):
    """a.b += e -> a.b = a.b + e (numbers and matrices only: names bound to lists are left)"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Attribute) and isinstance(n.op, ast.Add) and n.target.attr in ("L", "V", "S", "_nodes_id_counter", "n_relax"):
            r = copy.deepcopy(n.target)
            r.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(r, n.op, n.value))
        return n


class While(Stmts):
    """for i in range(n) -> while, where the body has no break or continue"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) \
                and not n.orelse and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(n)):
            t, m = fresh(n), fresh(n)
            return [ast.Assign([store(m)], n.iter.args[0]), ast.Assign([store(t)], ast.Constant(0)),
                    ast.While(ast.Compare(load(t), [ast.Lt()], [load(m)]), [ast.Assign([store(n.target.id)], load(t))] + n.body +
                              [ast.AugAssign(store(t), ast.Add(), ast.Constant(1))], [])]
        return n


class Split(Stmts):
    """The body of every method moves to a helper the method calls."""
    def visit_ClassDef(self, c):
        out = []
        for b in c.body:
            if isinstance(b, ast.FunctionDef) and not b.decorator_list and not (b.name.startswith("__") and b.name != "__init__") and b.args.args and b.args.args[0].arg == "self" \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(b)) and not any(isinstance(x, ast.Name) and x.id == "__class__" for x in ast.walk(b)):
                h = copy.deepcopy(b)
                h.name = "_impl_of_" + b.name.strip("_") + "_" + c.name.lower()
                h.args.defaults, h.args.kw_defaults = [], [None] * len(h.args.kwonlyargs)
                a = b.args
                call = ast.Call(ast.Attribute(load("self"), h.name, ast.Load()), [load(x.arg) for x in a.args[1:]] + ([ast.Starred(load(a.vararg.arg), ast.Load())] if a.vararg else []),
                                [ast.keyword(x.arg, load(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, load(a.kwarg.arg))] if a.kwarg else []))
                doc = b.body[:1] if b.body and isinstance(b.body[0], ast.Expr) and isinstance(b.body[0].value, ast.Constant) else []
                b.body = doc + [ast.Return(call)]
                out += [b, h]
            else:
                out.append(b)
        c.body = out
        return c


class Tern(Stmts):
    """x = a if c else b -> if statement"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)):
            v = n.value
            return ast.If(v.test, [ast.Assign([copy.deepcopy(n.targets[0])], v.body)], [ast.Assign([copy.deepcopy(n.targets[0])], v.orelse)])
        return n


class Enum(Stmts):
    """for x in xs -> for k, x in enumerate(xs); calls x = f(g(y)) get a name for g(y)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(load("enumerate"), [n.iter], [])
        n.target = ast.Tuple([store(fresh(n)), n.target], ast.Store())
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.Call) and n.value.args and isinstance(n.value.args[0], ast.Call) and isinstance(n.value.func, ast.Name):
            t = fresh(n)
            a = n.value.args[0]
            n.value.args[0] = load(t)
            return [ast.Assign([store(t)], a), n]
        return n


class Kw(Stmts):
    """vertcat(a, b) -> vertcat(*[a, b]); x.numel() stays; not a == b -> a != b"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("vertcat", "horzcat") and not any(isinstance(a, ast.Starred) for a in n.args):
            n.args = [ast.Starred(ast.List(n.args, ast.Load()), ast.Load())]
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1:
            o = n.operand.ops[0]
            m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn}.get(type(o))
            if m:
                n.operand.ops = [m()]
                return n.operand
        return n


KINDS = dict(names=NameTests, invert=Invert, unroll=Unroll, rename=Rename, noops=NoOps, aug=Aug, loops=While, split=Split, tern=Tern, enum=Enum, star=Kw)


def tests_pass(copy_):
    import re
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(next(base[k] for k in ("stable", "passed", "pass", "stable_pass") if k in base))
    s = re.sub(r"/repo\b", copy_, open("/opt/vp/test.sh").read()).replace("export MPLBACKEND", "export PYTHONPATH=%s MPLBACKEND" % copy_)
    open(copy_ + ".sh", "w").write(s)
    subprocess.run("bash %s.sh %s.json" % (copy_, copy_), shell=True, cwd=copy_, capture_output=True)
    d = json.load(open(copy_ + ".json"))
    return stable - set(d.get("passed") or d.get("stable") or d.get("pass"))


def main():
    args = sys.argv[1:]
    kinds = list(KINDS)
    if "-k" in args:
        i = args.index("-k")
        kinds = args[i + 1].split(",")
        del args[i:i + 2]
    props = args or [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
    for k in kinds:
        tmp = tempfile.mkdtemp(prefix="quiet_")
        cp = tmp + "/repo"
        try:
            shutil.copytree("/repo", cp, symlinks=True)
            for f in glob.glob(cp + "/yaocptool/**/*.py", recursive=True):
                t = ast.parse(open(f).read())
                t = ast.fix_missing_locations(KINDS[k]().visit(t))
                open(f, "w").write(ast.unparse(t) + "\n")
            bad = tests_pass(cp)
            print("%s: stable tests %s" % (k, "pass" if not bad else "FAIL %s" % sorted(bad)[:3]), flush=True)
            for p in props:
                env = dict(os.environ, PYDV_REPO=cp, VERIF_SEED="1", PYDV_EVIDENCE=cp + ".ev")
                r = subprocess.run(["python3", HERE + "/check.py", p], env=env, capture_output=True, timeout=1500)
                lines = r.stdout.decode().strip().splitlines()
                v = [l for l in lines if l.startswith("VIOLATION")]
                und = [l for l in lines if l.startswith("undecided") or l.startswith("check incomplete")]
                word = "quiet" if r.returncode == 0 else "alarm (no input)" if v and all(l.endswith("no-failing-input-found") for l in v) else "ALARM rc=%d" % r.returncode
                print("  %-8s %s %s %s" % (k, p, word, lines[-1][-100:] if lines else r.stderr.decode()[-300:]), flush=True)
                for l in (lines[-8:-1] if r.returncode else []) + und:
                    print("        " + l[:260], flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
