#!/usr/bin/env python3
"""Small changes of the code (mutants), to look for what the checks do not see.
 python3 tools/mutate.py OUT.txt [-n PER_FILE] [-s SEED] [-j JOBS] [file-substring ...]
Every mutant is made in a scratch copy; those that fail the stable tests are dropped; on the others the contracts of the properties of
the file are executed (not proved), and those that none of them notices are written to OUT.txt."""
import ast, copy, difflib, glob, json, multiprocessing, os, random, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "optimization/abstract_optimization_problem.py": "C01 C02", "optimization/nonlinear_problem.py": "C01 C02", "optimization/quadratic_problem.py": "C01 C02",
    "util/util.py": "C03 C12 C09 C05 C14 C10", "modelling/system_model.py": "C04 C05 C07 C08 C14", "modelling/mixins/": "C04 C05 C07 C08",
    "modelling/ocp.py": "C06 C07 C05 C11 C14", "modelling/dae_system.py": "C14 C11", "modelling/dataset.py": "C13", "modelling/simulation_result.py": "C14 C13",
    "modelling/utils.py": "C03 C04 C06", "methods/base/solutionmethodsbase.py": "C09 C10 C12 C11", "methods/base/discretizationschemebase.py": "C09 C10 C11 C12",
    "methods/base/optimizationresult.py": "C10 C12 C13", "methods/classic/collocationscheme.py": "C10 C11 C12 C09", "methods/classic/multipleshooting.py": "C10 C11 C12 C09",
    "methods/classic/directmethod.py": "C11 C12", "methods/augmented_lagrangian.py": "C15", "modelling/network/": "C16", "mpc/": "C17", "modelling/stochastic_ocp.py": "C18", "yaocptool/stochastic/": "C18", "estimation/": "C19"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add}
PAIRS = [("_min", "_max"), ("lb", "ub"), ("lbx", "ubx"), ("lbg", "ubg"), ("t_0", "t_f"), ("ineq", "eq"), ("start", "end"), ("lam_x", "lam_g"), ("u_guess", "y_guess"), ("n_x", "n_y"), ("n_u", "n_p"),
         ("theta", "p"), ("p_opt", "theta_opt"), ("h_initial", "h_final"), ("first", "last"), ("u_par", "u"), ("x", "y"), ("V", "L"), ("values", "names"), ("row", "column")]


def swap_name(s):
    for a, b in PAIRS:
        for p, q in ((a, b), (b, a)):
            if s == p or (p.startswith("_") and s.endswith(p)) or (len(p) > 2 and s.endswith("_" + p)) or (len(p) > 2 and s.startswith(p + "_")):
                return s[:len(s) - len(p)] + q if s.endswith(p) else q + s[len(p):]
    return None


def candidates(tree):
    """[(what, function that changes a copy in place given the path)]"""
    out = []
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def in_function(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                return n
        return None

    for i, n in enumerate(ast.walk(tree)):
        if in_function(n) is None:
            continue
        f = in_function(n)
        if isinstance(f, ast.FunctionDef) and f.name in ("__repr__", "__str__", "plot", "plot_on_axis") or isinstance(f, ast.FunctionDef) and f.name.startswith("plot"):
            continue
        p, up = n, False
        while p in parents:
            p = parents[p]
            up = up or isinstance(p, (ast.Raise, ast.arg, ast.AnnAssign)) and not isinstance(p, ast.AnnAssign) or isinstance(p, ast.JoinedStr)
        if up:
            continue
        if isinstance(n, ast.Compare):
            out.append((i, "cmp"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((i, "bin"))
        elif isinstance(n, ast.BoolOp):
            out += [(i, "bool"), (i, "drop")]
        elif isinstance(n, ast.UnaryOp):
            out.append((i, "unary"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(parents[n], (ast.Index,)):
            out.append((i, "const"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and swap_name(n.value) and not isinstance(parents[n], ast.Expr):
            out.append((i, "name"))
        elif isinstance(n, ast.Attribute) and swap_name(n.attr):
            out.append((i, "name"))
        elif isinstance(n, ast.keyword) and n.arg:
            out.append((i, "nokw"))
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append((i, "args"))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out += [(i, "true"), (i, "false")]
        elif isinstance(n, ast.Slice):
            out.append((i, "slice"))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((i, "delete"))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name):
            out.append((i, "index0"))
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
        elif isinstance(n, ast.For):
            out += [(i, "skipfirst"), (i, "reverse")]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "get_copy"):
            out.append((i, "nocopy"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "deepcopy", "copy") and len(n.args) == 1:
            out.append((i, "nocopy"))
    return out


def apply(tree, i, what):
    tree = copy.deepcopy(tree)
    nodes = list(ast.walk(tree))
    n = nodes[i]
    parents = {}
    for q in nodes:
        for c in ast.iter_child_nodes(q):
            parents[c] = q

    def replace(old, new):
        p = parents[old]
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
            elif isinstance(v, list) and any(x is old for x in v):
                k = [x is old for x in v].index(True)
                v[k] = new
    if what == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif what == "bin":
        n.op = BIN[type(n.op)]()
    elif what == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif what == "drop":
        replace(n, n.values[-1])
    elif what == "unary":
        replace(n, n.operand)
    elif what == "const":
        v = n.value
        n.value = (not v) if isinstance(v, bool) else v + 1
    elif what == "name":
        if isinstance(n, ast.Attribute):
            n.attr = swap_name(n.attr)
        else:
            n.value = swap_name(n.value)
    elif what == "nokw":
        parents[n].keywords.remove(n)
    elif what == "args":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif what in ("true", "false"):
        n.test = ast.Constant(what == "true")
    elif what == "slice":
        if n.upper is not None:
            n.upper = ast.BinOp(n.upper, ast.Sub(), ast.Constant(1))
        elif n.lower is not None:
            n.lower = ast.BinOp(n.lower, ast.Add(), ast.Constant(1))
    elif what == "delete":
        replace(n, ast.Pass())
    elif what == "index0":
        n.slice = ast.Constant(0)
    elif what == "skipfirst":
        n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
    elif what == "reverse":
        n.iter = ast.Call(ast.Name("reversed", ast.Load()), [ast.Call(ast.Name("list", ast.Load()), [n.iter], [])], [])
    elif what == "nocopy":
        replace(n, n.args[0] if n.args else n.func.value)
    return ast.unparse(ast.fix_missing_locations(tree)) + "\n"


RUN = '''
import sys, os, random
sys.path.insert(0, %(here)r); sys.path.insert(0, %(repo)r)
out = os.fdopen(os.dup(1), "w", buffering=1)
null = os.open("/dev/null", 1); os.dup2(null, 1); os.dup2(null, 2)
import tempfile; os.chdir(tempfile.mkdtemp())
import glob, importlib
import pydv
from pydv import contract as C
for f in sorted(glob.glob(%(here)r + "/contracts/*.py")):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])
props = %(props)r
for p in props:
    for c in C.ORDER:
        if p not in c.props: continue
        for s in range(min(c.runs, 60)):
            try:
                r, tr = C.run_concrete(c, s)
            except BaseException as e:
                r = "harness %%s %%s" %% (type(e).__name__, e)
            if r and r != "skip":
                print("CAUGHT", c.id, str(r)[:150].replace("\\n", " "), file=out); os._exit(0)
print("MISSED", file=out); os._exit(0)
'''


def stable(cp):
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = set(next(base[k] for k in ("stable", "passed", "pass", "stable_pass") if k in base))
    s = re.sub(r"/repo\b", cp, open("/opt/vp/test.sh").read()).replace("export MPLBACKEND", "export PYTHONPATH=%s MPLBACKEND" % cp).replace("--timeout=300", "--timeout=40").replace("/opt/vp/report", cp + ".report")
    open(cp + ".sh", "w").write(s)
    try:
        subprocess.run("bash %s.sh %s.json" % (cp, cp), shell=True, cwd=cp, capture_output=True, timeout=120)
        d = json.load(open(cp + ".json"))
    except Exception:
        return False
    return not (names - set(d.get("passed") or d.get("stable") or d.get("pass") or ()))


def one(job):
    rel, i, what, src = job
    tmp = tempfile.mkdtemp(prefix="mut_")
    cp = tmp + "/repo"
    try:
        shutil.copytree("/repo", cp, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        path = cp + "/yaocptool/" + rel
        tree = ast.parse(open(path).read())
        old = ast.unparse(tree) + "\n"
        try:
            new = apply(tree, i, what)
            compile(new, path, "exec")
        except Exception as e:
            return rel, what, "bad", str(e), ""
        if new == old:
            return rel, what, "same", "", ""
        open(path, "w").write(new)
        d = "\n".join(l for l in difflib.unified_diff(old.splitlines(), new.splitlines(), lineterm="", n=2))
        if not stable(cp):
            return rel, what, "tests", "", d
        props = next(v for k, v in FILES.items() if rel.startswith(k) or rel == k).split()
        env = dict(os.environ, PYDV_REPO=cp, PYDV_CHILD="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", TMPDIR=tmp)
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", RUN % dict(here=HERE, repo=cp, props=props)], env=env, capture_output=True, timeout=400)
            v = r.stdout.decode().strip().splitlines()[-1:] or ["ended " + r.stderr.decode()[-200:]]
            v = v[0]
        except subprocess.TimeoutExpired:
            v = "TIMEOUT"
        return rel, what, v.split()[0].lower(), v, d
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = {"-n": 40, "-s": 1, "-j": 6}
    for k in list(opt):
        if k in a:
            j = a.index(k)
            opt[k] = int(a[j + 1])
            del a[j:j + 2]
    out, subs = a[0], a[1:]
    rng = random.Random(opt["-s"])
    jobs = []
    for k in FILES:
        for path in sorted(glob.glob("/repo/yaocptool/" + k + ("*.py" if k.endswith("/") else ""))):
            rel = os.path.relpath(path, "/repo/yaocptool")
            if subs and not any(s in rel for s in subs) or rel.endswith("__init__.py"):
                continue
            src = open(path).read()
            c = candidates(ast.parse(src))
            rng.shuffle(c)
            jobs += [(rel, i, w, None) for i, w in c[:opt["-n"]]]
    rng.shuffle(jobs)
    tally = {}
    with open(out, "w") as f, multiprocessing.Pool(opt["-j"], maxtasksperchild=1) as pool:
        for rel, what, verdict, text, d in pool.imap_unordered(one, jobs):
            tally[verdict] = tally.get(verdict, 0) + 1
            if verdict not in ("tests", "same", "bad", "caught"):
                f.write("=== %s %s %s %s\n%s\n\n" % (verdict, rel, what, text, d))
                f.flush()
            print(tally, flush=True)


main()
