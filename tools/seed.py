#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description file: python3 tools/seed.py FILE.py [id ...]
FILE.py defines SEEDS = {id: dict(property=, needs=, breaks=, edits=[(path, old, new)], demo="python code")}.
A change is kept only when it applies, the stable tests still pass with it, and its demonstration passes without it and
fails with it.  Everything happens in a scratch copy of /repo."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = set(next(BASE[k] for k in ("stable", "passed", "pass", "stable_pass") if k in BASE))
DEMO = '''#!/bin/bash
cd "${REPO_DIR:-$PWD}"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR="$T"
cd "$T" && exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''
DEMO = DEMO.replace('cd "$T" && exec', 'cd "$T" &&')


def sh(cmd, cwd, t=280):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, timeout=t)
    except subprocess.TimeoutExpired:
        class R: returncode, stdout, stderr = 99, b"timeout", b""
        return R


def tests(copy):
    # the suite runs from the scratch copy: same command line, other root
    s = re.sub(r"/repo\b", copy, open("/opt/vp/test.sh").read())
    s = s.replace("export MPLBACKEND", "export PYTHONPATH=%s MPLBACKEND" % copy)
    f = copy + ".test.sh"
    open(f, "w").write(s)
    out = copy + ".json"
    sh("bash %s %s" % (f, out), copy, 600)
    d = json.load(open(out))
    return STABLE - set(d.get("passed") or d.get("stable") or d.get("pass"))


def one(i, s):
    tmp = tempfile.mkdtemp(prefix="seed_")
    copy = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        dd = os.path.join(tmp, "d")
        os.makedirs(dd)
        open(dd + "/demo.sh", "w").write(DEMO)
        open(dd + "/demo.py", "w").write(s["demo"].strip() + "\n")
        r0 = sh("bash %s/demo.sh" % dd, copy)
        if r0.returncode != 0:
            return "demo fails on the unchanged tree: " + (r0.stdout + r0.stderr).decode()[-600:]
        for path, old, new in s["edits"]:
            p = os.path.join(copy, path)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit matches %d times in %s: %r" % (t.count(old), path, old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", copy).stdout
        r1 = sh("bash %s/demo.sh" % dd, copy)
        if r1.returncode == 0:
            return "demo passes with the change"
        miss = tests(copy)
        if miss:
            return "stable tests fail with the change: %s" % sorted(miss)[:4]
        out = os.path.join(HERE, "seeded", i)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(dd, out)
        open(out + "/patch.diff", "wb").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return "ok (%s)" % (r1.stdout + r1.stderr).decode().strip().splitlines()[-1:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    todo = [i for i in seeds if not sys.argv[2:] or any(i.startswith(a) for a in sys.argv[2:])]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for i, r in zip(todo, ex.map(lambda i: one(i, seeds[i]), todo)):
            print(i, r)


main()
