#!/usr/bin/env python3
"""Runs the check of each planted bug's property (or --prop X) on a scratch copy of /repo with the bug applied.
 python3 tools/try_seeds.py [id prefix ...] ; --quiet FILE.py: behaviour-preserving edits (EDITS), which must stay silent."""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(prop, copy):
    env = dict(os.environ, PYDV_REPO=copy, VERIF_SEED="1", PYDV_EVIDENCE=copy + ".ev")
    p = subprocess.run(["python3", os.path.join(HERE, "check.py"), prop], env=env, capture_output=True, timeout=1500)
    return p.returncode, p.stdout.decode() + p.stderr.decode()[-500:]


def main():
    quiet = "--quiet" in sys.argv
    args = [a for a in sys.argv[1:] if a != "--quiet"]
    if quiet:
        edits = runpy.run_path(args[0])["EDITS"]
        todo = [(i, e["properties"], e) for i, e in edits.items() if not args[1:] or any(i.startswith(a) for a in args[1:])]
    else:
        todo = []
        for d in sorted(glob.glob(HERE + "/seeded/*/")):
            i = os.path.basename(d[:-1])
            if not args or any(i.startswith(a) for a in args):
                todo.append((i, [json.load(open(d + "meta.json"))["property"]], d + "patch.diff"))
    for i, props, e in todo:
        tmp = tempfile.mkdtemp(prefix="try_")
        copy = tmp + "/repo"
        try:
            shutil.copytree("/repo", copy, symlinks=True)
            if quiet:
                for path, old, new in e["edits"]:
                    t = open(copy + "/" + path).read()
                    assert t.count(old) == 1, (i, path, t.count(old))
                    open(copy + "/" + path, "w").write(t.replace(old, new))
            else:
                subprocess.run(["git", "apply", e], cwd=copy, check=True)
            for p in props:
                rc, out = run(p, copy)
                lines = out.strip().splitlines()
                v = [l for l in lines if l.startswith("VIOLATION")]
                ni = [l for l in v if l.endswith("no-failing-input-found")]
                verdict = ("caught" if len(v) > len(ni) else "caught (no input)" if v else "MISSED") if not quiet else ("quiet" if rc == 0 else "ALARM")
                print("%-45s %s rc=%d %s" % (i, p, rc, verdict), lines[-1][-110:] if lines else "", flush=True)
                if (quiet and rc) or rc not in (0, 1):
                    print("\n".join("      " + l[:400] for l in lines[-12:]))
                for l in lines:
                    if l.startswith("undecided"):
                        print("      " + l[:300])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
