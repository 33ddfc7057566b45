#!/usr/bin/env python3
"""Decides one property: proves the contracts registered for it from /repo's current source, executes them on the real
code, writes evidence/<id>.json.   check.py C01 [--tier quick|thorough]   |   check.py --replay FILE"""
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and not os.environ.get("PYDV_CHILD"):
    env = dict(os.environ, PYDV_CHILD="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1")
    env.setdefault("MPLCONFIGDIR", tempfile.gettempdir())
    os.execve(PY, [PY, "-W", "ignore"] + sys.argv, env)

REPO = os.environ.get("PYDV_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import pydv  # noqa: E402,F401
from pydv import contract as C  # noqa: E402

EVID = os.environ.get("PYDV_EVIDENCE", os.path.join(HERE, "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1"))


def load():
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
        name = os.path.basename(f)[:-3]
        if name != "__init__":
            importlib.import_module("contracts." + name)


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def with_limit(seconds, fn):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def quiet():
    """Solvers print to file descriptor 1; the verdict lines must stay readable."""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def scratch():
    d = tempfile.mkdtemp(prefix="pydv_")
    os.chdir(d)
    return d


# ------------------------------------------------------------------------------------------------ jobs
def job_prove(cid, tier):
    c = C.REG[cid]
    smt = []
    dump = None
    if tier == "thorough":
        def dump(name, ctx, goal):
            if len(smt) < 60:
                smt.append((name, C.smt2_of(ctx, goal)))
    obs, info = C.prove_contract(c, c.budget * (4 if tier == "thorough" else 1), dump)
    out = {"kind": "prove", "id": cid, "obs": [o.as_dict() for o in obs],
           "info": {k: (sorted(v) if isinstance(v, set) else v) for k, v in info.items()}}
    if tier == "thorough":
        out["cvc5"] = cross(smt)
    return out


def cross(smt):
    """Second back end: cvc5 on the same obligations (agreement only; it never overrides z3's verdict on its own)."""
    res = {"unsat": 0, "sat": 0, "unknown": 0}
    for name, text in smt:
        try:
            p = subprocess.run(["cvc5", "--tlimit=3000", "--lang=smt2"], input=text.encode(), capture_output=True, timeout=8)
            w = p.stdout.decode().split()
            r = w[0] if w and w[0] in res else "unknown"
        except Exception:
            r = "unknown"
        res[r] += 1
        if r == "sat":
            res.setdefault("sat_names", []).append(name)
    return res


def job_run(cid, seeds, values, big, limit):
    """Executions of the real code under the contract."""
    c = C.REG[cid]
    d = scratch()
    runs = skips = 0
    fails, sample, err = [], None, None
    t_end = time.time() + limit
    distinct = set()
    try:
        for s in seeds:
            if time.time() > t_end or len(fails) >= 3:
                break
            for v in (values or [None]):
                try:
                    r, tr = with_limit(max(5.0, limit), lambda: C.run_concrete(c, s, v, big))
                except Timeout:
                    if runs:
                        break
                    r, tr = None, []
                    err = "timeout"
                    break
                except Exception as e:
                    if not in_repo(e):
                        raise
                    # the code under test failed while the contract prepared or read a legitimate state
                    r, tr = "unexpected %s: %s" % (type(e).__name__, traceback.format_exc()[-600:]), []
                runs += 1
                if r == "skip":
                    skips += 1
                    continue
                distinct.add(repr(tr))
                if sample is None:
                    sample = {"contract": cid, "seed": s, "inputs": [list(x) for x in tr][:40]}
                if r is not None:
                    fails.append({"contract": cid, "seed": s, "values": v, "big": big, "what": r, "inputs": [list(x) for x in tr]})
                    break
    except Exception:
        err = traceback.format_exc()[-2500:]
    finally:
        os.chdir("/")
        subprocess.run(["rm", "-rf", d])
    return {"kind": "run", "id": cid, "runs": runs, "skips": skips, "fails": fails, "sample": sample, "error": err,
            "distinct": len(distinct)}


def in_repo(e):
    return any(f.filename.startswith(REPO + "/") for f in traceback.extract_tb(e.__traceback__))


def worker(job):
    quiet()
    try:
        import logging
        logging.disable(logging.CRITICAL)
        return {"prove": job_prove, "run": job_run}[job[0]](*job[1:])
    except Exception:
        return {"kind": job[0], "id": job[1], "crash": traceback.format_exc()[-2500:]}


def pool_map(jobs, limit):
    """Each job in its own process (a crash or a hang of native code takes down only that job)."""
    res = []
    todo = list(jobs)
    live = []
    ctx = mp.get_context("fork")
    t_end = time.time() + limit
    while todo or live:
        while todo and len(live) < 8:
            j = todo.pop(0)
            r, w = ctx.Pipe(False)

            def main(j=j, w=w):
                out = worker(j)
                w.send(out)
                w.close()
            p = ctx.Process(target=main)
            p.start()
            w.close()
            live.append((p, r, j, time.time()))
        for x in list(live):
            p, r, j, t0 = x
            if r.poll(0):
                try:
                    res.append(r.recv())
                except EOFError:
                    res.append({"kind": j[0], "id": j[1], "crash": "worker died (exit %s)" % p.exitcode})
                p.join(5)
                live.remove(x)
            elif not p.is_alive():
                res.append({"kind": j[0], "id": j[1], "crash": "worker died (exit %s)" % p.exitcode})
                live.remove(x)
            elif time.time() > t_end:
                p.kill()
                res.append({"kind": j[0], "id": j[1], "crash": "time limit"})
                live.remove(x)
        if time.time() > t_end:
            res.extend({"kind": j[0], "id": j[1], "crash": "time limit (not started)"} for j in todo)
            todo = []
        time.sleep(0.01)
    return res


# ------------------------------------------------------------------------------------------------ verdict
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    args = ap.parse_args()
    load()
    if args.replay:
        return replay(args.replay)
    prop, tier = args.prop, args.tier
    t0 = time.time()
    total = 700 if tier == "quick" else 3000
    mine = [c for c in C.ORDER if prop in c.props and args.only in c.id]
    if not mine:
        print("no contract for", prop)
        return 2
    findings = [f for f in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if f["property"] == prop]
    mult = 1 if tier == "quick" else 12
    done, results, runs = set(), {}, {}
    jobs = []

    def add(c):
        if c.id in done:
            return
        done.add(c.id)
        if c.bounded is None:
            jobs.append(("prove", c.id, tier))
        seeds = list(range(SEED * 1000, SEED * 1000 + c.runs * mult))
        parts = 1 if c.bounded is None else min(8, 1 + len(seeds) // 40)
        for i in range(parts):
            jobs.append(("run", c.id, seeds[i::parts], None, False, c.budget * (1 if tier == "quick" else 6)))
        if tier == "thorough":
            jobs.append(("run", c.id, list(range(SEED * 1000 + 500000, SEED * 1000 + 500000 + c.runs * 4)), None, True, c.budget * 3))
    for c in mine:
        add(c)
    while jobs:
        batch, jobs = jobs, []
        for r in pool_map(batch, total - (time.time() - t0)):
            (results if r["kind"] == "prove" else runs).setdefault(r["id"], []).append(r)
            for key in r.get("info", {}).get("by_contract", []):
                if key in C.BY_FUNC:
                    add(C.BY_FUNC[key])      # the callee's contract was assumed: it is proved too
    # second round: obligations that are not discharged are looked for on the real code
    again = []
    found = any(not any(f["contract"] == cid and f["match"] in x["what"] for f in findings)
                for cid, rs in runs.items() for r in rs for x in r.get("fails", []))
    for cid, rs in ({} if found else results).items():
        bad = [o for r in rs for o in r.get("obs", []) if o["status"] in ("failed", "unknown")]
        if bad and not any(r["fails"] for r in runs.get(cid, []) if "fails" in r):
            vals, seen = [], set()
            for o in bad:
                k = json.dumps(o["values"], sort_keys=True)
                if o["values"] and k not in seen and len(vals) < 25:
                    seen.add(k)
                    vals.append(o["values"])
            if vals:
                again.append(("run", cid, list(range(SEED * 1000 + 7000, SEED * 1000 + 7012)), vals, False, 60))
            again.append(("run", cid, list(range(SEED * 1000 + 8000, SEED * 1000 + 8000 + 6 * C.REG[cid].runs)), None, True, 90))
        elif any(o["status"] == "unsupported" for r in rs for o in r.get("obs", [])) or any("crash" in r for r in rs):
            again.append(("run", cid, list(range(SEED * 1000 + 8000, SEED * 1000 + 8000 + 4 * C.REG[cid].runs)), None, True, 90))
    for r in pool_map(again, max(60, total - (time.time() - t0))):
        runs.setdefault(r["id"], []).append(r)

    # ---- collect
    violations, known, broken, undecided = [], [], [], []
    obligations = discharged = 0
    solver_s, queries, paths = 0.0, 0, 0
    proved_contracts, backends, trusted, inlined, used = [], {}, set(), set(), set()
    cv = {}
    for cid in sorted(done):
        c = C.REG[cid]
        fails = [f for r in runs.get(cid, []) for f in r.get("fails", [])]
        crashes = [r["crash"] for r in runs.get(cid, []) + results.get(cid, []) if "crash" in r]
        errs = [r["error"] for r in runs.get(cid, []) if r.get("error")]
        obs = [o for r in results.get(cid, []) for o in r.get("obs", [])]
        obligations += len(obs)
        ok = [o for o in obs if o["status"] == "proved"]
        discharged += len(ok)
        for o in ok:
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        for r in results.get(cid, []):
            i = r.get("info", {})
            solver_s += i.get("solver_s", 0)
            queries += i.get("queries", 0)
            paths += i.get("paths", 0)
            trusted |= set(i.get("assumed", []))
            inlined |= set(i.get("inlined", []))
            used |= set(i.get("by_contract", []))
            for k, v in r.get("cvc5", {}).items():
                if isinstance(v, int):
                    cv[k] = cv.get(k, 0) + v
                else:
                    cv.setdefault(k, []).extend(v)
        if obs and len(ok) == len(obs):
            proved_contracts.append(cid)
        listed = [f for f in findings if f["contract"] == cid]
        if fails and listed and all(any(f["match"] in x["what"] for f in listed) for x in fails):
            known.append((cid, listed[0]["what"]))
            continue
        bad = [o for o in obs if o["status"] in ("failed", "unknown")]
        if fails:
            violations.append((cid, fails, bad, True))
        elif [o for o in bad if not o["taint"]]:
            violations.append((cid, [], [o for o in bad if not o["taint"]], False))
        elif bad or any(o["status"] == "unsupported" for o in obs):
            undecided.append((cid, [o for o in obs if o["status"] != "proved"]))
        nruns = sum(r.get("runs", 0) - r.get("skips", 0) for r in runs.get(cid, []))
        if errs or (crashes and not fails):
            broken.append((cid, (errs + crashes)[0]))
        elif nruns == 0 and not fails:
            broken.append((cid, "no execution of the contract"))
    rd = os.path.join(EVID, "replay")
    os.makedirs(rd, exist_ok=True)
    if any(real for *_, real in violations):
        # obligations without a failing input are listed, but the alarm is the one with the input
        for cid, fails, bad, real in violations:
            if not real:
                print("also failed: %s" % ", ".join(o["name"] for o in bad[:3]))
        violations = [v for v in violations if v[3]]
    for cid, fails, bad, real in violations:
        path = os.path.join(rd, "%s.%s.json" % (prop, cid.replace("/", "_")))
        with open(path, "w") as f:
            json.dump({"property": prop, "contract": cid, "target": C.REG[cid].target, "failing_inputs": fails,
                       "failed_obligations": bad[:40],
                       "how_to_replay": "python3 %s --replay %s" % (os.path.join(HERE, "check.py"), path)}, f, indent=1, default=str)
        for x in fails[:1]:
            print("contract %s (%s): %s" % (cid, C.REG[cid].target, x["what"][:600]))
        for o in bad[:3]:
            print("obligation %s: %s %s" % (o["name"], o["status"], o["detail"][:300].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if real else " no-failing-input-found"))
    for cid, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for cid, os_ in undecided:
        print("undecided by proof, executed as a bounded check: %s (%s)" % (cid, (os_[0]["detail"] or os_[0]["status"])[:200].replace("\n", " ")))
    for cid, e in broken:
        print("check incomplete: %s: %s" % (cid, e[-600:]))
    allruns = [r for rs in runs.values() for r in rs if "runs" in r]
    bounded_ids = sorted(c for c in done if c not in proved_contracts)
    level = "proof" if obligations and not bounded_ids else ("proof" if obligations and discharged == obligations else "other")
    funcs = sorted({C.REG[c].target for c in done})
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": level,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "python3 check.py %s --tier %s" % (prop, tier),
            "trusted_base": sorted(trusted) + ["pydv interpreter (semantics of the Python subset)", "pydv/matlib.py (model of casadi)", "z3 5.3"],
            "functions_under_contract": funcs,
            "functions_proved": sorted({C.REG[c].target for c in proved_contracts}),
            "contracts_proved": proved_contracts,
            "bodies_executed_symbolically": sorted(inlined), "callees_used_by_contract": sorted(used),
            "paths": paths, "solver_queries": queries, "solver_s": round(solver_s, 2), "discharged_by": backends,
            "bounded": [{"contract": c, "target": C.REG[c].target, "reason": C.REG[c].bounded or "proof undecided on this tree",
                         "runs": sum(r.get("runs", 0) for r in runs.get(c, []))} for c in bounded_ids],
            "evaluations": sum(r["runs"] for r in allruns),
            "distinct_nontrivial": sum(r["distinct"] for r in allruns),
            "rule": "contract clauses evaluated around a call of the real function on generated inputs; a run is non-trivial when the generated input satisfies the precondition, distinct when its generated values differ",
            "samples": [r["sample"] for r in allruns if r["sample"]][:3],
            "explanation": "deductive verification of contracts over the source of /repo parsed on this run; the contracts listed under 'bounded' are executed only",
        },
        "assumptions": ["casadi and Python built-ins behave as modelled in pydv/matlib.py and pydv/externals.py (compared with the real ones by selftest/diff_models.py)",
                        "numbers are mathematical reals; two expressions are the same when they agree under every valuation of their symbols",
                        "inputs have the form the contract's precondition states (symbolic column vectors, consistent sizes)"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
        "undecided": [c for c, _ in undecided], "incomplete": [c for c, _ in broken], "known_findings": [w for _, w in known],
    }
    if cv:
        ev["coverage"]["cvc5_cross_check"] = cv
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d/%d obligations discharged over %d paths, %d contracts (%d proved, %d bounded), %d executions, %.1fs" % (
        prop, discharged, obligations, paths, len(done), len(proved_contracts), len(bounded_ids), ev["coverage"]["evaluations"], ev["wall_s"]))
    if violations:
        return 1
    # a contract that could not be executed decides nothing; the others did
    return 3 if len(broken) == len(done) else 0


def replay(path):
    d = json.load(open(path))
    c = C.REG[d["contract"]]
    bad = 0
    sd = scratch()
    try:
        for x in d["failing_inputs"]:
            r, tr = C.run_concrete(c, x["seed"], x["values"], x["big"])
            print("input", tr)
            print("->", r)
            bad += r not in (None, "skip")
    finally:
        os.chdir("/")
        subprocess.run(["rm", "-rf", sd])
    if not d["failing_inputs"]:
        obs, info = C.prove_contract(c)
        for o in obs:
            if o.status != "proved":
                print(o.name, o.status, o.detail[:500])
                bad += 1
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
