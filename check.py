#!/opt/veriftools/pyvenv/bin/python
"""check.py ID [quick|thorough]: decides one property on /repo's current source.

1. Every verification unit of the property is run: the functions of /repo are
   read from the working tree, executed symbolically against the contracts in
   contracts/*.py, and each obligation is handed to z3.
2. A refuted obligation is a violation; the concrete harness of the property
   (replay/) searches for a failing input of the real code to replay.
3. If some function has left the verified subset (or the solver gave up), the
   concrete harness stands in as a bounded check, labelled so in the evidence.
4. A short run of the concrete harness also guards the assumed contracts."""
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from contracts import common, all as allmods        # noqa: E402
from pyvc import terms as T                         # noqa: E402

PY = "/opt/venv/bin/python"


def run_job(job):
    ui, var, budget, smt = job
    u = common.UNITS[ui]
    t0 = time.time()
    out = {"unit": u.name, "variant": repr(var) if var is not None else "", "error": None, "obls": [],
           "unsupported": [], "covers": [], "expect": list(u.expect)}
    try:
        T.STATS.__init__()
        eng = common.Engine(u.name)
        eng.deadline = t0 + budget
        eng.collect_smt = smt
        if u.setup:
            u.setup(eng)
        eng.explore(lambda ctx: u.fn(ctx, var))
        out.update(
            obls=[(o.name, o.tags, o.status, o.where, json_safe(o.info) if o.status != "valid" else None) for o in eng.obls],
            unsupported=[[str(a), str(b)] for a, b in eng.unsupported],
            covers=sorted(eng.covers), functions=sorted(eng.repo_hits),
            contracts=sorted(k for k in eng.contract_hits), assumed=sorted(eng.assumed),
            paths=eng.paths, queries=T.STATS.queries, unknown=T.STATS.unknown, solver_s=T.STATS.solver_s,
            loops=len(eng.loops), smt=eng.smt_samples[:60] if smt else [])
    except BaseException as e:          # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        out["error"] = traceback.format_exc()[-3000:]
    out["wall_s"] = time.time() - t0
    return out


def json_safe(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return str(x)[:4000]


def replay_cmd(prop, seconds, seed, out, repo):
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    cmd = [PY, os.path.join(HERE, "replay", "run.py"), prop, "--seconds", str(seconds),
           "--seed", str(seed), "--out", out]
    return subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                            start_new_session=True)


def replay_search(prop, seconds, seed, repo, procs=1):
    """run the concrete harness; returns the merged result"""
    if not os.path.exists(os.path.join(HERE, "replay", "run.py")):
        return {"found": None, "evaluations": 0, "distinct": 0, "error": "no harness"}
    ps = []
    base = os.path.join(HERE, "evidence", "tmp-%s-%d" % (prop, os.getpid()))
    for i in range(procs):
        o = "%s-%d.json" % (base, i)
        ps.append((replay_cmd(prop, seconds, seed * 1000 + i, o, repo), o))
    res = {"found": None, "evaluations": 0, "distinct": 0, "error": None, "samples": []}
    end = time.time() + seconds + 60
    for p, o in ps:
        try:
            _, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            err = b"timeout"
        try:
            with open(o) as f:
                r = json.load(f)
            os.unlink(o)
        except (OSError, ValueError):
            res["error"] = (err or b"").decode("utf8", "replace")[-1500:] or "no result"
            continue
        res["evaluations"] += r["evaluations"]
        res["distinct"] += r["distinct"]
        res["samples"] = (res["samples"] + r.get("samples", []))[:3]
        res["rule"] = r.get("rule", "")
        if r.get("harness_error"):
            res["error"] = r["harness_error"]
        if r["found"] and not res["found"]:
            res["found"] = r["found"]
    return res


def known_findings(prop):
    """known-findings.jsonl: {"property","status":"known"|"fixed","match":..., "what":...}"""
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if line:
                    k = json.loads(line)
                    if k["property"] == prop and k["status"] == "known":
                        out.append(k)
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    repo = common.REPO
    t0 = time.time()
    thorough = tier == "thorough"
    allmods.load()
    jobs = []
    budget = 3000 if thorough else 540
    for i, u in enumerate(common.UNITS):
        if prop in u.props:
            for v in u.variants:
                jobs.append((i, v, u.budget or budget, thorough))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    try:
        os.unlink(ev_path)
    except OSError:
        pass
    if not jobs:
        print("no verification units for", prop)
        return 2
    conf_s = 60 if thorough else 8
    results = []
    with mp.get_context("fork").Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(run_job, jobs, chunksize=1)
        hard = t0 + (3300 if thorough else 660)
        for _ in jobs:
            try:
                results.append(it.next(timeout=max(1, hard - time.time())))
            except mp.TimeoutError:
                results.append({"unit": "?", "variant": "", "error": "hard time limit", "obls": [],
                                "unsupported": [], "covers": [], "expect": []})
                break
        pool.terminate()

    obls, undecided, failed = [], [], []
    covers, expect, funcs, contracts, assumed = {}, {}, set(), set(), set()
    queries = unknown = paths = 0
    solver_s = 0.0
    for r in results:
        nm = "%s[%s]" % (r["unit"], r["variant"]) if r["variant"] else r["unit"]
        if r["error"]:
            undecided.append("%s: %s" % (nm, r["error"]))
        for a, b in r["unsupported"]:
            undecided.append("%s: outside the verified subset: %s (%s)" % (nm, a, b))
        covers.setdefault(r["unit"], set()).update(r["covers"])
        expect.setdefault(r["unit"], set()).update(r["expect"])
        funcs.update(r.get("functions", ()))
        contracts.update(r.get("contracts", ()))
        assumed.update(r.get("assumed", ()))
        queries += r.get("queries", 0)
        unknown += r.get("unknown", 0)
        paths += r.get("paths", 0)
        solver_s += r.get("solver_s", 0.0)
        for o in r["obls"]:
            if o[1] and prop not in o[1]:
                continue
            obls.append((nm,) + tuple(o))
            if o[2] == "valid":
                continue
            if o[2] == "unknown":
                undecided.append("%s: solver gave up on '%s' at %s" % (nm, o[0], o[3]))
            else:
                failed.append((nm,) + tuple(o))
    for u in expect:
        for c in sorted(expect[u] - covers.get(u, set())):
            if not failed:
                undecided.append("%s: expected situation never reached: %s" % (u, c))
    if not obls and not failed:
        undecided.append("no obligation was generated")

    known = known_findings(prop)
    knownhit = {}
    fresh_failed = []
    for f in failed:
        k = next((k for k in known if k.get("obligation") and k["obligation"] in f[1]
                  and (not k.get("where") or k["where"] in f[4])), None)
        if k:
            knownhit[k["what"]] = k
        else:
            fresh_failed.append(f)

    bounded = bool(undecided)
    secs = conf_s
    if fresh_failed or bounded:
        secs = 150 if thorough else 75
    left = (3500 if thorough else 800) - (time.time() - t0)
    secs = max(5, min(secs, left - 70))
    rep = replay_search(prop, secs, seed, repo, procs=6 if (fresh_failed or bounded) else 2)
    found = rep["found"]
    distinct_names = sorted({(f[0], f[1], f[4]) for f in fresh_failed})
    samples = [{"unit": o[0], "obligation": o[1], "at": o[4], "status": o[3]} for o in obls[:: max(1, len(obls) // 12)]][:14]
    checker = "python3-vt check.py %s %s (pyvc VC generator over /repo source, z3 %s)" % (prop, tier, T.z3.get_version_string())
    cross = None
    if thorough:
        cross = cross_check(results)
    violation = bool(fresh_failed or found)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obls), "discharged": sum(1 for o in obls if o[3] == "valid"),
            "checker_cmd": checker,
            "trusted_base": ["pyvc (symbolic semantics of the Python subset, invariant inference, contracts engine)",
                             "z3 " + T.z3.get_version_string(),
                             "library and kernel contracts in pyvc/models.py and contracts/*.py"],
            "backend": {"z3": {"queries": queries, "unknown": unknown, "solver_s": round(solver_s, 2)}},
            "functions_under_contract": sorted(funcs), "assumed_or_reused_contracts": sorted(contracts),
            "units": [{"unit": r["unit"], "variant": r["variant"], "paths": r.get("paths", 0),
                       "obligations": len(r["obls"]), "wall_s": round(r.get("wall_s", 0), 1)} for r in results],
            "paths": paths,
            "covers_reached": sorted("%s: %s" % (u, c) for u in covers for c in covers[u]),
            "samples": samples,
            "undecided": undecided[:40],
            "bounded_stand_in": bounded,
            "concrete_conformance": {"note": "bounded run of the real code, guards the assumed contracts; not counted as proved",
                                     "evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct"],
                                     "rule": rep.get("rule", ""), "seconds": round(secs, 1), "error": rep["error"],
                                     "samples": rep.get("samples", [])},
            "failed_obligations": [{"unit": a, "obligation": b, "at": c} for a, b, c in distinct_names][:40],
        },
        "assumptions": sorted(assumed) + common.ASSUMPTIONS.get(prop, []) + common.GENERAL_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    if bounded:
        ev["coverage"]["explanation"] = "some function is outside the verifier's reach on this tree: bounded stand-in decided"
    if cross is not None:
        ev["coverage"]["backend"]["cvc5_cross_check"] = cross
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        if k.get("what") in knownhit or k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d obligations, %d discharged, %d failed, %d undecided; %d paths, %d queries, %.1fs solver, %.1fs wall; "
          "conformance: %d runs" % (prop, len(obls), sum(1 for o in obls if o[3] == "valid"), len(fresh_failed),
                                    len(undecided), paths, queries, solver_s, time.time() - t0, rep["evaluations"]))
    for a, b, c in distinct_names[:12]:
        print("FAILED obligation [%s] %s at %s" % (a, b, c))
    for x in undecided[:12]:
        print("UNDECIDED", x)
    if rep["error"]:
        print("harness note:", rep["error"][-600:])
    if not violation:
        if bounded:
            print("bounded stand-in decided (no failing input in %d runs)" % rep["evaluations"])
            if rep["evaluations"] == 0:
                print("the stand-in could not run: undecided")
                return 2
        return 0
    rp = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
    with open(rp, "w") as f:
        json.dump({"property": prop, "failing_input": found,
                   "replay_cmd": "PYTHONPATH=%s %s %s/replay/run.py %s --replay %s" % (repo, PY, HERE, prop, rp),
                   "failed_obligations": [{"unit": x[0], "obligation": x[1], "at": x[4], "verifier": x[5]}
                                          for x in fresh_failed[:20]]}, f, indent=1, default=str)
    if found:
        print("failing input:", json.dumps(found)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    return 1


def cross_check(results):
    """discharge a sample of the obligations with cvc5 as well"""
    n = agree = 0
    bad = []
    end = time.time() + 300
    for r in results:
        for name, smt in r.get("smt", [])[:25]:
            if time.time() > end:
                break
            n += 1
            try:
                p = subprocess.run(["cvc5", "--lang", "smt2", "--tlimit=10000", "-"], input=smt.encode(),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
                o = p.stdout.decode().strip().splitlines()[-1:] or ["?"]
            except (subprocess.TimeoutExpired, OSError):
                o = ["timeout"]
            if o[0] == "unsat":
                agree += 1
            elif o[0] == "sat":
                bad.append(name)
    return {"sampled": n, "confirmed": agree, "disagreements": bad}


if __name__ == "__main__":
    sys.exit(main())
