"""run.py PROP --seconds N --seed S --out FILE | --replay FILE

Concrete harness: generates inputs, runs the real code of /repo in a scratch
directory and checks the property's observable statement."""
import argparse
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
MODS = {"C08": "rp_filemap", "C09": "rp_filemap"}
for _i in (1, 2, 3, 4, 5, 6, 7, 17, 18, 19):
    MODS["C%02d" % _i] = "rp_copy"
for _i in (10, 11):
    MODS["C%02d" % _i] = "rp_create"
for _i in (12, 13, 14, 22, 23):
    MODS["C%02d" % _i] = "rp_trans"
for _i in (15, 16):
    MODS["C%02d" % _i] = "rp_cli"
MODS["C20"] = "rp_helpers"
MODS["C21"] = "rp_contrib"


class Hang(BaseException):
    pass


def on_alarm(sig, frm):
    raise Hang()


def run_case(harness, case, limit=20):
    """None if the property held, a message otherwise"""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        return harness.run(case)
    except Hang:
        return "the run does not terminate (over %d s)" % limit
    except (Exception, SystemExit) as e:
        # raised by the code under test, or by a stand-in it misused
        tb = traceback.extract_tb(e.__traceback__)
        repo = os.environ.get("PYTHONPATH", "/repo").split(":")[0]
        inner = tb[-1].filename
        if any(f.filename.startswith(repo + "/") for f in tb) and (
                isinstance(e, AssertionError) or not inner.startswith(os.path.dirname(os.path.abspath(__file__)))
                or getattr(e, "stand_in", False)):
            return "unexpected %s: %s (at %s)" % (type(e).__name__, e, "; ".join(
                "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))
        raise
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="rp-", dir="/tmp")
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 42, 1 << 42))
    os.chdir(scratch)
    tempfile.tempdir = scratch
    os.environ["TMPDIR"] = scratch
    res = {"found": None, "evaluations": 0, "distinct": 0, "samples": [], "rule": "", "harness_error": None}
    seen = set()
    rc = 0
    try:
        mod = importlib.import_module(MODS[a.prop])
        h = mod.HARNESS[a.prop](scratch)
        res["rule"] = h.rule
        if a.replay:
            with open(a.replay) as f:
                d = json.load(f)
            msg = run_case(h, d["failing_input"]["case"])
            print("reproduced: %s" % msg if msg else "not reproduced")
            rc = 1 if msg else 0
            return rc
        rng = random.Random(a.seed)
        end = time.time() + a.seconds
        gen = h.cases(rng)
        while time.time() < end:
            try:
                case = next(gen)
            except StopIteration:
                break
            key = hashlib.md5(json.dumps(case, sort_keys=True).encode()).digest()
            try:
                msg = run_case(h, case)
            except Exception:
                res["harness_error"] = traceback.format_exc()[-2500:]
                if res["evaluations"] > 50:
                    break
                res["evaluations"] += 1
                continue
            res["evaluations"] += 1
            if key not in seen:
                seen.add(key)
                res["distinct"] += 1
            if len(res["samples"]) < 2 and res["evaluations"] % 7 == 3:
                res["samples"].append(json.loads(json.dumps(case)[:1500]) if len(json.dumps(case)) < 1500 else "large case")
            if msg:
                # only a repeatable failure counts
                msg2 = run_case(h, case)
                if msg2:
                    small = shrink(h, case, min(end + 10, time.time() + 15))
                    res["found"] = {"case": small, "message": run_case(h, small) or msg2}
                    break
                res["harness_error"] = "not repeatable: %s" % msg
    except Exception:
        res["harness_error"] = traceback.format_exc()[-2500:]
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
        if a.out:
            with open(a.out + ".tmp", "w") as f:
                json.dump(res, f)
            os.rename(a.out + ".tmp", a.out)
        elif not a.replay:
            print(json.dumps(res, indent=1))
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)


def shrink(h, case, end):
    """greedy reduction of integers and lists in the case"""
    if not getattr(h, "shrinkable", False):
        return case
    cur = case
    changed = True
    while changed and time.time() < end:
        changed = False
        for cand in h.smaller(cur):
            if time.time() > end:
                break
            try:
                if run_case(h, cand):
                    cur = cand
                    changed = True
                    break
            except Exception:
                continue
    return cur


main()
