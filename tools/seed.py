#!/usr/bin/env python3
"""seed.py FILE...   (authoring helper for /verif/seeded, not used by checks)
Each FILE: a header "ID | PROP | SOURCE | NEEDS | BREAKS", then
OLD\n====\nNEW\n[####\nOLD\n====\nNEW ...]\n@@@@\n demo python source.
Works on scratch copies of /repo; keeps the change if the demonstration passes without
it, fails with it, and the stable tests pass with it (STABLE: a script that runs them)."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

STABLE = os.environ.get("STABLE", "/tmp/stable.sh")
DEMO = ('#!/bin/bash\n# cwd: the repository\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" '
        'timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')


def one(fn):
    text = open(fn).read()
    head, text = text.split("\n", 1)
    sid, prop, fname, needs, breaks = [x.strip() for x in head.split("|")]
    src, demo = text.split("\n@@@@\n", 1)
    w = "/tmp/seedw-" + sid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        s = open(w + "/" + fname).read()
        for e in src.split("\n####\n"):
            old, new = e.split("\n====\n")
            old, new = old.rstrip("\n"), new.rstrip("\n")
            if s.count(old) != 1:
                return "%s: pattern occurs %d times: %s" % (sid, s.count(old), old)
            s = s.replace(old, new)
        d = w + ".seed"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        r0 = subprocess.run([d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        open(w + "/" + fname, "w").write(s)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout)
        r1 = subprocess.run([d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        if r0.returncode or not r1.returncode:
            return "%s: demo: unchanged %d, with bug %d: %s" % (sid, r0.returncode, r1.returncode, (
                r0.stdout + r0.stderr + r1.stdout + r1.stderr)[-700:])
        t = subprocess.run([STABLE, w], capture_output=True, text=True)
        if t.returncode:
            return "%s: stable tests: %s" % (sid, t.stdout[-400:])
        dst = "/verif/seeded/" + sid
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return "%s: kept (with bug: %s)" % (sid, (r1.stdout + r1.stderr).strip()[-160:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + ".seed", ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    for m in ex.map(one, sys.argv[1:]):
        print(m, flush=True)
