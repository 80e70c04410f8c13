"""developer tool: mut.py FILE OLD NEW MODULE PATTERN...: run units on a scratch copy with one replacement"""
import sys, os, subprocess, shutil, tempfile
f, old, new, mods, pat = sys.argv[1:6]
d = tempfile.mkdtemp(prefix="mut")
try:
    subprocess.check_call("cp -a /repo/bmaptools /repo/contrib %s/" % d, shell=True)
    p = os.path.join(d, f)
    s = open(p).read()
    old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
    if s.count(old) < 1:
        print("PATTERN NOT FOUND"); sys.exit(1)
    open(p, "w").write(s.replace(old, new, 1))
    subprocess.call(["python3-vt", "/verif/tools/rununit.py", mods, pat] + sys.argv[6:], env=dict(os.environ, VERIF_REPO=d))
finally:
    shutil.rmtree(d)
