"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Every obligation generated from /repo's current source is discharged by z3, for all inputs and iterations, "
        "against the contracts in contracts/%s. Trusted: the pyvc semantics of Python, z3, and the library/kernel "
        "contracts named in the evidence. ")
CLAIMED = {}


def claim(id, mod, note=""):
    CLAIMED[id] = NOTE % mod + note


exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3-vt tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks read the sources as they are", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({
            "property": i, "quick_cmd": "python3-vt check.py %s quick" % i,
            "thorough_cmd": "python3-vt check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification of the Python source (verification conditions by pyvc, discharged by z3)",
            "level": "proof", "level_note": CLAIMED[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "contracts for these functions are not written yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
