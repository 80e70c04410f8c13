"""developer tool: run units and print their obligations"""
import sys, time, importlib, os
sys.path.insert(0, "/verif")
from contracts import common
from pyvc import terms as T
mods, pat = sys.argv[1].split(","), sys.argv[2] if len(sys.argv) > 2 else ""
for m in mods:
    importlib.import_module("contracts." + m)
VAR=os.environ.get("VAR")
for u in common.UNITS:
    if pat and (pat not in u.name if not pat.startswith("=") else u.name != pat[1:]): continue
    for vi, var in enumerate(u.variants):
        if VAR and str(vi) != VAR: continue
        T.STATS.__init__()
        t0 = time.time()
        eng = common.Engine(u.name, trace="-v" in sys.argv)
        eng.deadline = t0 + float(os.environ.get("BUDGET","600"))
        eng.debug = next((a[2:] for a in sys.argv if a.startswith("-D")), None)
        eng.stop_on_fail = "-s" in sys.argv
        if u.setup: u.setup(eng)
        import cProfile, pstats
        if "-p" in sys.argv:
            pr = cProfile.Profile(); pr.enable()
        eng.explore(lambda ctx: u.fn(ctx, var))
        if "-p" in sys.argv:
            pr.disable(); pstats.Stats(pr).sort_stats(os.environ.get("SORT","cumtime")).print_stats(40)
        bad = [o for o in eng.obls if o.status != "valid"]
        print("%s[%s]: paths %d ended %s obls %d bad %d unsupported %d  %.1fs solver %.1fs q %d unk %d" % (
            u.name, var, eng.paths, eng.ended, len(eng.obls), len(bad), len(eng.unsupported),
            time.time() - t0, T.STATS.solver_s, T.STATS.queries, T.STATS.unknown))
        print("   covers missing:", [c for c in u.expect if c not in eng.covers], "contracts", eng.contract_hits)
        seen = set()
        for x in eng.unsupported[:8]:
            print("   UNSUPPORTED", x)
        for o in bad:
            if (o.name, o.where) in seen: continue
            seen.add((o.name, o.where))
            print("   FAIL", o.status, o.name, o.where)
            if "-m" in sys.argv: print("      ", o.info)
