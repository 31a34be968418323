"""Profile one harness in this process:  prof.py C07 formula_Gauss [quick] [seconds]"""
import cProfile, pstats, sys, time, json, faulthandler
sys.path.insert(0, "/verif")
from symx.run import run_harness
prop, name = sys.argv[1:3]
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
secs = float(sys.argv[4]) if len(sys.argv) > 4 else 60
faulthandler.dump_traceback_later(secs + 20, exit=True)
pr = cProfile.Profile()
pr.enable()
r = run_harness(prop, name, tier, 1, time.time() + secs)
pr.disable()
pstats.Stats(pr).sort_stats("cumtime").print_stats(40)
r.pop("functions")
print(json.dumps(r, indent=1)[:6000])
