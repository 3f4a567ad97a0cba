import sys, os, json
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from specs.registry import OBS
from vf import core
pats = sys.argv[1:]; mode = "proof"
if pats and pats[0] == "-b": mode = "bounded"; pats = pats[1:]
obs = [o for l in OBS.values() for o in l if any(o.id.startswith(p) for p in pats)]
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(lambda o: core.run(o, "/tmp/vfwork", mode), obs):
        print(r["id"], r["status"], "n=%d ok=%d vac=%d solver=%.1f wall=%.1f" % (r["n"], r["ok"], r.get("vac", 0), r.get("solver_s", 0), r["wall"]))
        if r["status"] not in ("PROVED", "BOUNDED_OK"): print("   ", r["msg"][:1500].replace("\n", "\n    "))
