"""check of one property:  python3 vf/run.py P01   (VERIF_TIER, VERIF_SEED)

1. every contract obligation registered for the property is generated from
   /repo's current source and given to the verifier;
2. a failed obligation is a violation; candidates for a failing input come from
   the native replay (real code, sanitizers), which also runs as a labelled
   bounded stand-in for the glue between the contracts."""
import sys, os, json, time, shutil, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import core
from specs import registry
try:
    from native import engine
except ImportError:
    engine = None

def decide(ob, work):
    """verdict for one obligation: ok | undecided | violation"""
    r = core.run(ob, work, "proof")
    r["verdict"] = "undecided"
    if r["status"] == "PROVED": r["verdict"] = "ok"; return r
    if ob.fallback: r["verdict"] = "deferred"; return r        # what failed may be its assumption about the shape of the code
    if r["status"] == "REFUTED" and not ob.loops:
        r["verdict"] = "violation"; return r
    if ob.loops or ob.relax:
        # a loop invariant or an assumption about the shape of the code may be
        # what failed: unroll the real loops instead (bounded, labelled)
        b = core.run(ob, work, "bounded"); r["fallback"] = {k: b.get(k) for k in ("status", "msg", "n", "ok", "wall", "cmd")}
        if b["status"] == "REFUTED":
            r["verdict"] = "violation"; r["msg"] = b["msg"]; r["cmd"] = b["cmd"]
        elif b["status"] == "BOUNDED_OK": r["verdict"] = "bounded"
    return r

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2: tier = sys.argv[2]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    rdir = os.path.join(V, "replays"); os.makedirs(rdir, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    obs = [o for o in registry.OBS.get(pid, []) if tier == "thorough" or o.tier == "quick"]
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == pid]
    try:
        with ThreadPoolExecutor(8) as ex:
            nat = ex.submit(engine.check, pid, seed, tier, os.path.join(work, "native"), rdir) if engine else None
            rs = list(ex.map(lambda o: decide(o, work), sorted(obs, key=lambda o: -o.cost)))
            try: nres = nat.result() if nat else dict(failures=[], evaluations=0, samples=[], rule="", error=None)
            except Exception as e: nres = dict(failures=[], evaluations=0, samples=[], rule="", error="replay machinery: %r" % e)
    except Exception:
        traceback.print_exc(); shutil.rmtree(work, ignore_errors=True); sys.exit(2)
    for r, o in zip(rs, sorted(obs, key=lambda o: -o.cost)):
        if r["verdict"] == "deferred":          # the bounded obligation of the same function, which assumes nothing about its shape, decides
            f = next(x for x in rs if x["id"] == o.fallback); r["verdict"] = {"ok": "bounded"}.get(f["verdict"], f["verdict"]); r["fallback"] = dict(id=o.fallback, status=f["status"])
    bad = [r for r in rs if r["verdict"] == "violation"]
    reported = 0; lines = []
    kf = set()
    fails = []
    for f in nres["failures"]:
        k = next((k for k in known if k["match"] in f["what"]), None)
        if k: kf.add(k["what"])
        else: fails.append(f)
    for k in kf: lines.append("KNOWN-FINDING: property=%s %s" % (pid, k))
    if bad or fails:
        path = os.path.join(rdir, "%s.%s.txt" % (pid, "obligations" if bad else "native"))
        with open(path, "w") as fh:
            for r in bad:
                fh.write("FAILED OBLIGATION %s (function %s)\n%s\n  %s\n\n" % (r["id"], r["fn"], r.get("msg", ""), r.get("cmd", "")))
            for f in fails[:20]:
                fh.write("FAILING INPUT (real code, sanitizers on)\n%s\n  replay: %s\n\n" % (f["what"], f["replay"]))
        tail = "" if fails else " no-failing-input-found"
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, tail)); reported = 1
    proofs = [r for r in rs if r["kind"] == "proof"]; bnd = [r for r in rs if r["kind"] != "proof"]
    dis = sum(r["ok"] for r in proofs if r["verdict"] == "ok"); tot = sum(max(r["n"], 1) for r in proofs)
    trusted = sorted({t for o in obs for t in o.trusted} | {
        "CBMC 6.11 (goto-cc, goto-instrument --dfcc, cbmc) and its C library models (malloc, calloc, realloc, free, memset, string.h unless modelled in specs/)",
        "clang 18 AST for the positions of loop contracts", "open62541 primitives of stub/open62541 (headers not installed here)"})
    level = "proof" if proofs else "other"
    cov = dict(obligations=tot, discharged=dis, checker_cmd="goto-cc; goto-instrument --dfcc --enforce-contract F/c_F [--apply-loop-contracts]; cbmc (see specs/registry.py); python3 vf/run.py " + pid,
        trusted_base=trusted, back_end="cbmc SAT (CaDiCaL; MiniSat for those listed in registry.MINISAT) unless an obligation names another one",
        functions_under_contract=sorted({r["fn"] for r in proofs if r["fn"] and r["verdict"] == "ok"}),
        proved=[dict(id=r["id"], fn=r["fn"], obligations=r["n"], discharged=r["ok"], reachability_checks=r.get("vac", 0), solver_s=r.get("solver_s"), wall_s=r["wall"], loops=r["notes"]) for r in proofs if r["verdict"] == "ok"],
        bounded=[dict(id=r["id"], fn=r["fn"], bound=next(o.bound for o in obs if o.id == r["id"]), verdict=r["verdict"], checks=r["n"], wall_s=r["wall"]) for r in bnd],
        undecided=[dict(id=r["id"], fn=r["fn"], verdict=r["verdict"], status=r["status"], why=r.get("msg", "")[:600], fallback=r.get("fallback")) for r in rs if r["verdict"] in ("undecided", "bounded") and r["kind"] == "proof"],
        solver_seconds=round(sum(r.get("solver_s") or 0 for r in rs), 2),
        native_replay=dict(label="bounded, not counted as proved", evaluations=nres["evaluations"], rule=nres["rule"], samples=nres["samples"][:3], error=nres.get("error")))
    if level == "other": cov["explanation"] = "bounded stand-ins only: " + "; ".join("%s (%s): %s" % (r["id"], r["fn"], next(o.bound for o in obs if o.id == r["id"])) for r in bnd)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=sorted({a for o in obs for a in o.assume}), wall_s=round(time.time() - t0, 2), violations=reported)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for r in rs: print("%-34s %-9s %-10s obligations %d/%d %.1fs %s" % (r["id"], r["verdict"], r["status"], r["ok"], r["n"], r["wall"], "" if r["verdict"] == "ok" else r.get("msg", "")[:200].replace("\n", " | ")))
    print("native replay: %d runs, %d failing%s" % (nres["evaluations"], len(nres["failures"]), " (%s)" % nres["error"] if nres.get("error") else ""))
    for l in lines: print(l)
    if not reported and nres.get("error") and any(r["verdict"] == "undecided" for r in rs): sys.exit(2)   # neither contracts nor replay could look at the code
    sys.exit(1 if reported else 0)
main()
