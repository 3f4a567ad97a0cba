"""MANIFEST.json from specs/registry.py"""
import json, sys
sys.path.insert(0, "/verif")
from specs import registry
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = getattr(registry, "NOT_APPLICABLE", {})
checks, na = [], []
for p in props:
    i = p["id"]; obs = registry.OBS.get(i, [])
    if i in NA or not obs:
        na.append(dict(property=i, reason=NA.get(i, "no contract built yet"))); continue
    pr = [o for o in obs if o.kind == "proof"]; bd = [o for o in obs if o.kind != "proof"]
    note = "CBMC contracts on %s." % ", ".join(sorted({o.fn for o in obs if o.fn}))
    if pr: note += " Proved for all inputs: %s." % ", ".join(sorted({o.id for o in pr}))
    if bd: note += " Bounded stand-ins, not counted as proved: %s." % "; ".join("%s (%s)" % (o.id, o.bound) for o in bd)
    note += " Trusted: CBMC, its C library models, the open62541/libxml2 stubs in stub/ and specs/; the composition of the contracts is argued in DESIGN.md and sampled by a native replay of the real code (sanitizers, bounded, never counted as proof)."
    checks.append(dict(property=i, quick_cmd="python3 vf/run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 vf/run.py %s" % i,
        technique="contract-based deductive verification of the real C functions (CBMC dfcc contracts, loop invariants)" if pr else "bounded contract checks of the real C functions (CBMC dfcc contracts)",
        level="proof" if pr else "other", level_note=note))
json.dump(dict(version=1, setup_cmd="true", hooks=dict(guard="VERIF_CBMC", enable="no source hooks: loop contracts are inserted mechanically into copies made on every run (vf/loops.py)", source_commits=[]),
    checks=checks, not_applicable=na, notes="See DESIGN.md."), open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
