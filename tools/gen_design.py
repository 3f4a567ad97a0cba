"""DESIGN.md from tools/design_text.py, specs/registry.py, seeded/ and known_findings.json"""
import json, os, sys
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
from specs import registry
import design_text as T
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
o = [T.INTRO.strip(), "", "## 6. The properties", ""]
seeds = {}
for d in sorted(os.listdir("/verif/seeded")):
    m = json.load(open("/verif/seeded/%s/meta.json" % d)); seeds.setdefault(m["property"], []).append((d, m))
tab = json.load(open("/verif/tools/seed_results.json")) if os.path.exists("/verif/tools/seed_results.json") else {}
for p in props:
    i = p["id"]; obs = registry.OBS.get(i, [])
    o += ["### %s %s" % (i, p["title"]), "", T.DETAIL.get(i, "").strip(), ""]
    o += ["| obligation | function | spec | strength |", "|---|---|---|---|"]
    for x in obs:
        how = "proof, loop contracts" if x.kind == "proof" and x.loops else "proof" if x.kind == "proof" else "bounded: " + x.bound
        if x.tier != "quick": how += " (thorough)"
        o.append("| %s | `%s` | specs/%s | %s |" % (x.id, x.fn, x.spec, how))
    o.append("")
    for d, m in seeds.get(i, []):
        o.append("* seeded `%s`: %s — %s%s" % (d, m["what_it_breaks"], m["needs"], (" — caught by " + tab[d]) if d in tab else ""))
    o.append("")
kf = json.load(open("/verif/known_findings.json"))
o += ["## 7. Defects found", "", "Open findings: %d.  Repaired (`fix:` commits in /repo):" % len(kf["findings"]), ""]
for l in kf["fixed"]:
    _, pr, c, what = l.split(" ", 3)
    o.append("* %s `%s` %s" % (pr.split("=")[1], c[:10], what))
o += ["", "## 8. False alarms met and corrected", "", T.FALSE.strip(), ""]
open("/verif/DESIGN.md", "w").write("\n".join(o))
