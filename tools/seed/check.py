"""compare the records of a run with the expected ones (order of references in
a list does not count; the order of records only if the demo asks for it)"""
import json, sys
out, exp = sys.argv[1:3]
e = json.load(open(exp))
def norm(x):
    x = dict(x)
    for k in e.get("drop", []): x.pop(k, None)
    for k in ("hier", "non", "unk", "td"):
        if isinstance(x.get(k), list): x[k] = sorted(x[k], key=repr)
    return x
recs = []
for l in open(out, encoding="latin1"):
    try: r = json.loads(l, strict=False)
    except ValueError: r = {"r": "garbled", "l": l}
    if r["r"] in e["kinds"] or r["r"] in ("garbled", "end", "fail", "badctx"): recs.append(norm(r))
if "stdout" in e["kinds"]:
    import os
    recs += [{"r": "stdout", "l": l} for l in open(os.path.join(os.path.dirname(out), "log"), encoding="latin1")]
if not e.get("ordered"): recs = sorted(recs, key=repr)
if len(sys.argv) > 3:
    e["recs"] = recs; json.dump(e, open(exp, "w"), indent=0); sys.exit(0)
if recs != e["recs"]:
    for a in recs:
        if a not in e["recs"]: print("unexpected:", json.dumps(a)[:600])
    for a in e["recs"]:
        if a not in recs: print("missing:", json.dumps(a)[:600])
    sys.exit(1)
