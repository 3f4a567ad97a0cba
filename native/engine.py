"""Native replay: real sources with sanitizers against the reference model of
gen.py.  Bounded (a stated set of documents), labelled so, never counted as
proof: it supplies failing inputs and covers the glue between the contracts."""
import os, sys, json, random, subprocess, itertools, re, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import gen
from gen import Doc, N, to_xml, expect, L1
REPO = os.environ.get("VF_REPO", "/repo")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")

TIMEOUT = 40   # the longest document takes about a second

class Case:
    def __init__(s, fam, name, args, files, check, stdin=None, note=""):
        s.fam, s.name, s.args, s.files, s.check, s.stdin, s.note = fam, name, args, files, check, stdin, note
class Run: pass

def build(out):
    p = os.path.join(out, "dump")
    r = subprocess.run(["sh", os.path.join(H, "build.sh"), p, REPO], capture_output=True, text=True, timeout=300)
    return (p, None) if r.returncode == 0 else (None, r.stderr[-1500:])

def execute(binp, case, d):
    os.makedirs(d, exist_ok=True)
    args = list(case.args)
    for n, data in case.files.items():
        p = os.path.join(d, n)
        if data is None: os.makedirs(p, exist_ok=True)
        else: open(p, "wb").write(data)
    args = [a.replace("$D", d) for a in args]
    res = Run(); out = os.path.join(d, "out.jsonl")
    cmd = [binp, out] + args
    res.cmd = cmd; res.timeout = False; res.rc = None
    try:
        p = subprocess.run(cmd, input=case.stdin, capture_output=True, timeout=TIMEOUT, env=ENV, cwd=d)
        res.rc = p.returncode; res.err = p.stderr.decode("latin1"); res.out = p.stdout.decode("latin1")
    except subprocess.TimeoutExpired:
        res.timeout = True; res.err = "timeout"; res.out = ""
    res.recs = []
    if os.path.exists(out):
        for l in open(out, encoding="latin1"):
            try: res.recs.append(json.loads(l, strict=False))
            except ValueError: res.recs.append({"r": "garbled", "l": l[:200]})
    res.ended = bool(res.recs) and res.recs[-1]["r"] == "end"
    return res

def crash(res):
    if res.timeout: return "does not terminate (%d s)" % TIMEOUT
    if res.rc != 0 or not res.ended:
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|Assertion[^\n]*)", res.err)
        fr = re.findall(r"#\d+ 0x\S+ in (\S+) (\S+)", res.err)
        return "crash: %s %s" % (m.group(1) if m else "exit code %s" % res.rc, " < ".join("%s %s" % (a, os.path.basename(b)) for a, b in fr[:6] if "interceptor" not in a))
    return None

def R(res, kind): return [x for x in res.recs if x["r"] == kind]
def ms(l): return sorted([list(map(lambda z: z, x)) for x in l], key=repr)

# ---- comparing a loader run with the model: list of (properties, message) ----
ALL = {"P%02d" % i for i in range(1, 29)}
FIELD = dict(id="P05 P06 P04", bns="P05 P06", bn="P05 P06 P04", dn="P03 P05", dnl="P04 P05", de="P03 P05", del_="P04 P05", inl="P04 P05", parent="P05 P06 P04", dt="P05 P06 P08 P04", val="P13 P03", val_="P13")
FIELD["def"] = "P15 P06 P08"; FIELD["in"] = "P03 P05"; FIELD["del"] = "P04 P05"
def cmp_loader(res, exp, files_ok=None, differential=False):
    bad = []
    def B(props, msg): bad.append((set(props.split()) if isinstance(props, str) else props, msg))
    ns = [(x["file"], bool(x["ctx"]), x["uri"]) for x in R(res, "ns")]
    if ns != exp["ns"]: B("P07", "namespace callbacks %s instead of %s" % (ns[:6], exp["ns"][:6]))
    imp = [bool(x["ok"]) for x in R(res, "import")]
    if files_ok is not None and imp != files_ok: B("P23", "import results %s instead of %s" % (imp, files_ok))
    so = R(res, "sort")
    if so and bool(so[0]["ok"]) != exp["sort_ok"]: B("P10 P11 P09 P28", "sorting returned %s instead of %s" % (bool(so[0]["ok"]), exp["sort_ok"]))
    logs = [x["msg"] for x in R(res, "log")]
    for key, pat, props in (("unresolved", "unresolved reference", "P10"), ("dup", "already exists", "P11"), ("loop", "loop", "P11")):
        if exp["logs"].count(key) and not any(pat in m for m in logs): B(props, "no message about %s" % key)
    if logs and any(x["level"] != 2 for x in R(res, "log")): B("P26", "log level of %s" % logs)
    got = [(x["src"], x["dst"], x["type"]) for x in R(res, "bidir")]
    if got != exp["bidir"]: B("P25", "encoding references %s instead of %s" % (got[:5], exp["bidir"][:5]))
    for l in R(res, "leak"):
        if l["n"]: B("P24", "%d blocks not released (or released twice)" % l["n"])
    if R(res, "badctx"): B("P12", "iteration did not pass the caller's context")
    if so and exp["sort_ok"] and so[0]["ok"]:
        nodes = R(res, "node"); seen = {}; pos = {}
        for i, n in enumerate(nodes):
            if n["id"] in seen: B("P11 P12", "node %s delivered twice" % n["id"])
            seen[n["id"]] = n; pos[n["id"]] = i
        for id, e in exp["nodes"].items():
            g = seen.get(id)
            if g is None: B("P11 P12 P05 P06", "node %s missing" % id); continue
            if g["class"] != e["class"]: B("P05 P12", "node %s has class %s instead of %s" % (id, g["class"], e["class"]))
            for k, v in e.items():
                if k in ("class", "_gen", "_late", "id"): continue
                if k == "td" and e["class"] not in (0, 2): continue
                if k in ("hier", "non", "unk", "td"):
                    a = sorted([list(x) for x in g.get(k, [])]); b = sorted([list(x) for x in v])
                    if a != b:
                        only = [x for x in a if x not in b] + [x for x in b if x not in a]
                        props = {"P10", "P09", "P28"}
                        if k == "hier" and e.get("_gen"): props |= {"P11"}
                        if len(a) != len(b) or sorted(x[2] for x in a) != sorted(x[2] for x in b): pass
                        if sorted(x[2] for x in a) == sorted(x[2] for x in b): props |= {"P06", "P08"}
                        B(props, "%s references of %s: %s instead of %s" % (k, id, a[:8], b[:8]))
                elif k == "val":
                    if v == "skip": continue
                    if g.get("val") != v: B("P13 P03", "value of %s: %s instead of %s" % (id, json.dumps(g.get("val"))[:400], json.dumps(v)[:400]))
                elif k not in g or g[k] != v:
                    B(FIELD.get(k, "P05 P04"), "%s of %s: %r instead of %r" % (k, id, str(g.get(k))[:300], str(v)[:300]))
        for id in seen:
            if id not in exp["nodes"]: B("P11 P12 P06 P05", "unexpected node %s" % id)
        for c in R(res, "count"):
            m = sum(1 for e in exp["nodes"].values() if e["class"] == c["class"])
            if c["n"] != m or c["calls"] != m: B("P12", "iterating class %s: %d calls, returned %d, %d nodes accepted" % (gen.CLS[c["class"]], c["calls"], c["n"], m))
        if len(exp["nodes"]) < 3000:
            for s in list(exp["edges"]):
                st = [s]; done = set()
                while st:
                    x = st.pop()
                    for y in exp["edges"].get(x, ()):
                        if y not in done:
                            done.add(y); st.append(y)
                            if s in pos and y in pos and exp["nodes"][s]["class"] == exp["nodes"][y]["class"] and pos[s] >= pos[y] and s != y:
                                B("P11 P12", "node %s is delivered after %s which it points to" % (s, y))
    return bad

def loader_case(fam, name, docs, opts=(), seed=0, fancy=False, svc=None, twocb=False, extra=None, ok=None):
    files = {"f%d.xml" % i: to_xml(d, seed + i, fancy) for i, d in enumerate(docs)}
    args = ["loader"] + list(opts) + ["$D/f%d.xml" % i for i in range(len(docs))]
    files.update(extra or {})
    def check(res):
        return cmp_loader(res, expect(docs, svc() if svc else None, twocb), ok if ok is not None else [True] * len(docs))
    return Case(fam, name, args, files, check)

# ---------------- families ----------------
def rid(r, ns=None, kinds="isgb"):
    n = r.randint(0, 3) if ns is None else ns; k = r.choice(kinds)
    v = {"i": str(r.randint(100, 10**r.randint(3, 9))), "s": r.choice(["a", "Name with space", "x;y=z", "ns=2;i=5", "ä€", "a:b", "Root.Sub[1]", "%d", "i"]) + str(r.randint(0, 999)),
         "g": "%08x-%04x-%04x-%04x-%012x" % (r.getrandbits(32), r.getrandbits(16), r.getrandbits(16), r.getrandbits(16), r.getrandbits(48)), "b": "YWJj" + str(r.randint(0, 999))}[k]
    return ("ns=%d;" % n if n else "") + k + "=" + v
WORDS = ["alpha", "Beta & Co", "<tag>", "ünïcode €", "line\nbreak", "x" * 50, "  lead", "trail  ", "", "a", "\"quoted\"", "100%", "%s%n", "ns=1;i=1", "]]", "tab\tinside"]
def rtext(r): return " ".join(r.choice(WORDS) for _ in range(r.randint(1, 4)))
def rloc(r): return (r.choice([None, "en", "de-DE", "", "x-y"]), r.choice([None, rtext(r), rtext(r)]))
def rtree(r, depth=0):
    n = r.choice(["A", "B", "Field", "Value", "Name", "ListOfX", "ExtensionObject", "Body", "Text", "Id_1", "Identifier"])
    if depth < 3 and r.random() < .45: return (n, [rtree(r, depth + 1) for _ in range(r.randint(0, 4))])
    return (n, r.choice(["1", "-5", "text & more", "   ", None, "", "x" * 70, " pad ", "3.14"]))
def rval(r):
    k = r.random()
    if k < .3: return ("scalar", r.choice(["Int32", "String", "Boolean", "LocalizedText", "NodeId", "Guid"]), r.choice([rtext(r), "5", None, "  ", [rtree(r) for _ in range(r.randint(1, 3))]]))
    if k < .6: b = r.choice(["Int32", "String", "QualifiedName"]); return ("list", "ListOf" + b, [(b, rtree(r)[1]) for _ in range(r.choice([0, 1, 2, 3, 40]))])
    tid = r.choice(["i=297", "ns=1;i=5", "ns=1;s=x"])
    if k < .8: return ("eo", tid, (r.choice(["Argument", "Range", "Foo"]), [rtree(r) for _ in range(r.randint(0, 4))]))
    return ("loeo", "ListOfExtensionObject", [(tid, (r.choice(["Argument", "Foo"]), [rtree(r) for _ in range(r.randint(0, 4))])) for _ in range(r.choice([1, 2, 5]))])
def rdefn(r, al):
    k = r.random(); n = r.choice([0, 1, 2, 3, 7])
    if k < .25: return dict(fields=[{"Name": "e%d" % i, "Value": str(r.randint(-5, 99))} for i in range(n)])
    d = dict(fields=[])
    if k < .4: d["IsUnion"] = r.choice(["true", "1"])
    elif k < .5: d["IsOptionSet"] = r.choice(["true", "1"])
    elif k < .6: d["IsUnion"] = "false"
    for i in range(n):
        f = {"Name": "f%d" % i}
        if r.random() < .7: f["DataType"] = r.choice(["i=6", "ns=1;i=77", "ns=2;s=typ"] + al)
        if r.random() < .4: f["ValueRank"] = r.choice(["-1", "1", "0", "2", "-2"])
        if r.random() < .3: f["IsOptional"] = r.choice(["true", "false", "1", "0"])
        d["fields"].append(f)
    return d
def rattrs(r, cls, ids, al):
    a = {}
    for k, (key, d) in gen.ATTRS[cls].items():
        if r.random() < .55: continue
        if key[0] == "#": a[k] = r.choice(ids) if ids else "i=85"
        elif key[0] == "@": a[k] = r.choice(["i=6", "i=12", "ns=1;i=3001", "ns=2;s=T", "UnknownAlias"] + al)
        else: a[k] = r.choice({"dims": ["1", "2,3", "", "0"], "rank": ["1", "-1", "0", "2"], "msi": ["0", "100.5", "-1"]}.get(key, ["true", "false", "0", "1", "3", "255"]))
    return a
def rdoc(r, size=None, uris=None, edgy=True, tag="", forward=True, prior=()):
    uris = uris if uris is not None else ["http://example.org/%s/%d?a=1&b=2" % (tag, i) for i in range(r.randint(0, 4))]
    al = [("HasComponent", "i=47"), ("HasProperty", "i=46"), ("Organizes", "i=35"), ("HasTypeDefinition", "i=40"), ("HasSubtype", "i=45"), ("GeneratesEvent", "i=41")]
    al += [("A%d" % i, rid(r)) for i in range(r.randint(0, 6))]
    if r.random() < .3: al.append(("HasComponent", "i=35"))
    if r.random() < .3: al.append((r.choice(["A0", "Int32", "A1"]), "i=6"))
    r.shuffle(al)
    names = [a for a, _ in al if a.startswith("A")]
    nodes = []; ids = list(prior); rts = ["i=31", "i=32", "i=33", "i=47"]; usable = ["HasComponent", "HasProperty", "Organizes", "i=47", "i=35", "i=39", "i=41", "HasTypeDefinition", "GeneratesEvent", "i=38", "i=40"]
    n = size or r.randint(1, 14); seen = set()
    newrts = ["ns=1;i=%d" % (50000 + i) for i in range(3)] if uris else []
    for i in range(n):
        cls = r.choice([0, 0, 1, 2, 2, 2, 3, 4, 5, 6, 7])
        id = rid(r)
        if cls == 5 and newrts and r.random() < .8: id = newrts.pop(0)
        if id in seen: continue
        seen.add(id)
        refs = []; par = None
        if cls == 5:
            par = r.choice(rts); refs.append((r.choice(["HasSubtype", "i=45"]), par, "false")); rts.append(id)
        elif r.random() < .6 and (ids or True):
            refs.append((r.choice(["HasComponent", "Organizes", "i=46"] + (["ns=1;i=50000"] if uris and r.random() < .5 else [])), r.choice(ids) if ids and r.random() < .9 else "i=85", "false"))
        for _ in range(r.randint(0, 3)):
            refs.append((r.choice(["i=40", "HasTypeDefinition", "i=41", "GeneratesEvent", "i=39", "ns=1;i=50001" if uris else "i=37"]), r.choice(ids + ["i=58", "i=63", "ns=1;i=1"] + names), r.choice([None, "true", "false", "1", "0"])))
        bn = r.choice(["plain", "1:name", "2:x y", "0:zero", "1:a:b", "3:", "9:undeclared", ":colon", "Default Binary", "0:Default Binary"]) if edgy else "1:n%d" % i
        if bn == ":colon": bn = "0:colon"
        nodes.append(N(cls, id, bn, rattrs(r, cls, ids + ["i=85"], names), rloc(r) if r.random() < .8 else None, rloc(r) if r.random() < .5 else None,
                       rloc(r) if cls == 5 and r.random() < .6 else None, refs, rval(r) if cls == 2 and r.random() < .6 else None, rdefn(r, names) if cls == 3 and r.random() < .7 else None))
        ids.append(id)
    # unresolvable reference types make sorting fail; keep only types which exist
    have = {x["id"] for x in nodes if x["cls"] == 5}
    for x in nodes: x["refs"] = [t for t in x["refs"] if not t[0].startswith("ns=1;i=5000") or t[0] in have]
    # instances need acyclic parents: ids come from earlier nodes, so they are
    if not forward: nodes = nodes[:1] + nodes[1:]
    return Doc(uris, al, nodes)

def fam_random(r, k):
    for i in range(k):
        s = r.randint(0, 10**9); q = random.Random(s)
        yield loader_case("random", "random document %d" % s, [rdoc(q)], seed=s, fancy=q.random() < .7)
def fam_attrs(r, k):
    """each class with no attribute, each single attribute, all attributes, in several orders"""
    nodes = []; c = 0
    for cls in range(8):
        vals = {a: {"#parent": "ns=1;i=7", "@dt": "ns=1;i=8", "dims": "3,4", "rank": "2", "al": "7", "ual": "9", "msi": "12.5", "en": "5"}.get(key, "true" if d == "false" else "false") for a, (key, d) in gen.ATTRS[cls].items()}
        for sub in [{}] + [{a: v} for a, v in vals.items()] + [vals, dict(reversed(list(vals.items())))]:
            c += 1; nodes.append(N(cls, "ns=1;i=%d" % (1000 + c), "1:b%d" % c, sub, ("l%d" % c, "dn%d" % c), ("m%d" % c, "de%d" % c), ("n%d" % c, "in%d" % c) if cls == 5 else None, refs=[("i=45", "i=33", "false")] if cls == 5 else [],
                                    val=("scalar", "Int32", "5") if cls == 2 else None, defn={"fields": [{"Name": "f"}]} if cls == 3 else None))
        nodes.append(N(cls, "ns=1;s=only", "n") if False else N(cls, "ns=1;s=c%d" % cls, "n", {"SymbolicNames": "y", "NodeIdX": "i=1", "DataTyp": "i=2", "Node": "i=3"}))
    d = Doc(["urn:a"], [], nodes)
    yield loader_case("attrs", "every attribute of every class", [d])
    yield loader_case("attrs", "every attribute of every class, shuffled", [d], seed=5, fancy=True)
    cross = []
    for cls in range(8):   # attributes and elements of other classes
        allv = {a: {"#": "ns=1;i=7", "@": "i=6"}.get(key[0], "9") for c2 in range(8) for a, (key, _) in gen.ATTRS[c2].items()}
        cross.append(N(cls, "ns=1;i=%d" % (cls + 1), "b", allv, ("a", "b"), ("c", "d"), ("e", "f"), val=("scalar", "Int32", "1"), defn={"fields": [{"Name": "f", "Value": "1"}]}))
    yield loader_case("attrs", "attributes and elements of foreign classes", [Doc(["urn:a"], [], cross)])
    yield loader_case("attrs", "many attributes", [Doc([], [], [N(2, "i=5000", "n", {"x%d" % i: str(i) for i in range(200)} | {"AccessLevel": "3", "ValueRank": "1"})])])
    yield loader_case("attrs", "no id and browse name", [Doc([], [], [N(0, None, None), N(3, "i=77", None), N(2, "i=78", "")])])
def fam_text(r, k):
    """text of all lengths and splits; pieces are cut at 1024 byte reads, entities, CDATA, comments"""
    lens = [0, 1, 2, 3, 7, 299, 300, 301, 1019, 1020, 1021, 1023, 1024, 1025, 2048, 5000, 65536, 300000]
    nodes = [N(0, "i=%d" % (1000 + i), "n", {}, ("en", "T" * n), ("de", ("abc%dü" % i) * (n // 6)), refs=[("i=35", "i=85", "false")]) for i, n in enumerate(lens)]
    nodes += [N(0, "i=%d" % (2000 + i), "n", {}, (None, None)) for i in range(3)]
    yield loader_case("text", "texts of length %s" % lens, [Doc([], [], nodes)])
    for i in range(k):
        s = r.randint(0, 10**9); q = random.Random(s)
        ns = [N(0, "i=%d" % (1000 + j), "n", {}, ("en", rtext(q) * q.randint(1, 60)), ("de", rtext(q)), refs=[("i=35", "i=85", "false")]) for j in range(6)]
        ns.append(N(5, "i=999", "n", {}, ("a", rtext(q)), None, ("b", rtext(q) * 30)))
        ns.append(N(2, "i=998", "n", val=("list", "ListOfString", [("String", rtext(q) * q.randint(1, 30)) for _ in range(5)])))
        yield loader_case("text", "pieces, seed %d" % s, [Doc(["urn:" + "u" * q.randint(1, 3000)], [("Al", "ns=1;s=" + "z" * q.randint(1, 2000))], ns + [N(0, "i=997", "n", {}, refs=[("i=41", "Al", None)])])], seed=s, fancy=True)
    # shift the whole file byte by byte over the chunk boundary
    base = Doc(["urn:x"], [("HasComponent", "i=47")], [N(0, "ns=1;i=1", "1:n", {}, ("en", "display ü &amp; name"), ("de", "second text"), refs=[("HasComponent", "i=85", "false")]), N(2, "ns=1;i=2", "n", {}, ("q", "w"), val=("scalar", "String", "value text"))])
    exp = expect([base]); raw = to_xml(base)
    for sh in range(0, 1100, 37 if k < 40 else 7):
        data = raw.replace(b"<UANodeSet", b"<!--" + b"c" * sh + b"-->\n<UANodeSet", 1)
        yield Case("text", "file shifted by %d bytes" % sh, ["loader", "$D/f.xml"], {"f.xml": data}, lambda res: cmp_loader(res, exp, [True]))
def fam_ids(r, k):
    uris = ["urn:%d" % i for i in range(300)]
    idx = [0, 1, 2, 127, 128, 255, 256, 299, 300, 301, 302, 9999, 65535]
    nodes = []
    for n in idx:
        p = "ns=%d;" % n
        nodes.append(N(2, p + "i=%d" % (n + 1), "%d:name" % n, {"ParentNodeId": p + "s=par", "DataType": p + "i=3"}, refs=[("i=41", p + "g=%08x-0000-0000-0000-000000000001" % n, None), ("i=40", p + "b=AAAA", None)]))
        nodes.append(N(3, p + "s=dt%d" % n, "%d:t" % n, defn={"fields": [{"Name": "f", "DataType": p + "i=9"}]}))
        nodes.append(N(4, p + "i=%d" % (n + 70000), "n", {"ParentNodeId": p + "i=1"})); nodes.append(N(7, p + "i=%d" % (n + 170000), "n", {"ParentNodeId": p + "i=1"})); nodes.append(N(6, p + "i=%d" % (n + 270000), "n", {"DataType": p + "i=1"}))
        nodes.append(N(0, p + "i=%d" % (n + 370000), "n", {"ParentNodeId": p + "i=1"}, refs=[("AL%d" % n if n in (1, 300, 301) else "i=35", "i=85", "true")] if n in (1, 300, 301) else []))
    # the alias names stand for non hierarchical ns0 type i=41 except that the target uses translated ids
    al = [("AL%d" % n, "i=41") for n in (1, 300, 301)] + [("T%d" % n, "ns=%d;i=12345" % n) for n in idx]
    nodes.append(N(0, "i=990", "n", refs=[("i=41", "T%d" % n, None) for n in idx]))
    yield loader_case("ids", "namespace indices %s with 300 uris" % idx, [Doc(uris, al, nodes)])
    bad = ["", "x", "i=", "i=4294967296", "i=4294967295", "ns=;i=1", "ns=1", "ns=1;", "ns=65536;i=1", "ns=65535;i=1", "i=abc", "s=", "g=12", "ns=01;i=5", "NS=1;i=1", " i=1", "i=1 ", "ns=1;ns=2;i=3", "q=1", "ns=1;s=ns=2;i=1"]
    yield loader_case("ids", "unusual id texts", [Doc(["urn:a", "urn:b"], [], [N(2, "i=%d" % (100 + i), "n", {"ParentNodeId": b, "DataType": b}, refs=[("i=41", b, None)] if b else []) for i, b in enumerate(bad)])])
    bns = ["a", "", "1:", "1:a", "2:a:b", "0:a", "65535:q", "00001:z", "7:undeclared", "1: space", "with space", "äö", "x" * 500]
    yield loader_case("ids", "browse names", [Doc(["urn:a", "urn:b"], [], [N(0, "i=%d" % (100 + i), b) for i, b in enumerate(bns)])])
    # two files, own tables, shared uris
    for i in range(max(2, k // 8)):
        s = r.randint(0, 10**9); q = random.Random(s); pool = ["urn:p%d" % j for j in range(8)]
        docs = [rdoc(q, uris=q.sample(pool, q.randint(0, 5)), tag="f%d" % j) for j in range(q.randint(2, 4))]
        # ids could collide between the files; that is a duplicate and the model knows it
        yield loader_case("ids", "several files, seed %d" % s, docs, opts=["--twocb"], seed=s, fancy=True, twocb=True)
def fam_ns(r, k):
    for n in (0, 1, 2, 3, 50, 1000):
        yield loader_case("ns", "%d namespace uris" % n, [Doc(["http://u/%d" % i for i in range(n)], [], [N(0, ("ns=%d;" % n if n else "") + "i=5", "%d:b" % n)])])
    yield loader_case("ns", "repeated and odd uris", [Doc(["urn:a", "urn:b", "urn:a", "http://opcfoundation.org/UA/", "x" * 4000, " s p ", "ü&<"], [], [N(0, "ns=%d;i=%d" % (i, i + 1), "%d:b" % i) for i in range(9)])], seed=3, fancy=True)
    yield loader_case("ns", "two files with different uris and callbacks", [Doc(["urn:a", "urn:b"], [("X", "ns=1;i=1")], [N(0, "ns=2;i=1", "2:b", refs=[("i=41", "X", None)])]), Doc(["urn:b"], [], [N(0, "ns=1;i=2", "1:b", refs=[("i=41", "X", None)]), N(0, "ns=2;i=3", "2:c")]), Doc([], [], [N(0, "ns=1;i=4", "1:b")])], opts=["--twocb"], twocb=True)
def fam_alias(r, k):
    for n in (1, 5, 299, 300, 301, 600, 601, 950):
        al = [("Alias%d" % i, "ns=1;%s" % ("i=%d" % (i + 10) if i % 3 else "s=name%d" % i)) for i in range(n)]
        q = random.Random(n); pick = sorted(set([0, n - 1, n // 2] + [q.randrange(n) for _ in range(10)]))
        nodes = [N(2, "i=%d" % (1000 + j), "n", {"DataType": "Alias%d" % j}, refs=[("i=41", "Alias%d" % j, None)]) for j in pick]
        nodes.append(N(3, "i=999", "t", defn={"fields": [{"Name": "f%d" % j, "DataType": "Alias%d" % j} for j in pick]})); nodes.append(N(6, "i=998", "t", {"DataType": "Alias%d" % (n - 1)}))
        yield loader_case("alias", "%d aliases" % n, [Doc(["urn:a"], al, nodes)])
    al = [("A", "i=47"), ("AB", "i=41"), ("A", "i=35"), ("", "i=33"), (None, "i=36"), ("B", "ns=1;s=str"), ("bad", "nonsense"), ("i=99", "i=100"), ("ns=1;i=1", "ns=1;i=2")]
    nodes = [N(0, "i=500", "n", refs=[("A", "i=85", "false"), ("AB", "B", None), ("i=41", "A", None), ("i=41", "AB", None), ("i=41", "ABC", None), ("i=41", "bad", None), ("i=41", "i=99", None), ("i=41", "ns=1;i=1", None), ("i=41", "b", None), ("i=41", "B ", None)]),
             N(2, "i=501", "n", {"DataType": "B"}), N(2, "i=502", "n", {"DataType": "B"}), N(2, "i=503", "n", {"DataType": "ABC", "ParentNodeId": "A"})]
    yield loader_case("alias", "first declaration wins, prefixes, odd names", [Doc(["urn:a"], al, nodes)])
    yield loader_case("alias", "aliases of another file do not count", [Doc(["urn:a"], al, nodes[:1]), Doc(["urn:b"], [("A", "i=46")], [N(0, "i=600", "n", refs=[("A", "i=85", "false"), ("i=41", "B", None)])])])
    raw = {"raw": '<Aliases><Alias Alias="Late">i=46</Alias></Aliases>'}
    d1 = Doc([], [("A", "i=47")], [N(0, "i=700", "n", refs=[("A", "i=85", "false"), ("i=41", "A", None)]), raw])
    yield loader_case("alias", "aliases behind the nodes", [d1])
def rt(id, sup, inv=True, typ="i=45", **kw): return N(5, id, "1:rt", {}, (None, "x"), None, ("en", "inv"), refs=[(typ, sup, "false" if inv else None)], **kw)
def fam_reftypes(r, k):
    base = ["i=%d" % n for n in (31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 44, 45, 46, 47, 48, 49, 51, 52, 53, 54, 117, 129, 3065)]
    nodes = [N(c, "ns=1;i=%d" % (100 + 10 * i + c), "n", refs=[(t, "ns=1;i=%d" % (5000 + i), "false"), (t, "ns=1;i=%d" % (6000 + i), None)] * 1) for i, t in enumerate(base) for c in (0, 2, 1, 3)]
    yield loader_case("reftypes", "predefined types", [Doc(["urn:a"], [], nodes)])
    odd = ["i=30000", "i=65535", "i=4294967295", "i=1", "i=14476", "s=str", "g=01234567-89ab-cdef-0123-456789abcdef", "b=QUJD"]
    for o in (["--builtin"], []): yield loader_case("reftypes", "other types of namespace 0 " + " ".join(o), [Doc(["urn:a"], [], [N(c, "ns=1;i=%d" % (100 + 10 * i + c), "n", refs=[(t, "ns=1;i=%d" % (5000 + i), "false"), (t, "ns=1;i=%d" % (6000 + i), None)]) for i, t in enumerate(odd) for c in (0, 3, 5, 7)])], o)
    # chains, many types, used before and after the declaration
    for n in (1, 8, 9, 10, 50, 120, 300):
        ty = [rt("ns=1;i=%d" % (i + 1), ["i=47", "i=32", "ns=1;i=%d" % max(1, i - 1)][i % 3] if i else "i=35") for i in range(n)]
        use = [N(0, "ns=1;s=u%d" % i, "n", refs=[("ns=1;i=%d" % (i + 1), "i=85", "false"), ("ns=1;i=%d" % (i + 1), "i=58", None)]) for i in sorted({0, n // 2, n - 1})]
        yield loader_case("reftypes", "%d declared types, used afterwards" % n, [Doc(["urn:a"], [], ty + use)])
        yield loader_case("reftypes", "%d declared types, used before" % n, [Doc(["urn:a"], [], use + ty)])
        yield loader_case("reftypes", "%d types in a file of their own" % n, [Doc(["urn:a"], [], ty), Doc(["urn:a"], [], use)], opts=["--two"])
    ty = [rt("ns=1;s=tA", "i=33"), rt("ns=1;s=tB", "ns=1;s=tA"), rt("ns=1;s=tC", "i=32"), rt("ns=2;s=tA", "i=32"), rt("ns=1;i=35", "i=32"), rt("ns=1;i=41", "i=33"), rt("ns=2;s=tB", "i=33", inv=False), rt("ns=1;s=RefH", "i=35"), rt("ns=1;s=RefN", "i=32"), rt("ns=1;b=QUJD", "i=32"), rt("ns=1;b=QUJE", "i=35"), rt("ns=1;g=01234567-89ab-cdef-0123-456789abcdef", "i=32"), rt("ns=1;g=01234567-89ab-cdef-0123-456789abcdee", "i=35"),
          N(5, "ns=1;s=tD", "n", refs=[("i=45", "i=32", "false"), ("i=45", "i=47", "false")]), N(5, "ns=1;s=tE", "n", refs=[("i=45", "i=47", "false"), ("i=45", "i=32", "false"), ("i=46", "i=46", "false")]), N(5, "ns=1;s=tF", "n"), N(5, "ns=1;s=tG", "n", refs=[("i=41", "i=47", "false")])]
    use = [N(0, "ns=1;i=%d" % (900 + i), "n", refs=[(t["id"], "ns=2;s=tgt%d" % i, "false"), (t["id"], "ns=2;i=7", "true")]) for i, t in enumerate(ty)]
    yield loader_case("reftypes", "kinds of declarations", [Doc(["urn:a", "urn:b"], [], ty + use)])
    yield loader_case("reftypes", "kinds of declarations, used before", [Doc(["urn:a", "urn:b"], [], use + ty)])
    # reference types which use each other before their declaration
    t2 = [N(5, "ns=1;i=1", "n", refs=[("i=45", "i=47", "false"), ("ns=1;i=3", "i=1", None)]), N(5, "ns=1;i=2", "n", refs=[("i=45", "i=32", "false"), ("ns=1;i=1", "i=1", None)]), N(5, "ns=1;i=3", "n", refs=[("i=45", "i=32", "false"), ("ns=1;i=4", "i=1", None)]), N(5, "ns=1;i=4", "n", refs=[("i=45", "i=33", "false")]),
          N(0, "ns=1;i=9", "n", refs=[("ns=1;i=2", "i=5", None), ("ns=1;i=1", "i=6", None), ("ns=1;i=3", "i=7", None), ("ns=1;i=4", "i=8", None)])]
    yield loader_case("reftypes", "types depend on later types", [Doc(["urn:a"], [], t2)])
    yield loader_case("reftypes", "types depend on later types (reverse)", [Doc(["urn:a"], [], list(reversed(t2)))])
    yield loader_case("reftypes", "unknown type", [Doc(["urn:a"], [], [N(0, "ns=1;i=1", "n", refs=[("ns=1;i=77", "i=85", "false")]), N(0, "ns=1;i=2", "n")])])
    yield loader_case("reftypes", "unknown type among known ones", [Doc(["urn:a"], [], [rt("ns=1;i=5", "i=47")] + [N(0, "ns=1;i=%d" % (10 + i), "n", refs=[("ns=1;i=5", "i=85", "false"), ("ns=1;i=77" if i == 3 else "i=41", "i=1", None)]) for i in range(6)])])
    yield loader_case("reftypes", "reference types in a circle", [Doc(["urn:a"], [], [N(5, "ns=1;i=1", "n", refs=[("ns=1;i=2", "i=1", None)]), N(5, "ns=1;i=2", "n", refs=[("ns=1;i=1", "i=1", None)]), N(0, "ns=1;i=3", "n")])])
    yield loader_case("reftypes", "reference type uses itself", [Doc(["urn:a"], [], [N(5, "ns=1;i=1", "n", refs=[("i=45", "i=32", "false"), ("ns=1;i=1", "i=1", None)])])])
    fw = [("i=41", "i=1", v) for v in (None, "true", "false", "True", "1", "")]
    yield loader_case("reftypes", "directions", [Doc([], [], [N(0, "i=700", "n", refs=fw + [("i=47", "i=2", "false"), ("i=47", "i=3", None), ("i=40", "i=4", "false"), ("i=40", "i=5", "true")])])])
    many = [("i=%d" % r.choice([35, 41, 40, 47, 39]), "i=%d" % (3000 + i), r.choice([None, "false"])) for i in range(400)]
    yield loader_case("reftypes", "400 references", [Doc([], [], [N(c, "i=%d" % (700 + c), "n", refs=[x for x in many]) for c in range(8)])])
def fam_srv(r, k):
    base = [("i=31", "i=33"), ("i=31", "i=32"), ("i=33", "i=34"), ("i=33", "i=35"), ("i=33", "i=36"), ("i=34", "i=44"), ("i=34", "i=45"), ("i=44", "i=46"), ("i=44", "i=47"), ("i=36", "i=48"), ("i=32", "i=37"), ("i=32", "i=38"), ("i=32", "i=39"), ("i=32", "i=40"), ("i=32", "i=41")]
    for name, edges in [("plain server", []), ("deep custom types", [("i=47", "ns=5;i=1"), ("ns=5;i=1", "ns=5;i=2"), ("ns=5;i=2", "ns=5;s=deep"), ("i=32", "ns=5;i=9"), ("ns=5;i=9", "ns=5;i=10"), ("i=40", "ns=5;i=40")]),
                        ("1300 server types", [("i=%d" % (47 if i % 2 else 39), "ns=5;i=%d" % (100 + i)) for i in range(1300)]), ("chain of 40", [("ns=5;i=%d" % i if i else "i=35", "ns=5;i=%d" % (i + 1)) for i in range(40)])]:
        allt = ["i=31", "i=32", "i=33", "i=47", "i=40", "i=41", "i=38", "i=44", "i=46"] + [b for _, b in edges]
        pick = allt if len(allt) < 60 else allt[:9] + allt[9::131] + allt[-2:]
        uris = ["urn:z%d" % i for i in range(2)]
        # ns=5 of the server is reached through undeclared index 5 of the file
        ty = [rt("ns=1;i=%d" % (i + 1), p) for i, p in enumerate(pick)] + [rt("ns=1;i=501", "ns=1;i=1"), rt("ns=1;i=502", "ns=1;i=4"), rt("ns=1;i=503", "ns=1;i=502"), N(5, "ns=1;i=504", "n", refs=[("i=45", "i=40", "false")]), N(5, "ns=1;i=505", "n", refs=[("i=45", "i=40", "false"), ("i=45", "i=47", "false")]), N(5, "ns=1;i=506", "n", refs=[("i=45", "i=47", "false"), ("i=45", "i=47", "false")])]
        use = [N(c, "ns=1;s=u%d_%d" % (i, c), "n", refs=[(t, "i=85", "false"), (t, "i=58", None)]) for i, t in enumerate([p for p in pick if p not in ("i=31",)] + [x["id"] for x in ty]) for c in (0, 1)]
        same = [rt("ns=1;s=RefH", "i=35"), rt("ns=1;s=RefN", "i=32"), rt("ns=1;b=QUJD", "i=32"), rt("ns=1;b=QUJE", "i=35"), rt("ns=1;g=01234567-89ab-cdef-0123-456789abcdef", "i=32"), rt("ns=1;g=01234567-89ab-cdef-0123-456789abcdee", "i=35")]
        ty += same; use += [N(1, "ns=1;i=%d" % (70000 + i), "n", refs=[(t["id"], "ns=2;i=1", "false"), (t["id"], "ns=2;i=2", None)]) for i, t in enumerate(same)]
        extra = {"g.txt": "".join("%s>%s\n" % e for e in edges).encode()}
        for nm, docs in (("after", [Doc(uris, [], ty + use)]), ("before", [Doc(uris, [], use + ty)]), ("unknown", [Doc(uris, [], [N(0, "ns=1;i=1", "n", refs=[("ns=5;i=9999", "i=1", None)])])])):
            yield loader_case("srv", "%s, types used %s" % (name, nm), docs, opts=["--srv", "@$D/g.txt"], svc=lambda e=edges: gen.Server(base + e), extra=extra)
def fam_sort(r, k):
    def obj(i, refs=(), **kw): return N(kw.pop("cls", 0), "ns=1;i=%d" % i, "n", kw, refs=refs)
    hc = lambda p: ("i=47", "ns=1;i=%d" % p, "false")
    fw = lambda p: ("i=47", "ns=1;i=%d" % p, None)
    for i in range(k):
        s = r.randint(0, 10**9); q = random.Random(s); n = q.choice([2, 5, 20, 60, 150])
        perm = list(range(n)); q.shuffle(perm)
        nodes = []
        for a in range(n):
            refs = []
            for _ in range(q.randint(0, 3)):
                b = q.randrange(n)
                if perm[b] < perm[a]: refs.append(hc(b))
                elif perm[b] > perm[a]: refs.append(fw(b))
                else: refs.append(("i=47", "ns=1;i=%d" % a, q.choice([None, "false"])))
            if q.random() < .2: refs.append(hc(100000 + q.randint(0, 5)))
            if q.random() < .1: refs += refs[:1]
            k2 = q.choice([0, 0, 0, 2, 1, 3, 4])
            nd = N(k2, "ns=1;i=%d" % a, "n", refs=refs)
            if k2 in gen.INST and q.random() < .3: nd["attrs"]["ParentNodeId"] = "ns=1;i=%d" % q.randrange(n)
            nodes.append(nd)
        if q.random() < .3: nodes.append(N(0, nodes[0]["id"], "dup", refs=[hc(7)]))
        if q.random() < .25 and n > 2: nodes[0]["refs"].append(hc(1)); nodes[1]["refs"].append(hc(0)); nodes[0]["cls"] = nodes[1]["cls"] = 0
        q.shuffle(nodes)
        yield loader_case("sort", "random graph of %d nodes, seed %d" % (n, s), [Doc(["urn:a"], [], nodes)])
    for kinds in ("i", "s", "g", "b", "isgb"):
        q = random.Random(len(kinds)); ids = []
        for j in range(120):
            x = rid(q, kinds=kinds)
            if kinds in "sb": x = ("ns=1;" if j % 2 else "") + kinds + "=" + "n" * (j % 4) + str(j // 4)
            if x not in ids: ids.append(x)
        yield loader_case("sort", "tree over %s ids" % kinds, [Doc(["urn:a", "urn:b", "urn:c"], [], [N(0, x, "n", refs=[("i=47", ids[q.randrange(j)], "false")] if j else []) for j, x in enumerate(ids)][::-1])])
    for order in ("up", "down", "zigzag"):
        n = 500; seq = list(range(n)); seq = seq if order == "up" else seq[::-1] if order == "down" else [x for p in zip(seq, seq[::-1]) for x in p][:n]
        yield loader_case("sort", "500 nodes, ids %s, chain" % order, [Doc(["urn:a"], [], [obj(i, [hc(i - 1)] if i else []) for i in seq])])
    yield loader_case("sort", "cycle of 3", [Doc(["urn:a"], [], [obj(1, [hc(3)]), obj(2, [hc(1)]), obj(3, [hc(2)]), obj(4)])])
    yield loader_case("sort", "cycle of a forward and an inverse reference", [Doc(["urn:a"], [], [obj(1, [fw(2), hc(2)]), obj(2)])])
    yield loader_case("sort", "two way stated relation is no cycle", [Doc(["urn:a"], [], [obj(1, [fw(2)]), obj(2, [hc(1)]), obj(3, [("i=47", "ns=1;i=3", None)])])])
    yield loader_case("sort", "cycle over missing node", [Doc(["urn:a"], [], [obj(1, [hc(9), fw(9)])])])
    par = [obj(1, [fw(2), ("i=35", "ns=1;i=3", None), ("i=46", "ns=1;i=4", "false")], cls=0), obj(2, ParentNodeId="ns=1;i=1"), obj(3, ParentNodeId="ns=1;i=1", cls=2), obj(4, ParentNodeId="ns=1;i=1", cls=4), obj(5, ParentNodeId="ns=1;i=1", cls=7), obj(6, ParentNodeId="ns=1;i=6"), obj(7, ParentNodeId="ns=1;i=8"), obj(8), obj(9, ParentNodeId="nonsense"), obj(10, [("i=41", "i=5", None)], ParentNodeId="ns=1;i=1"), N(1, "ns=1;i=11", "n", {"ParentNodeId": "ns=1;i=1"})]
    yield loader_case("sort", "references from parent ids", [Doc(["urn:a"], [], par)])
    yield loader_case("sort", "references from parent ids, reversed", [Doc(["urn:a"], [], par[::-1])])
    yield loader_case("sort", "references from parent ids in a second file", [Doc(["urn:a"], [], par[:1]), Doc(["urn:a"], [], par[1:])])
    dup = [obj(1), N(2, "ns=1;i=1", "second", {"DataType": "i=6"}, ("a", "b"), refs=[hc(5)], val=("scalar", "Int32", "5")), obj(2, [hc(1)]), N(3, "ns=1;i=2", "third", defn={"fields": [{"Name": "f"}]}), N(5, "ns=1;i=1", "fourth", refs=[("i=45", "i=47", "false")]), N(0, "ns=1;i=9", "n", refs=[("i=41", "i=5", None)])]
    yield loader_case("sort", "duplicates", [Doc(["urn:a"], [], dup)])
    yield loader_case("sort", "duplicates in two files", [Doc(["urn:a"], [], dup), Doc(["urn:a"], [], dup)])
def fam_many(r, k):
    for n, cls in ((99, 3), (100, 3), (101, 1), (250, 6), (11, 7), (1001, 4), (205, 5), (1100, 5), (1100, 7), (1100, 1), (1100, 3), (1100, 6)):
        yield loader_case("many", "%d nodes of class %s" % (n, gen.CLS[cls]), [Doc(["urn:a"], [], [N(cls, "ns=1;i=%d" % i, "n", refs=[("i=45", "i=33", "false")] if cls == 5 else []) for i in range(n)])])
    def use(n): return [N(0, "ns=1;s=u%d" % i, "n", refs=[("ns=1;i=5", "i=1", None)]) for i in range(n)] + [rt("ns=1;i=5", "i=32")]
    for n in (99, 100, 101, 205, 1100): yield loader_case("many", "%d nodes with deferred references" % n, [Doc(["urn:a"], [], use(n))])
    yield loader_case("many", "10050 objects and variables", [Doc(["urn:a"], [], [N(2 * (i % 2), "ns=1;i=%d" % i, "n") for i in range(20101)])])
    yield Case("many", "loader without file", ["loader"], {}, lambda res: ([({"P12", "P10"}, "iterating an empty loader delivers nodes")] if R(res, "node") or any(c["n"] or c["calls"] for c in R(res, "count")) else []) + [({"P24"}, "leak") for l in R(res, "leak") if l["n"]])
def fam_values(r, k):
    V = [("scalar", "String", "\nnew line"), ("scalar", "String", "\n \t x\n"), ("list", "ListOfString", [("String", "\n\na"), ("String", "\n"), ("String", "\t.")]), ("scalar", "Int32", "5"), ("scalar", "String", None), ("scalar", "String", "   "), ("scalar", "String", ""), ("scalar", "ByteString", "YWJj\nZGVm"), ("list", "ListOfInt32", []), ("list", "ListOfInt32", [("Int32", "1")]), ("list", "ListOfInt32", [("Int32", str(i)) for i in range(300)]),
         ("list", "ListOfString", [("String", None), ("String", " "), ("String", "x")]), ("list", "ListOfLocalizedText", [("LocalizedText", [("Locale", "en"), ("Text", "t")]), ("LocalizedText", [("Text", "u")]), ("LocalizedText", [])]),
         ("eo", "i=297", ("Argument", [("Name", "n"), ("DataType", [("Identifier", "i=6")]), ("ValueRank", "-1"), ("ArrayDimensions", None), ("Description", None)])), ("eo", "i=297", ("Argument", [])), ("eo", "ns=1;i=3", ("A", [("A", "1"), ("A", [("A", [("A", "deep")])])])),
         ("eo", "ns=1;i=3", ("Body", [("ExtensionObject", "x"), ("TypeId", "y"), ("Body", "z"), ("ListOfInt32", [("Int32", "1")])])), ("loeo", "ListOfExtensionObject", [("i=297", ("Argument", [("Name", "a")])), ("i=298", ("Argument", [("Name", "b"), ("X", [("Y", "1")])])), ("i=299", ("B", []))]),
         ("loeo", "ListOfExtensionObject", [("ns=1;i=%d" % i, ("S", [("f%d" % j, str(j)) for j in range(i % 5)])) for i in range(60)]), ("scalar", "Guid", [("String", "72962B91-FA75-4AE6-8D28-B404DC7DAF63")]), ("scalar", "Value", "nested value"), ("scalar", "Variant", [("Value", [("Int32", "3")])])]
    for i, v in enumerate(V):
        yield loader_case("values", "value %s" % json.dumps(v)[:120], [Doc(["urn:a"], [], [N(2, "i=77", "n", val=v), N(2, "i=78", "n", {}, ("a", "b"))])])
    yield loader_case("values", "all values", [Doc(["urn:a"], [], [N(2, "i=%d" % (100 + i), "n", val=v) for i, v in enumerate(V)])], seed=8, fancy=True)
    for i in range(k):
        s = r.randint(0, 10**9); q = random.Random(s)
        yield loader_case("values", "random values, seed %d" % s, [Doc(["urn:a"], [], [N(2, "i=%d" % (100 + j), "n", val=rval(q)) for j in range(12)])], seed=s, fancy=q.random() < .5)
    for i in range(k):   # sequences of elements which are no values
        s = r.randint(0, 10**9); q = random.Random(s); names = ["ExtensionObject", "TypeId", "Identifier", "Body", "ListOfInt32", "ListOfExtensionObject", "Int32", "A", "Value", "String"]
        def rnd(d): return "".join("<%s>%s%s</%s>" % (n, q.choice(["", "7", " "]), rnd(d + 1) if d < 5 else "", n) for n in [q.choice(names) for _ in range(q.randint(0, 3))])
        docs = [Doc(["urn:a"], [], [N(q.choice([2, 2, 2, 6, 0]), "i=%d" % (100 + j), "n", {}, ("l", "t%d" % j), val=("raw", rnd(0))) for j in range(10)] + [N(0, "i=99", "n")])]
        yield loader_case("values", "arbitrary elements inside values, seed %d" % s, docs)
    yield loader_case("values", "two values", [Doc([], [], [N(2, "i=77", "n", val=("raw", "<Int32>1</Int32></Value><Value><Int32>2</Int32>"))])])
def fam_unknown(r, k):
    """the same document with and without unknown elements"""
    def strip(x):
        return [y for y in x if y["r"] not in ("end",)]
    for i in range(k):
        s = r.randint(0, 10**9); q = random.Random(s); d = rdoc(q, size=q.randint(2, 8)); noisy = to_xml(d, s, q.random() < .5, .35)
        exp = expect([d])
        def check(res, exp=exp):
            return [(p | {"P14"}, m) for p, m in cmp_loader(res, exp, [True])]
        yield Case("unknown", "random document with unknown elements, seed %d" % s, ["loader", "$D/f.xml"], {"f.xml": noisy}, check)
    inner = '<UAObject NodeId="i=666"><DisplayName>no</DisplayName><References><Reference ReferenceType="i=47">i=1</Reference></References></UAObject>'
    for where in ("nodeset", "uris", "uri", "aliases", "alias", "node", "refs", "ref", "def", "field", "dn", "ext"):
        for depth in (1, 2, 3, 17):
            j = "<Zz>" * depth + inner + "</Zz>" * depth + "<Zz/>"
            g = lambda w: j if w == where else ""
            x = ('<UANodeSet>%s<NamespaceUris>%s<Uri>%surn:a</Uri></NamespaceUris><Aliases>%s<Alias Alias="A">%sns=1;i=5</Alias></Aliases><UADataType NodeId="ns=1;i=9" BrowseName="t">%s<DisplayName>%sname</DisplayName><Extensions>%s</Extensions><References>%s<Reference ReferenceType="i=45" IsForward="false">%si=22</Reference></References>'
                 '<Definition>%s<Field Name="f" DataType="A">%s</Field><Field Name="g"/></Definition></UADataType><UAObject NodeId="ns=1;i=10" BrowseName="o"><DisplayName>z</DisplayName></UAObject></UANodeSet>') % (g("nodeset"), g("uris"), g("uri"), g("aliases"), g("alias"), g("node"), g("dn"), g("ext"), g("refs"), g("ref"), g("def"), g("field"))
            d = Doc(["urn:a"], [("A", "ns=1;i=5")], [N(3, "ns=1;i=9", "t", {}, (None, "name"), refs=[("i=45", "i=22", "false")], defn={"fields": [{"Name": "f", "DataType": "A"}, {"Name": "g"}]}), N(0, "ns=1;i=10", "o", {}, (None, "z"))])
            exp = expect([d])
            yield Case("unknown", "unknown elements (depth %d) in %s" % (depth, where), ["loader", "$D/f.xml"], {"f.xml": x.encode()}, lambda res, exp=exp: [(p | {"P14"}, m) for p, m in cmp_loader(res, exp, [True])])
    for depth in (1, 2, 5):
        x = '<UANodeSet><UAObject NodeId="i=10" BrowseName="o"><Extensions>' + "<Extension>" * depth + "<A>1</A>" + inner + "</Extension>" * depth + '</Extensions><DisplayName>z</DisplayName></UAObject><UAObject NodeId="i=11" BrowseName="p"/></UANodeSet>'
        exp = expect([Doc([], [], [N(0, "i=10", "o", {}, (None, "z")), N(0, "i=11", "p")])])
        yield Case("unknown", "%d nested extensions" % depth, ["loader", "$D/f.xml"], {"f.xml": x.encode()}, lambda res, exp=exp: [(p | {"P14"}, m) for p, m in cmp_loader(res, exp, [True])])
def fam_defs(r, k):
    for n in (0, 1, 2, 10, 255, 1000):
        ds = [N(3, "ns=1;i=1", "s", defn={"fields": [{"Name": "f%d" % i, "DataType": "ns=1;s=t%d" % i if i % 2 else "Al", "ValueRank": str(i % 4 - 1), "IsOptional": "true" if i % 3 == 0 else "false"} for i in range(n)]}),
              N(3, "ns=1;i=2", "e", {"IsAbstract": "true"}, defn={"fields": [{"Name": "e%d" % i, "Value": str(i * 7 - 3)} for i in range(n)]}), N(3, "ns=1;i=3", "u", defn={"IsUnion": "true", "fields": [{"Name": "f%d" % i, "DataType": "i=12"} for i in range(n)]}),
              N(3, "ns=1;i=4", "o", defn={"IsOptionSet": "true", "fields": [{"Name": "b%d" % i, "Value": str(i)} for i in range(n)]})]
        yield loader_case("defs", "definitions with %d fields" % n, [Doc(["urn:a"], [("Al", "ns=1;i=99")], ds)])
    odd = [{"fields": [{}, {"Name": "x"}, {"DataType": "i=6"}, {"Name": "v", "Value": "0", "DataType": "i=6"}, {"Name": "neg", "Value": "-2147483648"}, {"Name": "max", "Value": "2147483647"}]}, {"IsUnion": "TRUE", "IsOptionSet": "1", "fields": [{"Name": "a", "IsOptional": "TRUE"}]}, {"IsUnion": "true", "IsOptionSet": "true", "fields": [{"Name": "a"}]}]
    yield loader_case("defs", "odd fields", [Doc(["urn:a"], [], [N(3, "ns=1;i=%d" % i, "s", defn=d) for i, d in enumerate(odd)])])
    yield loader_case("defs", "definitions on other classes", [Doc(["urn:a"], [], [N(c, "ns=1;i=%d" % c, "n", {}, ("a", "b"), defn={"fields": [{"Name": "a", "Value": "1"}, {"Name": "b"}]}) for c in range(8)])])
    for i in range(k):
        s = r.randint(0, 10**9); q = random.Random(s)
        yield loader_case("defs", "random definitions, seed %d" % s, [Doc(["urn:a", "urn:b"], [("A%d" % j, rid(q)) for j in range(4)], [N(3, "i=%d" % (100 + j), "n", defn=rdefn(q, ["A0", "A3"])) for j in range(15)])], seed=s, fancy=True)
def fam_bidir(r, k):
    nodes = []
    for i, (bn, typ, fw) in enumerate(itertools.product(["Default Binary", "0:Default Binary", "1:Default Binary", "Default XML", "default binary", "Default Binary ", None], ["i=38", "HasEncoding", "i=39", "ns=1;i=38"], ["false", "true", None])):
        if typ == "ns=1;i=38": typ = "i=40"
        nodes.append(N(0, "ns=1;i=%d" % (100 + i), bn, refs=[(typ, "ns=1;s=src%d" % i, fw)] + ([(typ, "ns=1;i=2", fw)] if i % 4 == 0 else [])))
    nodes.append(N(3, "ns=1;i=7", "0:Default Binary", refs=[("i=38", "Ali", "false")]))
    yield loader_case("bidir", "names, types and directions", [Doc(["urn:a"], [("HasEncoding", "i=38"), ("Ali", "ns=1;s=xy")], nodes)])
    yield loader_case("bidir", "two files", [Doc(["urn:a"], [], [N(0, "ns=1;i=%d" % i, "Default Binary", refs=[("i=38", "ns=1;i=%d" % (i + 50), "false")]) for i in range(5)]), Doc(["urn:b"], [], [N(0, "ns=1;i=%d" % i, "Default Binary", refs=[("i=38", "ns=1;i=%d" % (i + 50), "false")]) for i in range(3)])])
    yield Case("bidir", "no file", ["loader"], {}, lambda res: [({"P25"}, "encoding references without a file")] if R(res, "bidir") else [])
def fam_files(r, k):
    d = Doc(["urn:a"], [("A", "i=47")], [N(0, "ns=1;i=1", "1:n", {}, ("en", "text"), refs=[("A", "i=85", "false")]), N(2, "ns=1;i=2", "n", val=("list", "ListOfInt32", [("Int32", "1")]))])
    good = to_xml(d); exp = expect([d])
    def res_ok(want, msg):
        def c(res):
            imp = [bool(x["ok"]) for x in R(res, "import")]; b = []
            if imp != want: b.append(({"P23"}, "%s: import returned %s instead of %s" % (msg, imp, want)))
            if False in want and not any(x["level"] == 2 for x in R(res, "log")): b.append(({"P23"}, msg + ": no error logged"))
            b += [({"P24"}, "%d blocks not released" % l["n"]) for l in R(res, "leak") if l["n"]]
            return b
        return c
    dx = Doc(["urn:a"], [("A", "i=47")], [N(3, "ns=1;i=1", "1:T", defn={"fields": [{"Name": "f", "DataType": "i=6"}]}), N(0, "ns=1;i=2", "Default Binary", refs=[("i=38", "ns=1;i=1", "false")]), N(2, "ns=1;i=3", "v", val=("scalar", "Int32", "1")), N(5, "ns=1;i=4", "r", refs=[("i=45", "i=47", "false")])])
    rich = to_xml(dx)
    def mk(name, args, files, want): return Case("files", name, ["loader"] + args, files, res_ok(want, name))
    yield mk("missing file", ["$D/none.xml"], {}, [False]); yield mk("directory", ["$D/dir"], {"dir": None}, [False]); yield mk("empty file", ["$D/f.xml"], {"f.xml": b""}, [False])
    yield mk("null context", ["NULLCTX"], {}, [False]); yield mk("null callback", ["NULLCB"], {}, [False])
    yield mk("null callback between files", ["$D/f.xml", "NULLCB", "NULLCTX", "$D/none.xml", "$D/g.xml"], {"f.xml": good, "g.xml": good}, [True, False, False, False, True])
    for bad, w in (("$D/none.xml", False), ("$D/dir", False), ("$D/empty.xml", False), ("$D/cut.xml", False), ("NULLCB", False), ("NULLCTX", False)):
        yield mk("%s behind a good file" % bad, ["$D/f.xml", bad, "$D/g.xml", bad], {"f.xml": rich, "g.xml": rich, "dir": None, "empty.xml": b"", "cut.xml": rich[:-30]}, [True, w, True, w])
    for cut in sorted(set([1, 2, 3, 4, 5, 37, 38, 39, 60, len(good) - 1, len(good) - 2, len(good) - 12, len(good) - 15] + [r.randrange(1, len(good) - 14) for _ in range(max(10, k))])):
        t = good.rstrip()[:cut]
        if t == good.rstrip(): continue
        yield mk("file cut after %d bytes" % cut, ["$D/f.xml"], {"f.xml": t}, [False])
    for n, data in (("garbage behind the root", good.rstrip() + b"<x/>"), ("text behind the root", good.rstrip() + b"garbage"), ("second root", good + good[good.index(b"<UANodeSet"):]), ("not closed tag", good.replace(b"</UAObject>", b"</UAObjekt>")), ("bad entity", good.replace(b">text<", b">&nope;<")),
                    ("binary", bytes(range(256)) * 8), ("bad attribute", good.replace(b'BrowseName="1:n"', b"BrowseName=1")), ("bare ampersand", good.replace(b">text<", b">a & b<")), ("invalid byte", good.replace(b">text<", b">\xff\xfe\x01<")), ("no xml", b"hello world, this is no xml at all")):
        yield mk(n, ["$D/f.xml"], {"f.xml": data}, [False])
        big = data.replace(b"<UANodeSet ", b"<!--" + b"p" * 5000 + b"--><UANodeSet ", 1)
        if big != data: yield mk(n + " in a larger file", ["$D/f.xml"], {"f.xml": big}, [False])
    # sizes around the read size: everything is read and the end is seen
    for tot in (len(good), 1023, 1024, 1025, 1027, 1028, 1029, 2047, 2048, 2051, 2052, 2053, 4096, 4100, 65536 + 4, 1048580):
        if tot < len(good) + 9: continue
        pad = tot - len(good) - 7
        f1 = good.replace(b"<UANodeSet", b"<!--" + b"x" * pad + b"--><UANodeSet", 1)
        yield Case("files", "well formed file of %d bytes" % len(f1), ["loader", "$D/f.xml"], {"f.xml": f1}, lambda res: [(p | {"P23"}, m) for p, m in cmp_loader(res, exp, [True])])
        f2 = good.rstrip(); f2 = f2 + b" " * (tot - len(f2) - 1) + b"<"
        yield mk("error in the last byte of %d" % len(f2), ["$D/f.xml"], {"f.xml": f2}, [False])
        f3 = good.rstrip(); f3 = f3[:-1] + b" " * (tot - len(f3)) if tot > len(f3) else f3[:-1]
        yield mk("missing last byte of %d" % (len(f3)), ["$D/f.xml"], {"f.xml": f3}, [False])
        f4 = good.rstrip(); f4 = f4 + b" " * (tot - len(f4))
        yield Case("files", "trailing space up to %d bytes" % len(f4), ["loader", "$D/f.xml"], {"f.xml": f4}, lambda res: [(p | {"P23"}, m) for p, m in cmp_loader(res, exp, [True])])
    for n, f, w in (("file cut", good[:-20], 0), ("directory", None, 0), ("missing", 1, 0), ("bad sort", to_xml(Doc(["urn:a"], [], [N(0, "ns=1;i=1", "n", refs=[("i=47", "ns=1;i=2", "false")]), N(0, "ns=1;i=2", "n", refs=[("i=47", "ns=1;i=1", "false")])])), 0), ("good", good, 1)):
        def c(res, n=n, w=w):
            b = []; ld = R(res, "load")
            if not ld or bool(ld[0]["ok"]) != bool(w): b.append(({"P23"}, "server, %s: load returned %s" % (n, ld)))
            if not w and (R(res, "call") or R(res, "ref")): b.append(({"P23"}, "server, %s: nodes were added after a failed import" % n))
            if not w and not any(x["level"] >= 400 or x["level"] in (4, 5) or True for x in R(res, "slog")): b.append(({"P23"}, "server, %s: no error logged" % n))
            return b
        yield Case("files", "server, " + n, ["server", "$D/f.xml"], {} if f == 1 else {"f.xml": f}, c)
def leak_only(res): return [({"P24"}, "%d blocks not released (or released twice)" % l["n"]) for l in R(res, "leak") if l["n"]]
def fam_lifetime(r, k):
    """every prefix class of a rich document: imported or not, sorted or not, failing or not"""
    for i in range(max(3, k // 10)):
        s = r.randint(0, 10**9); q = random.Random(s); d = rdoc(q, size=12, uris=["urn:a", "urn:b"]); x = to_xml(d, s, False)
        d2 = rdoc(q, size=6, uris=["urn:a"])
        for opts in ([], ["--nosort"], ["--builtin"], ["--builtin", "--nosort"], ["--two"], ["--srv", ""]):
            yield Case("lifetime", "document %d %s" % (s, opts), ["loader"] + opts + ["$D/f.xml", "$D/g.xml"], {"f.xml": x, "g.xml": to_xml(d2, s)}, leak_only)
        cuts = sorted({q.randrange(4, len(x)) for _ in range(max(12, k // 2))})
        for c in cuts:
            yield Case("lifetime", "document %d cut at %d" % (s, c), ["loader"] + q.choice([[], ["--nosort"]]) + ["$D/f.xml"] + (["$D/g.xml"] if c % 3 == 0 else []), {"f.xml": x[:c], "g.xml": x}, leak_only)
    fail = Doc(["urn:a"], [("S", "ns=1;s=alias")], [N(0, "ns=1;s=a", "n", refs=[("ns=1;s=unk", "S", None), ("i=41", "S", None)]), N(5, "ns=1;s=rt", "n", refs=[("ns=1;s=unk2", "S", None)]), N(2, "ns=1;s=v", "n", {"DataType": "S", "ParentNodeId": "S"}, val=("eo", "i=1", ("B", [("c", "d")])), refs=[("ns=1;s=rt", "S", None), ("i=40", "S", None)]),
                                              N(3, "ns=1;s=d", "n", defn={"fields": [{"Name": "f", "DataType": "S"}, {"Name": "g", "DataType": "ns=1;s=q"}]}), N(0, "ns=1;s=e", "Default Binary", refs=[("i=38", "S", "false")]), N(4, "ns=1;s=m", "n", {"ParentNodeId": "S"}), N(7, "ns=1;s=w", "n", {"ParentNodeId": "S"}), N(6, "ns=1;s=vt", "n", {"DataType": "S"}), N(3, "ns=1;s=d", "dup", defn={"fields": [{"Name": "f", "DataType": "S"}]}), N(2, "ns=1;s=v", "dup", val=("list", "ListOfX", [("X", "1")]))])
    ok = Doc(fail.uris, fail.aliases, [n for n in fail.nodes if not any(t[0] in ("ns=1;s=unk", "ns=1;s=unk2", "ns=1;s=rt") for t in n["refs"])])
    cyc = Doc(["urn:a"], [], [N(0, "ns=1;s=a", "n", refs=[("i=47", "ns=1;s=b", "false")]), N(0, "ns=1;s=b", "n", refs=[("i=47", "ns=1;s=a", "false")]), N(0, "ns=1;s=c", "n", {"ParentNodeId": "ns=1;s=a"}), N(2, "ns=1;s=z", "n", refs=[("i=47", "ns=1;s=a", "false")], val=("scalar", "A", "1"))])
    for nm, d in (("unresolved", fail), ("string ids everywhere", ok), ("cycle", cyc)):
        for opts in ([], ["--nosort"], ["--two"], ["--builtin"]):
            yield Case("lifetime", nm + " " + " ".join(opts), ["loader"] + opts + ["$D/f.xml"], {"f.xml": to_xml(d)}, leak_only)
    yield Case("lifetime", "repeated definitions, values, texts", ["loader", "$D/f.xml"], {"f.xml": b'<UANodeSet><UADataType NodeId="s=a" BrowseName="x"><Definition><Field Name="a" DataType="s=1"/></Definition><Definition><Field Name="a" DataType="s=1"/></Definition></UADataType><UAVariable NodeId="s=b" BrowseName="x"><Value><A><B>1</B></A></Value><Value><A><B>1</B></A></Value></UAVariable></UANodeSet>'}, leak_only)
    for t in (["loader"], ["loader", "--nosort"], ["loader", "--builtin"], ["loader", "NULLCTX", "NULLCB"], ["loader", "--srv", ""]): yield Case("lifetime", " ".join(t), t, {}, leak_only)
def fail_recs(props):
    def c(res): return [(props, x["what"]) for x in R(res, "fail")] + [(props | {"P24"}, "%d blocks not released" % l["n"]) for l in R(res, "leak") if l["n"]]
    return c
def fam_arena(r, k):
    for i in range(max(4, k // 6)): yield Case("arena", "random request sequence", ["arena", str(r.randint(1, 10**8))], {}, fail_recs({"P01", "P02"}))
def fam_ctx(r, k):
    for i in range(3): yield Case("ctx", "random namespace registrations", ["ctx", str(r.randint(1, 10**8))], {}, fail_recs({"P20"}))
def fam_log(r, k):
    want = "".join("NODESETLOADER: Debug : m%d x\nNODESETLOADER: Warning : plain\nNODESETLOADER: Error : 77%%|abc|q\nNODESETLOADER: Warning : %s|\n" % (i, "x" * 5000) for i in range(5))
    yield Case("log", "levels and arguments", ["log"], {}, lambda res: ([({"P26"}, "printed %r instead of %r" % (res.out[:200], want[:200]))] if res.out != want else []) + [({"P26", "P24"}, "leak")] * any(l["n"] for l in R(res, "leak")))
def fam_b64(r, k):
    import base64
    ins, outs = [], []
    def add(t, e): ins.append(t); outs.append(e)
    def good(b, ws=0):
        t = base64.b64encode(b).decode()
        if ws: t = "".join(c + "".join(r.choice([" ", "~", "^", "  "]) for _ in range(r.random() < .3)) for c in t); t = r.choice(["", " "]) + t
        add(t, b)
    for n in list(range(0, 40)) + [100, 255, 256, 1000]: good(bytes(r.randrange(256) for _ in range(n)), n % 2)
    for b in range(256): good(bytes([b, 255 - b, b ^ 0x55]))
    for b in range(256): good(bytes([b])); good(bytes([b, b]))
    for i in range(20 * max(1, k // 10)): good(bytes(r.randrange(256) for _ in range(r.randrange(60))), 1)
    for t in ("A", "AB", "ABC", "ABCDE", "ABCDEF", "AB==C", "ABC=D", "A===", "====", "AB=", "AB=C", "=ABC", "ABCD=", "AB==AB==", "ABCD====", "AB C", "A B C"): add(t, None)
    for c in range(33, 127):
        if not (chr(c).isalnum() or chr(c) in "+/=~^"): add("AB%cD" % c, None); add("ABCD%cBCD" % c, None); add("%cBCD" % c, None); add("ABC%c" % c, None)
    add("AB\x80D", None); add("AB\xffD", None)
    def check(res):
        g = R(res, "b64"); b = []
        if len(g) != len(ins): return [({"P18"}, "only %d of %d results" % (len(g), len(ins)))]
        for t, e, x in zip(ins, outs, g):
            if e is None:
                if x["n"] != 0 or not x["null"]: b.append(({"P18"}, "malformed text %r is decoded to %d bytes" % (t, x["n"])))
            elif x["n"] != len(e) or (len(e) and x["d"].encode("latin1") != e): b.append(({"P18"}, "%r is decoded to %r (%d) instead of %r" % (t, x["d"][:40], x["n"], e[:40])))
        return b[:5] + [({"P18"}, "leak")] * any(l["n"] for l in R(res, "leak"))
    yield Case("b64", "%d texts" % len(ins), ["b64"], {}, check, stdin="".join(t + "\n" for t in ins).encode("latin1"))
from srvgen import *
FAM = {k[4:]: v for k, v in list(globals().items()) if k.startswith("fam_")}
PLAN = {
 "P01": ["arena", "text"], "P02": ["arena", "text"], "P03": ["text", "random", "values"], "P04": ["attrs", "random"], "P05": ["attrs", "random", "text"], "P06": ["ids", "random", "sids"], "P07": ["ns", "ids", "random", "sids"],
 "P08": ["alias", "random", "ids", "defs"], "P09": ["reftypes", "random"], "P10": ["reftypes", "random", "sort"], "P11": ["sort", "random"], "P12": ["many", "sort", "random"], "P13": ["values", "random"], "P14": ["unknown"],
 "P15": ["defs", "random", "alias"], "P18": ["b64"], "P20": ["ctx", "svalues"], "P23": ["files"], "P24": ["lifetime", "values", "files", "sort", "srvlife", "alias", "defs", "bidir", "reftypes"], "P25": ["bidir", "random", "stypes"], "P26": ["log", "slog"], "P28": ["srv"],
 "P16": ["layout"], "P17": ["svalues"], "P19": ["dims"], "P21": ["snodes"], "P22": ["retry"], "P27": ["stypes", "layout"]}
SIZE = {"quick": 40, "thorough": 300}

def check(pid, seed, tier, workdir, replaydir):
    os.makedirs(workdir, exist_ok=True)
    out = dict(failures=[], evaluations=0, samples=[], rule="documents of families %s, compared with the reference model of native/gen.py; every run under address and undefined behaviour sanitizers with an allocation balance" % PLAN[pid], error=None)
    binp, err = build(workdir)
    if not binp: out["error"] = "build: " + err; return out
    r = random.Random(seed * 1000 + int(pid[1:])); cases = []
    for f in PLAN[pid]: cases += list(FAM[f](r, SIZE[tier] if f == PLAN[pid][0] else SIZE[tier] // 2))
    def one(ic):
        i, c = ic; d = os.path.join(workdir, "c%d" % i)
        if one.n >= 8 or one.hang >= 3: return None   # enough failing inputs
        res = execute(binp, c, d); fs = []
        one.hang += res.timeout
        cr = crash(res)
        if cr: fs = [cr]
        else:
            try: bad = c.check(res)
            except Exception as e: bad = [({pid}, "output not understood: %r" % e)]
            fs = [m for p, m in bad if pid in p]
        keep = None
        if fs:
            tag = "%s_%d_%s" % (pid, i, hashlib.sha1(c.name.encode()).hexdigest()[:8]); keep = os.path.join(replaydir, tag)
        rec = (c, fs, keep)
        one.n += bool(fs)
        if fs and one.n <= 5:
            shutil.rmtree(keep, ignore_errors=True); shutil.copytree(d, keep, dirs_exist_ok=True); open(os.path.join(keep, "case.txt"), "w").write("%s\n%s\n\ndump %s\n%s\n" % (c.name, "\n".join(fs), " ".join(c.args), res.err[:3000]))
        shutil.rmtree(d, ignore_errors=True)
        return rec
    one.n = one.hang = 0
    with ThreadPoolExecutor(6) as ex: rs = [x for x in ex.map(one, enumerate(cases)) if x]
    out["evaluations"] = len(rs); out["samples"] = [dict(case=c.name, args=c.args, verdict="ok" if not fs else fs[0]) for c, fs, _ in rs[:: max(1, len(rs) // 3)]][:3]
    for c, fs, keep in rs:
        for m in fs[:3]: out["failures"].append(dict(what="[%s] %s: %s" % (c.fam, c.name, m), replay="native/build.sh DUMP; DUMP OUT %s  (files kept in %s)" % (" ".join(c.args), keep)))
    return out
if __name__ == "__main__":
    import tempfile, time
    tier = os.environ.get("VERIF_TIER", "quick")
    for pid in sys.argv[1:]:
        t = time.time(); w = tempfile.mkdtemp(prefix="eng_"); o = check(pid, int(os.environ.get("VERIF_SEED", "1")), tier, w, "/tmp/engrep"); shutil.rmtree(w)
        print(pid, "runs", o["evaluations"], "failures", len(o["failures"]), o["error"] or "", "%.1fs" % (time.time() - t))
        for f in o["failures"][:8]: print("   ", f["what"][:700])
