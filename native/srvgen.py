"""Families of documents for the open62541 backend, run against the recording
server of ua_native.c and compared with the model below."""
import random, struct, base64, datetime, re, json
import gen
from gen import Doc, N, to_xml, expect, L1, NULLID
def _e():
    import sys
    return sys.modules["__main__"] if hasattr(sys.modules["__main__"], "fam_lifetime") else __import__("engine")
def Case(*a, **k): return _e().Case(*a, **k)
def R(res, k): return [x for x in res.recs if x["r"] == k]
BASE = [(31, 33), (31, 32), (33, 34), (33, 35), (33, 36), (34, 44), (34, 45), (44, 46), (44, 47), (36, 48), (32, 37), (32, 38), (32, 39), (32, 40), (32, 41), (24, 22), (24, 29), (22, 12755), (24, 12), (24, 26), (26, 27), (27, 6)]
SZ = {1: (1, 1), 2: (1, 1), 3: (1, 1), 4: (2, 2), 5: (2, 2), 6: (4, 4), 7: (4, 4), 8: (8, 8), 9: (8, 8), 10: (4, 4), 11: (8, 8), 12: (16, 8), 13: (8, 8), 14: (16, 4), 15: (16, 8), 16: (16, 8), 17: (24, 8), 18: (48, 8), 19: (4, 4), 20: (24, 8), 21: (32, 8), 22: (48, 8), 23: (80, 8), 24: (48, 8), 25: (56, 8)}
NAMES = {1: "Boolean", 2: "SByte", 3: "Byte", 4: "Int16", 5: "UInt16", 6: "Int32", 7: "UInt32", 8: "Int64", 9: "UInt64", 10: "Float", 11: "Double", 12: "String", 13: "DateTime", 14: "Guid", 15: "ByteString", 16: "XmlElement", 17: "NodeId", 18: "ExpandedNodeId", 19: "StatusCode", 20: "QualifiedName", 21: "LocalizedText", 22: "ExtensionObject", 23: "DataValue", 24: "Variant", 25: "DiagnosticInfo"}
HASPTR = {12, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25}
class T:
    def __init__(s, id, name, kind, size, align, pf): s.id, s.name, s.kind, s.size, s.align, s.pf = id, name, kind, size, align, pf; s.members = []; s.hasmem = False; s.enc = NULLID
BT = {"i=%d" % n: T("i=%d" % n, NAMES[n], n - 1, SZ[n][0], SZ[n][1], n not in HASPTR) for n in SZ}
for n, nm in ((352, "ObjectAttributes"), (355, "VariableAttributes"), (364, "VariableTypeAttributes")): BT["i=%d" % n] = T("i=%d" % n, nm, 27, 0, 1, False)
class Mem:
    def __init__(s, name, arr, opt, fid): s.name, s.arr, s.opt, s.fid = name, arr, opt, fid; s.t = None; s.pad = 0
    def align(s): return 8 if s.arr or s.opt else s.t.align
    def size(s): return 16 if s.arr else 8 if s.opt else s.t.size
def pad(a, o): return (-o) % a
CLSN = ["Object", "ObjectType", "Variable", "DataType", "Method", "ReferenceType", "VariableType", "View"]
ORDER = [5, 3, 1, 6, 0, 4, 2, 7]; MASK = [1, 8, 2, 64, 4, 32, 16, 128]
class Model:
    def __init__(s, pre=0, graph=()):
        s.uris = ["http://opcfoundation.org/UA/", "urn:app"]; s.triples = set((("i=%d" % a), "i=45", "i=%d" % b) for a, b in BASE); s.types = []; s.loads = []
        for k in range(pre): s.nsidx("urn:pre%d" % k)
        for a, b in graph: s.triples.add((a, "i=45", b))
    def nsidx(s, u):
        if u not in s.uris:
            if len(s.uris) >= 64: return 63
            s.uris.append(u)
        return s.uris.index(u)
    def parents(s, id): return [a for a, t, b in s.triples if t == "i=45" and b == id]
    def basetype(s, id):
        while not (id == "i=12755" or re.fullmatch(r"i=\d+", id) and int(id[2:]) <= 29):
            p = s.parents(id)
            if len(p) != 1: return NULLID
            id = p[0]
        return id
    def find(s, id): return BT.get(id)
    def custom(s, id): return next((t for t in s.types if t.id == id), None)
    # ---- one file ----
    def load(s, doc, refuse=None, status=True):
        refuse = refuse if refuse is not None else {}
        exp = expect([doc], gen.Server([(a, b) for a, t, b in s.triples if t == "i=45"]), nsidx=s.nsidx)
        L = dict(exp=exp, ok=status and exp["sort_ok"], doc=doc, vmap=[s.nsidx(u) for u in doc.uris]); s.loads.append(L)
        if not L["ok"]: return L
        by = {c: [e for e in exp["nodes"].values() if e["class"] == c] for c in range(8)}
        bad, L["perclass"] = [], {}
        def call(e):
            n = refuse.get(e["id"], 0)
            if n:
                refuse[e["id"]] = n - 1 if n > 0 else n
                return False
            inv = [x for x in e["hier"] if not x[2]]
            if not e.get("_late"): inv = inv[-1:]  # references are kept in front of the earlier ones
            par = e.get("parent") if e["class"] in gen.INST and e.get("parent") not in (None, NULLID) else None
            if inv or par: s.triples.add((par or inv[0][1], inv[0][0] if inv else NULLID, e["id"]))
            return True
        L["first"] = {}; L["rounds"] = []
        for c in ORDER:
            b = [e for e in by[c] if not call(e)]; L["perclass"][c] = (len(by[c]), len(b)); bad += b
            if c == 3: s.import_types(by[3], exp, L)
            if c == 2:
                for e in by[2]: e["tval"] = s.value(e, L)
        L["bad"] = [e["id"] for e in bad]; rnd = bad; k = 1
        while rnd and k != 10:
            L["rounds"].append([e["id"] for e in rnd]); rnd = [e for e in rnd if not call(e)]; k += 1
        L["refs"] = []
        for e in exp["nodes"].values():
            for t, g, f in e["hier"] + e["non"] + e.get("encref", []): L["refs"].append((e["id"], t, g, f)); s.triples.add((e["id"], t, g) if f else (g, t, e["id"]))
        return L
    # ---- types ----
    def import_types(s, nodes, exp, L):
        new = []
        for e in nodes:
            for a, b, t in exp["bidir"]:
                if a == e["id"]: e["encref"] = [(t, b, True)]; break
        # parents first: the loader delivers them so
        done = {}; todo = list(nodes)
        while todo:
            for e in todo:
                ps = [g if not f else None for t, g, f in e["hier"]]
                if not any(x["id"] in ps for x in todo if x is not e): break
            todo.remove(e); nodes_e = e; new.append((e, s.mktype(e)))
        for e, t in new: s.types.append(t)
        abst = {e["id"] for e, t in new if e["abs"] in ("true", "1")}
        def res(fid):
            if fid in BT: return BT[fid]
            if not fid.startswith("ns="): return BT["i=24"]
            if fid in abst and s.custom(fid): return BT["i=24"]
            return s.custom(fid)
        for e, t in new:
            if t.kind not in (27, 28, 29): continue
            par = next((g for ty, g, f in e["hier"] if not f), NULLID)
            own = t.members; t.own = list(own)
            for m in own: m.t = res(m.fid)
            if par != "i=22":
                p = BT.get(par) or (BT["i=24"] if not par.startswith("ns=") else s.custom(par))
                if p is not None and p.hasmem and len(p.members) + len(own) <= 255:
                    inh = []
                    for m in p.members: q = Mem(m.name, m.arr, m.opt, m.fid); q.t = m.t; inh.append(q)
                    t.members = inh + own; t.hasmem = True; t.size = 0
                    if p.kind == 28: t.kind = 28; t.pf = False
        # layout: only types whose members are known
        prog = True
        while prog:
            prog = False
            for e, t in new:
                if t.size or t.kind not in (27, 28, 29) or not t.hasmem: continue
                if any(m.t is None or (m.t.size == 0 and not m.arr and not m.opt) for m in t.members): continue
                s.layout(t); prog = prog or t.size > 0
    def mktype(s, e):
        base = s.basetype(e["id"]); d = e.get("def"); t = T(e["id"], e["bn"], None, 0, 1, True)
        if base == "i=29": t.kind, t.size, t.align = 25 + 1, 4, 4
        elif base in ("i=22", "i=12755"):
            t.kind = 29 if d and d["union"] else 27; enc = [x for x in e.get("encref", []) + list(reversed(e["non"])) if x[0] == "i=38"]; t.encs = {x[1] for x in (e.get("encref") or enc)}; t.enc = enc[0][1] if enc else NULLID
            if base == "i=22":
                if d is None: t.size = 8; t.align = 8
                else:
                    t.hasmem = True
                    for f in d["fields"][:]:
                        m = Mem(f[0] or "", f[2] >= 0, bool(f[4]), f[1]); t.members.append(m)
                        if m.opt: t.kind = 28; t.pf = False
        else:
            b = BT.get(base, BT["i=24"]); t.kind, t.size, t.align, t.pf = b.kind, b.size, b.align, b.pf
        return t
    def layout(s, t):
        al = max([m.align() for m in t.members] + [1])
        for m in t.members: t.pf = t.pf and m.t.pf and not m.arr and not m.opt
        if t.kind == 29:
            off = 4 + pad(al, 4); size = 0
            for m in t.members: m.pad = off & 63; size = max(size, off + m.size())
            al = max(al, 4)
        else:
            size = 0
            for m in t.members: m.pad = pad(m.align(), size); size += m.pad + m.size()
        size += pad(al, size); t.align = al; t.size = size if size <= 65535 else 0; t.done = True
    # ---- values ----
    def value(s, e, L):
        v = e.get("val")
        if v in (None, "skip"): return None
        dt = e["dt"]; t = BT.get(dt) or s.custom(dt) or BT.get(s.basetype(dt))
        if t is None or t.size == 0:
            return dict(len=0, v=[], t=t) if v["arr"] and not v["data"][2] and t is not None else None
        if v["arr"]: k = v["data"][2] if v["data"][1] == "C" else []; return dict(len=len(k), v=[s.conv(x, t, L) for x in k], t=t)
        return dict(len=0, v=s.conv(v["data"], t, L), t=t)
    def zero(s, t): return s.conv(None, t, None)
    def conv(s, d, t, L):
        k = t.kind; prim = k <= 11 or k in (12, 14, 26)
        if d is not None and prim != (d[1] == "P"): d = None
        x = d[2] if d is not None else None
        def look(n):
            return next((c for c in x if c[0] == n), None) if d is not None else None
        def txt(c): return c[2] if c is not None and c[1] == "P" else None
        def num(c): return x if x is not None else None
        if k == 0: return x in ("true", "1")
        if k in (1, 2, 3, 4, 5, 6, 7, 8): return int(x) if x is not None else 0
        if k == 9: return struct.unpack("f", struct.pack("f", float(x)))[0] if x is not None else 0.0
        if k == 10: return float(x) if x is not None else 0.0
        if k == 11: return x
        if k == 12:
            if x is None: return 0
            return int((datetime.datetime.strptime(x[:19], "%Y-%m-%dT%H:%M:%S") - datetime.datetime(1601, 1, 1)).total_seconds()) * 10**7
        if k == 14:
            if x is None: return None
            try: b = base64.b64decode(x, validate=True)
            except Exception: b = b""
            return b.decode("latin1") or None
        if k == 26: return int(x.rsplit("_", 1)[-1]) if x is not None else 0
        first = txt(x[0]) if d is not None and x else None
        if k == 18: return int(first) if first is not None and len(x) == 1 else 0
        if k == 13: return "g=" + first.lower() if first is not None and gen.parse_id("g=" + first) else "g=00000000-0000-0000-0000-000000000000"
        def tr(n): return n if n == 0 else L["vmap"][n - 1] if n <= len(L["vmap"]) else 65535
        if k == 16:
            p = gen.parse_id(first) if first is not None else None
            return NULLID if p is None else gen.fmt_id(tr(p[0]), p[1]).encode("latin1").decode("latin1")
        if k == 19:
            if d is None: return [0, None]
            n = txt(look("NamespaceIndex")); return [tr(int(n) if n is not None else 0), txt(look("Name"))]
        if k == 20: return [txt(look("Locale")), txt(look("Text"))] if d is not None else [None, None]
        if k == 27:
            o = {}
            for m in t.members:
                c = look(m.name)
                if m.arr: o[m.name] = [s.conv(y, m.t, L) for y in (c[2] if c is not None and c[1] == "C" else [])] if m.t.size else []
                else: o[m.name] = s.conv(c if m.t.size else None, m.t, L)
            return o
        if k == 29:
            if d is None or first is None: return {"#": 0}
            sw = int(first)
            if sw == 0: return {"#": 0}
            if sw > len(t.members) or len(x) < 2 or t.members[sw - 1].t.size == 0: return {"#": 0}
            m = t.members[sw - 1]; c = x[1]
            return {"#": sw, m.name: [s.conv(y, m.t, L) for y in (c[2] if c[1] == "C" else [])] if m.arr else s.conv(c, m.t, L)}
        return "kind%dzero" % k
def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try: a, b = float(a), float(b)
        except Exception: return False
        return a == b or abs(a - b) <= 1e-8 * max(abs(a), abs(b)) or (a != a and b != b)
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b
def ints(s): return [int(x) for x in s.split(",")] if s else []
DEFS = dict(al=0, ual=0, en=0, hist=0, abs=0, sym=0, ex=0, uex=0, cnl=0, dims=[], rank=0, dt=NULLID)
def attrs(e):
    """what the server must be told about the node"""
    o = dict(bns=e["bns"], bn=e["bn"], dnl=e["dnl"], dn=e["dn"], **{"del": e["del"], "de": e["de"]}); c = e["class"]; b = lambda v: int(v in ("true", "1"))
    if c in (0, 7): o["en"] = int(e["en"])
    if c in (1, 3, 6): o["abs"] = b(e["abs"])
    if c == 4: o["ex"], o["uex"] = b(e["ex"]), b(e["uex"])
    if c == 5: o["sym"] = b(e["sym"]); o["inl"] = e["inl"]; o["in"] = e["in"]
    if c == 7: o["cnl"] = b(e["cnl"])
    if c in (2, 6): o["dt"] = e["dt"]; o["rank"] = int(e["rank"])
    if c == 2:
        o.update(al=int(e["al"]), ual=int(e["ual"]), hist=b(e["hist"]), msi=float(e["msi"])); dm = ints(e["dims"])
        if not dm and o["rank"] == 1: dm = [0]
        elif not dm and isinstance(e["val"], dict) and e["val"]["arr"]: dm = [len(e["val"]["data"][2]) if e["val"]["data"][1] == "C" else 0]
        o["dims"] = dm
    if c == 6 and o["rank"] >= 0: o["dims"] = ints(e["dims"]) or [0]
    if c == 1 or c == 3 or c == 5: pass
    return o
def cmp_server(res, model, what):
    bad = []; B = lambda p, m: bad.append((set(p.split()), "%s: %s" % (what, m)))
    groups = []; cur = None; vals = []; calls = []; refs = []; slogs = []
    for x in res.recs:
        if x["r"] == "value": vals.append(x)
        elif x["r"] == "load": cur = dict(ok=bool(x["ok"]), vals=vals, calls=[], refs=[], slogs=[]); vals = []; groups.append(cur)
        elif x["r"] in ("call", "ref", "slog") and cur is not None: cur[x["r"] + "s"].append(x)
    if len(groups) != len(model.loads): B("P23", "%d load results" % len(groups)); return bad
    for gi, (g, L) in enumerate(zip(groups, model.loads)):
        W = "file %d: " % gi
        if g["ok"] != L["ok"]: B("P23 P10 P28", W + "load returned %s instead of %s" % (g["ok"], L["ok"])); return bad
        msgs = [(x["level"], x["msg"]) for x in g["slogs"]]
        if not L["ok"]:
            if g["calls"] or g["refs"]: B("P23 P22", W + "nodes added although the import failed")
            if not any(m == "importing the nodeset failed, nodes were not added" and l == 500 for l, m in msgs): B("P23 P26", W + "no error logged: %s" % msgs[-3:])
            continue
        exp = L["exp"]; nodes = exp["nodes"]; calls = g["calls"]; n = len(nodes)
        # ---- order and completeness of the calls (P22) ----
        first, rest = calls[:n], calls[n:]
        if sorted(c["id"] for c in first) != sorted(nodes): B("P22 P21 P12 P06 P07", W + "first pass offers %s instead of %s" % (sorted(c["id"] for c in first)[:9], sorted(nodes)[:9]))
        else:
            cl = [MASK.index(c["class"]) if c["class"] in MASK else -1 for c in first]
            if cl != [c for c in ORDER for _ in range(sum(e["class"] == c for e in nodes.values()))]: B("P21 P22 P12", W + "order of node classes %s" % [CLSN[c] for c in dict.fromkeys(cl)])
            rounds = L["rounds"]; pos = n; cand = [c["id"] for c in first if c["st"]]
            if sorted(cand) == sorted(L["bad"]):
                for k, r in enumerate(rounds):
                    got = [c["id"] for c in calls[pos:pos + len(r)]]
                    if got != cand[:] and sorted(got) != sorted(r): B("P22", W + "retry %d offers %s instead of the refused nodes %s" % (k + 1, got[:9], r[:9])); break
                    if got != cand: B("P22", W + "retry %d offers %s, not in the order %s" % (k + 1, got[:9], cand[:9])); break
                    cand = [c["id"] for c in calls[pos:pos + len(r)] if c["st"]]; pos += len(r)
                else:
                    if pos != len(calls): B("P22", W + "%d calls after the last retry" % (len(calls) - pos))
        # ---- node attributes (P21, P19) ----
        for c in calls:
            e = nodes.get(c["id"])
            if e is None: B("P21 P22 P06 P07", W + "unknown node %s offered" % c["id"]); continue
            if c["class"] != MASK[e["class"]]: B("P21 P12", W + "node %s offered as class %d" % (c["id"], c["class"])); continue
            o = attrs(e)
            for k, v in o.items():
                gv = c.get(k)
                if k == "dims" and len(v) > 64: v = v[:64]
                if not (same(float(gv), v) if k == "msi" else gv == v):
                    B("P19 P21" if k == "dims" else "P21 P06 P07 P08" if k == "dt" else "P21 P06 P07" if k in ("bns", "bn") else "P21", W + "%s of %s offered as %r instead of %r" % (k, c["id"], gv, v))
            inv = [x for x in e["hier"] if not x[2]]
            if not e.get("_late"): inv = inv[-1:]  # references are kept in front of the earlier ones
            par = e.get("parent") if e["class"] in gen.INST else None
            if par in (None, NULLID): ok = c["parent"] in ([x[1] for x in inv] or [NULLID])
            else: ok = c["parent"] == par
            if not ok: B("P21 P06 P07", W + "parent of %s is %s, file: %s %s" % (c["id"], c["parent"], par, inv[:4]))
            if c["rt"] not in ([x[0] for x in inv] or [NULLID]): B("P21", W + "reference to the parent of %s is %s, file: %s" % (c["id"], c["rt"], inv[:4]))
            elif par in (None, NULLID) and inv and (c["rt"], c["parent"]) not in [(x[0], x[1]) for x in inv]: B("P21", W + "parent and reference type of %s do not belong together: %s %s" % (c["id"], c["rt"], c["parent"]))
            td = [x[1] for x in e["td"]][-1:] if e["class"] in (0, 2) else []
            if c["td"] not in (td or [NULLID]): B("P21 P06 P07", W + "type definition of %s is %s instead of %s" % (c["id"], c["td"], td))
        # ---- references (P22, P25) ----
        a = sorted((x["src"], x["type"], x["dst"], x["fwd"]) for x in g["refs"]); b = sorted(tuple(x) for x in L["refs"])
        if a != b:
            d1 = [x for x in a if x not in b][:4]; d2 = [x for x in b if x not in a][:4]
            p = "P22 P06 P07" + (" P25" if any(x[1] == "i=38" for x in d1 + d2) else "")
            B(p, W + "references offered: additional %s, missing %s, %d instead of %d" % (d1, d2, len(a), len(b)))
        # ---- values (P17, P20) ----
        got = {}
        for x in g["vals"]: got.setdefault(x["id"], []).append(x)
        for id, e in nodes.items():
            if e["class"] != 2 or e.get("val") == "skip": continue
            tv = e["tval"]; gs = got.get(id, [])
            if tv is None:
                if gs: B("P17", W + "variable %s has a value: %s" % (id, str(gs[0])[:200]))
                continue
            if not gs: B("P17", W + "variable %s has no value instead of %s" % (id, json.dumps(tv["v"])[:200])); continue
            for x in gs:
                t = tv["t"]
                if x["len"] != tv["len"] or x["tid"] != t.id or not same(x["v"], tv["v"]):
                    B("P17" + (" P20" if "ns=" in json.dumps([x["v"], tv["v"]]) or re.search(r"\[\d+, ", json.dumps(tv["v"])) else "") + (" P13" if 0 else ""), W + "value of %s is %s (%s, %d elements) instead of %s (%s, %d)" % (id, json.dumps(x["v"])[:300], x["tid"], x["len"], json.dumps(tv["v"])[:300], t.id, tv["len"]))
        # ---- messages (P26) ----
        want = [(200, "imported %ss: %d" % (CLSN[c], L["perclass"][c][0] - L["perclass"][c][1])) for c in ORDER]
        if L["bad"]:
            want.append((400, "Couldn't import: %d. Let's try adding non-imported nodes a few more times." % len(L["bad"]))); tot = 0; rr = L["rounds"] + [None]
            for k, r in enumerate(L["rounds"]):
                left = L["rounds"][k + 1] if k + 1 < len(L["rounds"]) else L.get("left", None)
                ok = len(r) - len(left) if left is not None else None
                want.append((200, "attempt (%d), imported nodes: %s" % (k + 1, ok))); tot += ok or 0
            want.append((400, "imported after attempts: %d" % tot))
        g2 = [m for m in msgs if not m[1].startswith("Start import")]
        if not L["bad"] and g2 != want: B("P26", W + "messages %s instead of %s" % ([m for m in g2 if m not in want][:3], [m for m in want if m not in g2][:3]))
        if L["bad"] and [m for m in g2 if "attempt" not in m[1]] != [m for m in want if "attempt" not in m[1]]: B("P26", W + "messages %s instead of %s" % ([m for m in g2 if m not in want][:3], [m for m in want if m not in g2][:3]))
        if not any(m[0] == 200 and m[1].startswith("Start import nodeset: ") for m in msgs): B("P26", W + "no start message")
    # ---- types (P16, P25, P27) ----
    ty = R(res, "type")
    if sorted(x["id"] for x in ty) != sorted(t.id for t in model.types): B("P27", "types %s instead of %s" % ([x["id"] for x in ty][:8], [t.id for t in model.types][:8]))
    else:
        gt = {}
        for x in ty: gt.setdefault(x["id"], x)
        for t in model.types:
            x = gt[t.id]; first = model.custom(t.id) is t
            if not first: continue
            if x["name"] != t.name: B("P27", "type %s is called %s instead of %s" % (t.id, x["name"], t.name))
            if not x["found"]: B("P27", "type %s is not found" % t.id)
            if x["kind"] != t.kind: B("P27 P16", "type %s has kind %d instead of %d" % (t.id, x["kind"], t.kind))
            encs = getattr(t, "encs", set())
            if (x["enc"] not in encs) if encs else x["enc"] != NULLID: B("P25 P27", "encoding of %s is %s instead of %s" % (t.id, x["enc"], encs))
            lay = t.size > 0
            gm = [(m[0], m[2], m[3]) for m in x["members"]]; wm = [(m.name, int(m.arr), int(m.opt)) for m in t.members]
            if gm != wm: B("P16 P27", "members of %s are %s instead of %s" % (t.id, gm[:8], wm[:8])); continue
            mt = [(m[4]) for m in x["members"]]; wt = [m.t.id if m.t else None for m in t.members]
            if mt != wt: B("P16 P27", "member types of %s are %s instead of %s" % (t.id, mt[:8], wt[:8])); continue
            if x["size"] != t.size: B("P16", "size of %s is %d instead of %d (%s)" % (t.id, x["size"], t.size, [(m.name, m.t.id if m.t else None, m.arr, m.opt) for m in t.members][:10]))
            if lay and [m[1] for m in x["members"]] != [m.pad for m in t.members]: B("P16", "paddings of %s are %s instead of %s" % (t.id, [m[1] for m in x["members"]][:12], [m.pad for m in t.members][:12]))
            if lay and bool(x["pf"]) != bool(t.pf): B("P16", "pointer free of %s is %d" % (t.id, x["pf"]))
    uris = [x["uri"] for x in R(res, "sns")]
    if uris != [L1(u) for u in model.uris]: B("P07 P20", "namespaces of the server %s instead of %s" % (uris[:9], model.uris[:9]))
    for l in R(res, "leak"):
        if l["n"]: B("P24", "%d blocks not released (or released twice)" % l["n"])
    return bad
def srv_case(fam, name, docs, refuse=(), graph=(), pre=0, seed=0, fancy=False, files=None, only=None):
    """refuse: [(id as the server knows it, times)]"""
    args = ["server"]
    if pre: args += ["--ns", str(pre)]
    if graph: args += ["--graph", ",".join("%s>%s" % g for g in graph)]
    for i, n in refuse: args += ["--refuse", "%s@%d" % (i, n)]
    fs = {"f%d.xml" % i: to_xml(d, seed + i, fancy) for i, d in enumerate(docs)}
    args += ["$D/f%d.xml" % i for i in range(len(docs))]
    def check(res):
        m = Model(pre, graph); rf = {}
        for i, n in refuse: rf.setdefault(i, n)
        for d in docs: m.load(d, rf)
        b = cmp_server(res, m, name)
        return [(p, x) for p, x in b if only is None or p & only]
    return Case(fam, name, args, fs, check)
# ---------------- building blocks ----------------
def DT(id, bn, sup, fields=None, **k):
    d = None if fields is None else dict(fields=[dict(Name=n, DataType=t, **x) for n, t, x in fields]); 
    if d is not None and k.get("union"): d["IsUnion"] = "true"
    if d is not None and k.get("os"): d["IsOptionSet"] = "true"
    return N(3, id, bn, {"IsAbstract": "true"} if k.get("abs") else {}, refs=[("i=45", sup, "false")] + list(k.get("refs", ())), defn=d)
def VAR(id, val, dt, attrs=None, refs=(), bn="v"): return N(2, id, bn, dict({"DataType": dt}, **(attrs or {})), refs=[("i=47", "i=85", "false"), ("i=40", "i=63", None)] + list(refs), val=val)
INTR = {2: (-128, 127), 3: (0, 255), 4: (-32768, 32767), 5: (0, 65535), 6: (-2**31, 2**31 - 1), 7: (0, 2**32 - 1), 8: (-2**63, 2**63 - 1), 9: (0, 2**64 - 1)}
def rbuiltin(r, n, bad=0.0):
    """body of an element of builtin type i=n"""
    if r.random() < bad: return r.choice(["", None, [("Foo", "1")], [], "x" if n == 12 else None])
    if n == 1: return r.choice(["true", "false", "true", "TRUE", "0", "1"])
    if n in INTR:
        lo, hi = INTR[n]; return str(r.choice([lo, hi, 0, 1, lo + 1, hi - 1, (lo + hi) // 2, (lo + hi) // 2 + 1, r.randint(lo, hi)]))
    if n in (10, 11): return r.choice(["0", "1.5", "-2.25", "1e10", "3.4028234e38" if n == 10 else "1.7976931348623157e308", "-1.17549435e-38", "0.1", "123456.789", str(r.randint(-10**6, 10**6)), "%.17g" % r.uniform(-1e6, 1e6)])
    if n in (12, 16): return r.choice(["a", "hello world", "ünï€", "x" * 300, "a & b", "<t>", "tab\tnl\nq", "\ufeffbom", "1_2"])
    if n == 13: return "%04d-%02d-%02dT%02d:%02d:%02dZ" % (r.choice([1601, 1970, 2000, 2024, 2038, 9999, 1900, r.randint(1601, 9999)]), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
    if n == 14: return [("String", "%08x-%04x-%04x-%04x-%012X" % (r.getrandbits(32), r.getrandbits(16), r.getrandbits(16), r.getrandbits(16), r.getrandbits(48)))]
    if n == 15: return base64.b64encode(bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 4, 5, 60, 61])))).decode()
    if n == 17: return [("Identifier", r.choice(["i=85", "ns=1;i=%d" % r.randint(1, 10**9), "ns=2;s=A b;c=d", "ns=1;g=01234567-89ab-cdef-0123-456789abcdef", "ns=1;b=QUJD", "ns=9;i=5", "s=zero", "i=4294967295", "nonsense", "ns=3;i=1"]))]
    if n == 19: return [("Code", str(r.choice([0, 2**31, 2**32 - 1, 0x80340000, r.getrandbits(32)])))]
    if n == 20: b = [("NamespaceIndex", str(r.choice([0, 1, 2, 3, 4, 9, 65535])))] * r.choice([0, 1, 1, 1]) + [("Name", r.choice(["q", "name:x", "ü"]))] * r.choice([0, 1, 1, 1]); r.shuffle(b); return b
    if n == 21: b = [("Locale", r.choice(["en", "de-DE"]))] * r.choice([0, 1, 1]) + [("Text", r.choice(["text", "ä b"]))] * r.choice([0, 1, 1]); r.shuffle(b); return b
    return r.choice([[("Value", "1")], "text", [("Body", [("X", "1")])]])
SCAL = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 19, 20, 21]
class TM:
    """custom types of a random document and bodies for them"""
    def __init__(s, r, uris, n, simple=False):
        s.r = r; s.t = {}; s.docs = []; s.ids = []
        for i in range(n):
            id = r.choice(["ns=1;i=%d" % (3000 + i), "ns=1;s=Type %d" % i]); k = r.random()
            if k < .1: s.t[id] = ("enum", []); s.docs.append(DT(id, "1:E%d" % i, "i=29", [("A", "i=6", {"Value": "0"}), ("B", "i=6", {"Value": "7"})]))
            elif k < .16: b = r.choice([12, 6, 26, 27]); s.t[id] = ("alias", b if b < 26 else 24); s.docs.append(DT(id, "1:A%d" % i, "i=%d" % b, None))
            else:
                union = k < .32; par = None
                if not union and r.random() < .3:
                    c = [x for x in s.ids if s.t[x][0] == "struct"]; par = r.choice(c) if c else None
                fs = []; ms = []
                for j in range(r.choice([1, 1, 2, 3, 4, 6]) if union or not par else r.choice([0, 0, 1, 2, 3])):
                    ft = r.choice(s.ids) if s.ids and r.random() < .35 else "i=%d" % r.choice(SCAL + [16, 18, 22, 23, 24, 25]) if r.random() < .95 else r.choice(["i=12755", "i=7594", "ns=1;i=99999" if 0 else "i=26"])
                    x = {}
                    if r.random() < .3: x["ValueRank"] = r.choice(["1", "0", "2", "1", "-1", "-2"])
                    if r.random() < .08 and not union: x["IsOptional"] = "true"
                    nm = r.choice(["m%d" % j, "Field %d" % j, "f%d" % j]) if r.random() < .9 else "m%d" % j
                    nm = nm.replace(" ", ""); fs.append((nm + ("x" if par else "") + str(i) if par else nm, ft, x)); ms.append((fs[-1][0], ft, int(x.get("ValueRank", "-1")) >= 0, "IsOptional" in x))
                nodef = par is not None and not fs and r.random() < .5
                if par: ms = s.t[par][1] + ms
                s.t[id] = ("union" if union else "struct", ms)
                s.docs.append(DT(id, "1:S%d" % i, par or ("i=22"), None if nodef else fs, union=union))
            s.ids.append(id)
    def body(s, t, depth=0):
        r = s.r
        if t.startswith("i="): n = int(t[2:]); return rbuiltin(r, n if n in SZ else 24, .06)
        k, ms = s.t[t]
        if k == "enum": return r.choice(["0", "A_0", "B_7", "7", "Long_Name_12", None])
        if k == "alias": return rbuiltin(r, ms)
        if depth > 4: return []
        if r.random() < .03: return r.choice(["text", None])
        if k == "union":
            sw = r.randint(0, len(ms)) if r.random() < .95 else len(ms) + 1
            if sw == 0 or sw > len(ms): return [("SwitchField", str(sw))] + ([("x", "1")] if r.random() < .5 else [])
            m = ms[sw - 1]; return [("SwitchField", str(sw)), (m[0], s.field(m, depth))]
        o = [(m[0], s.field(m, depth)) for m in ms if r.random() < .85]
        if r.random() < .3: r.shuffle(o)
        if r.random() < .1: o.append(("Unknown", "5"))
        return o
    def field(s, m, depth):
        if m[2]: return [("E", s.body(m[1], depth + 1)) for _ in range(s.r.choice([0, 1, 2, 3, 7]))]
        return s.body(m[1], depth + 1)
def fam_svalues(r, k):
    uris = ["urn:a", "urn:b", "urn:a", "urn:c"]
    # every builtin kind, scalar and array, boundary numbers
    for rep in range(3):
        vs = []; i = 0
        for n in SCAL + [16, 18, 22, 23, 24, 25]:
            for q in range(5):
                i += 1; b = rbuiltin(r, n, .1); v = ("scalar", NAMES[n] if n != 22 else "Other", b)
                vs.append(VAR("ns=1;i=%d" % i, v, "i=%d" % n))
            for c in (0, 1, 2, 5):
                i += 1; vs.append(VAR("ns=2;i=%d" % i, ("list", "ListOf" + NAMES[n], [(NAMES[n] if n != 22 else "Other", rbuiltin(r, n, .05)) for _ in range(c)]), "i=%d" % n, {"ValueRank": "1"}))
        yield srv_case("svalues", "built-in kinds %d" % rep, [Doc(uris[: rep + 2], [], vs)], pre=rep * 3)
    ex = []
    for n, (lo, hi) in INTR.items():
        for x in (lo, lo + 1, hi, hi - 1, 0, 1, hi // 2, hi // 2 + 1): ex.append((n, str(x)))
    yield srv_case("svalues", "boundary numbers", [Doc(["urn:a"], [], [VAR("ns=1;i=%d" % (i + 1), ("scalar", NAMES[n], x), "i=%d" % n) for i, (n, x) in enumerate(ex)])])
    # types without layout, inherited layout, large arrays
    A = [DT("ns=1;i=1", "1:Rec", "i=22", [("r", "ns=1;i=1", {}), ("a", "i=6", {})]), DT("ns=1;i=2", "1:Unk", "i=22", [("u", "ns=1;i=999", {})]), DT("ns=1;i=3", "1:Has", "i=22", [("x", "ns=1;i=1", {"ValueRank": "1"}), ("y", "i=12", {}), ("z", "ns=1;i=2", {"IsOptional": "true"})]),
         DT("ns=1;i=4", "1:Base", "i=22", [("A", "i=11", {}), ("B", "i=12", {}), ("C", "i=1", {})]), DT("ns=1;i=5", "1:Sub", "ns=1;i=4"), DT("ns=1;i=6", "1:Opt", "i=22", [("A", "i=12", {"IsOptional": "true"})]), DT("ns=1;i=7", "1:SubOpt", "ns=1;i=6"), DT("ns=1;i=8", "1:SubSub", "ns=1;i=5", [("D", "i=3", {})]),
         DT("ns=1;i=9", "1:OS", "i=12755", [("D", "i=3", {})]), DT("ns=1;i=10", "1:NoDef", "i=22")]
    bodyA = [("A", "1.5"), ("B", "hello"), ("C", "true")]
    V = [VAR("ns=1;i=101", ("loeo", "ListOfExtensionObject", [("ns=1;i=11", ("Rec", [("a", "5")]))] * 3), "ns=1;i=1"), VAR("ns=1;i=102", ("eo", "ns=1;i=11", ("Unk", [("u", "5")])), "ns=1;i=2"), VAR("ns=1;i=103", ("list", "ListOfUnk", [("Unk", "5")] * 4), "ns=1;i=77"),
         VAR("ns=1;i=104", ("eo", "ns=1;i=11", ("Sub", bodyA)), "ns=1;i=5"), VAR("ns=1;i=105", ("eo", "ns=1;i=11", ("SubOpt", [("A", "hello hello")])), "ns=1;i=7"), VAR("ns=1;i=106", ("loeo", "ListOfExtensionObject", [("ns=1;i=11", ("SubSub", bodyA + [("D", "255")])) for _ in range(3)]), "ns=1;i=8"),
         VAR("ns=1;i=107", ("eo", "ns=1;i=11", ("OS", [("Value", "QQ=="), ("ValidBits", "QQ==")])), "ns=1;i=9"), VAR("ns=1;i=108", ("eo", "ns=1;i=11", ("NoDef", [("Value", "QQ==")])), "ns=1;i=10")]
    yield srv_case("svalues", "types without layout and inherited layouts", [Doc(["urn:a"], [], A + V)])
    yield srv_case("svalues", "longer arrays", [Doc(["urn:a"], [], [VAR("ns=1;i=1", ("list", "ListOfInt32", [("Int32", str(q * 7919 - 5000)) for q in range(2000)]), "i=6"), VAR("ns=1;i=2", ("list", "ListOfString", [("String", "s%d" % q) for q in range(500)]), "i=12"), VAR("ns=1;i=3", ("list", "ListOfByteString", [("ByteString", base64.b64encode(b"x%d" % q).decode()) for q in range(50)]), "i=15"), VAR("ns=1;i=4", ("list", "ListOfGuid", [("Guid", rbuiltin(r, 14)) for q in range(50)]), "i=14")])])
    for i in range(max(4, k // 2)):
        q = random.Random(r.randint(0, 10**9)); tm = TM(q, uris, q.randint(2, 10)); nodes = list(tm.docs)
        for j in range(12):
            t = q.choice(tm.ids); kind = tm.t[t][0]; x = q.random()
            if kind in ("struct", "union"): v = ("eo", "ns=1;i=5000", ("Val", tm.body(t))) if x < .6 else ("loeo", "ListOfExtensionObject", [("ns=1;i=5000", ("Val", tm.body(t))) for _ in range(q.randint(1, 5))])
            else: v = ("scalar", "Val", tm.body(t)) if x < .6 else ("list", "ListOfVal", [("Val", tm.body(t)) for _ in range(q.randint(1, 5))])
            if v[0] == "eo" and not isinstance(v[2][1], list): continue
            if v[0] == "loeo" and not all(isinstance(c[1][1], list) for c in v[2]): continue
            nodes.append(VAR("ns=1;i=%d" % (9000 + j), v, t))
        q.shuffle(nodes) if q.random() < .5 else None
        yield srv_case("svalues", "random types and values %d" % i, [Doc(uris[:q.randint(1, 4)], [], nodes)], pre=q.choice([0, 0, 5]))
    # types of an earlier file
    yield srv_case("svalues", "types of an earlier file", [Doc(["urn:a"], [], A), Doc(["urn:z", "urn:a"], [], [VAR("ns=1;i=%d" % (200 + j), v["val"], v["attrs"]["DataType"].replace("ns=1;", "ns=2;")) for j, v in enumerate(V)] + [DT("ns=1;i=60", "1:Far", "ns=2;i=4", [("E", "ns=2;i=8", {})]), VAR("ns=1;i=61", ("eo", "ns=1;i=62", ("Far", bodyA + [("E", bodyA + [("D", "7")])])), "ns=1;i=60")])])
def fam_layout(r, k):
    prim = SCAL + [16, 18, 22, 23, 24, 25]
    nodes = []; i = 0
    for n in prim:   # behind one byte, before one byte, array, optional, in a union
        for fs, un in (([("a", "i=3", {}), ("b", "i=%d" % n, {})], 0), ([("a", "i=%d" % n, {}), ("b", "i=3", {}), ("c", "i=%d" % n, {})], 0), ([("a", "i=3", {}), ("b", "i=%d" % n, {"ValueRank": "1"}), ("c", "i=1", {})], 0), ([("a", "i=3", {}), ("b", "i=%d" % n, {"IsOptional": "true"}), ("c", "i=1", {})], 0), ([("a", "i=3", {}), ("b", "i=%d" % n, {})], 1), ([("b", "i=%d" % n, {"ValueRank": "1"}), ("a", "i=4", {})], 1)):
            i += 1; nodes.append(DT("ns=1;i=%d" % i, "1:T%d" % i, "i=22", fs, union=un))
    yield srv_case("layout", "every kind at every place", [Doc(["urn:a"], [], nodes)])
    many = [DT("ns=1;i=%d" % c, "1:M%d" % c, "i=22", [("m%d" % j, "i=3", {}) for j in range(c)]) for c in (1, 2, 63, 64, 65, 100, 128, 200, 254, 255)]
    yield srv_case("layout", "numbers of members", [Doc(["urn:a"], [], many + [DT("ns=1;i=%d" % (1000 + b * 10 + j), "1:D", "ns=1;i=%d" % b, [("d%d" % q, "i=6", {}) for q in range(j)]) for b in (100, 200, 254) for j in (1, 2, 100) if (b, j) != (0, 0)][:9])])
    big = [DT("ns=1;i=1", "1:B1", "i=22", [("m%d" % j, "i=22", {}) for j in range(200)])] + [DT("ns=1;i=%d" % n, "1:B%d" % n, "i=22", [("m%d" % j, "ns=1;i=1", {}) for j in range(n)]) for n in (6, 7)] + [DT("ns=1;i=8", "1:Q", "i=22", [("a", "ns=1;i=7", {}), ("b", "i=6", {})]), DT("ns=1;i=9", "1:Q2", "i=22", [("a", "ns=1;i=7", {"ValueRank": "1"}), ("b", "ns=1;i=7", {"IsOptional": "true"})])]
    yield srv_case("layout", "large structures", [Doc(["urn:a"], [], big + [VAR("ns=1;i=50", ("eo", "ns=1;i=5", ("B7", [("m3", [("m1", "5")])])), "ns=1;i=7"), VAR("ns=1;i=51", ("eo", "ns=1;i=5", ("Q", [("b", "5")])), "ns=1;i=8")])])
    ch = [DT("ns=1;i=%d" % n, "1:C%d" % n, "i=22", [("n", "ns=1;i=%d" % (n + 1), {}), ("x", "i=%d" % (3 + n % 9), {})]) for n in range(1, 20)] + [DT("ns=1;i=20", "1:C20", "i=22", [("x", "i=1", {})])]
    yield srv_case("layout", "nested forward", [Doc(["urn:a"], [], ch)]); yield srv_case("layout", "nested backward", [Doc(["urn:a"], [], ch[::-1])])
    ab = [DT("ns=1;i=1", "1:Abs", "i=22", [("x", "i=1", {})], abs=1), DT("ns=1;i=2", "1:Use", "i=22", [("p", "i=3", {}), ("y", "ns=1;i=1", {}), ("z", "ns=1;i=1", {"ValueRank": "1"})]), DT("ns=1;i=3", "1:Der", "ns=1;i=1", [("q", "i=11", {})]), DT("ns=1;i=4", "1:Enum", "i=29", [("A", "i=6", {"Value": "1"})]), DT("ns=1;i=5", "1:UseE", "i=22", [("c", "i=1", {}), ("e", "ns=1;i=4", {}), ("d", "i=1", {})]), DT("ns=1;i=6", "1:Str", "i=12"), DT("ns=1;i=7", "1:SS", "ns=1;i=6"), DT("ns=1;i=8", "1:UseS", "i=22", [("c", "i=1", {}), ("e", "ns=1;i=7", {})]), DT("ns=1;i=9", "1:U", "i=22", [("a", "i=1", {}), ("b", "ns=1;i=2", {})], union=1), DT("ns=1;i=10", "1:UU", "i=22", [("c", "i=1", {}), ("u", "ns=1;i=9", {}), ("d", "i=1", {})]), DT("ns=1;i=11", "1:Empty", "i=22", []), DT("ns=1;i=12", "1:UE", "i=22", [("x", "ns=1;i=11", {}), ("y", "i=3", {})])]
    yield srv_case("layout", "abstract, enumerations, aliases, nested unions", [Doc(["urn:a"], [], ab)])
    yield srv_case("layout", "the same over two files", [Doc(["urn:a"], [], ab[:8]), Doc(["urn:b", "urn:a"], [], [DT("ns=1;i=1", "1:N", "ns=2;i=3", [("w", "ns=2;i=2", {}), ("v", "ns=2;i=7", {"ValueRank": "1"}), ("k", "ns=1;i=2", {})]), DT("ns=1;i=2", "1:K", "i=22", [("b", "i=3", {}), ("d", "i=11", {})])])])
    for i in range(max(6, k)):
        q = random.Random(r.randint(0, 10**9)); tm = TM(q, [], q.randint(3, 14)); nodes = list(tm.docs)
        if q.random() < .5: q.shuffle(nodes)
        yield srv_case("layout", "random types %d" % i, [Doc(["urn:a"], [], nodes)])
def fam_dims(r, k):
    ds = ["", "0", "1", "5", "1,2", "3,4,5", "0,0", "10,20,30,40", "1,2,3,4,5,6,7,8,9,10", "2147483647", "2147483647,1", "100000,99999,7", ",".join("%d" % (q * 37) for q in range(1, 60)), "0,5", "7,0", "1,22,333,4444,55555,666666"]
    nodes = []; i = 0
    for d in ds + [",".join(str(r.choice([0, 1, 9, 10, 99, 2**31 - 1, r.randint(0, 10**6)])) for _ in range(r.randint(1, 30))) for _ in range(max(6, k // 2))]:
        for rank in (None, "-3", "-2", "-1", "0", "1", "2", "5"):
            i += 1; a = {"ArrayDimensions": d} if d or i % 2 else {}
            if rank: a["ValueRank"] = rank
            v = [None, ("list", "ListOfInt32", [("Int32", "1")] * (i % 4)), ("scalar", "Int32", "4")][i % 3]
            nodes.append(VAR("ns=1;i=%d" % i, v, "i=6", a)); nodes.append(N(6, "ns=1;i=%d" % (100000 + i), "t", a, refs=[("i=45", "i=62", "false")]))
    yield srv_case("dims", "dimensions, ranks and values", [Doc(["urn:a"], [], nodes)])
    yield srv_case("dims", "array lengths", [Doc(["urn:a"], [], [VAR("ns=1;i=%d" % (n + 1), ("list", "ListOfByte", [("Byte", "1")] * n), "i=3", {} if n % 2 else {"ValueRank": "2"}) for n in list(range(0, 20)) + [255, 256, 300]])])
def fam_snodes(r, k):
    def full(c, i, on):
        a = {0: {"EventNotifier": str(on % 256)}, 1: {"IsAbstract": "true" if on % 2 else "false"}, 2: {"ValueRank": str(on % 5 - 3), "AccessLevel": str(on % 256), "UserAccessLevel": str((on * 7) % 256), "Historizing": "true" if on % 2 else "false", "MinimumSamplingInterval": ["0", "100", "-1", "0.5", "1e3"][on % 5], "DataType": "i=%d" % (on % 25 + 1)},
             3: {"IsAbstract": "true" if on % 2 else "false"}, 4: {"Executable": ["true", "false", "1", "0"][on % 4], "UserExecutable": ["true", "false"][on // 2 % 2]}, 5: {"Symmetric": ["1", "false", "true", "0"][on % 4]}, 6: {"IsAbstract": ["1", "false"][on % 2], "ValueRank": str(on % 5 - 3), "DataType": "i=%d" % (on % 25 + 1)}, 7: {"ContainsNoLoops": ["true", "false", "1"][on % 3], "EventNotifier": str(on * 3 % 256)}}[c]
        if on % 3 == 0: a = {}
        if c in gen.INST and on % 4 == 1: a["ParentNodeId"] = ["i=84", "ns=1;s=par ent", "ns=2;i=77"][on % 3]
        refs = []
        if c in (0, 2) and on % 5: refs.append(("i=40", ["i=58", "i=63", "ns=1;i=4"][on % 3], None))
        inv = {0: [("i=35", "i=85", "false")], 1: [("i=45", "i=58", "false")], 2: [("i=47", "i=85", "false")], 3: [("i=45", "i=24", "false")], 4: [("i=47", "i=85", "false")], 5: [("i=45", "i=32", "false")], 6: [("i=45", "i=62", "false")], 7: [("i=35", "i=87", "false")]}[c]
        if on % 7 != 2: refs += inv
        if on % 4 == 0: refs.append(("i=47", "ns=1;i=%d" % (50000 + i), None))
        if on % 6 == 1: refs.append(("i=46", "ns=1;i=%d" % (60000 + i), "false"))
        if on % 5 == 0: refs.append(("i=41", "ns=2;s=ev", r.choice([None, "false"])))
        r.shuffle(refs)
        return N(c, r.choice(["ns=1;i=%d", "ns=2;s=node %d", "ns=1;i=%d"]) % (1000 + i), r.choice(["1:b%d", "b%d", "2:b:%d", "0:x%d"]) % i, a, dn=(r.choice([None, "en", "de"]), r.choice([None, "dn %d" % i, "ü"])) if on % 4 else None, de=("en", "desc %d" % i) if on % 3 else None, inv=("en", "inv%d" % i) if c == 5 and on % 2 else None, refs=refs)
    for rep in range(max(3, k // 6)):
        ns = [full(c, 100 * c + o, o + rep * 3) for c in range(8) for o in range(14)]; r.shuffle(ns)
        yield srv_case("snodes", "every class and attribute %d" % rep, [Doc(["urn:a", "urn:b"], [], ns)], pre=rep % 3)
    yield srv_case("snodes", "instances with and without parents", [Doc(["urn:a"], [], [N(c, "ns=1;i=%d" % (10 * c + j), "1:n", {"ParentNodeId": "i=85"} if j & 1 else {}, refs=([("i=47", "i=86", "false")] if j & 2 else []) + ([("i=46", "ns=1;i=999", None)] if j & 4 else [])) for c in (0, 2, 4, 7) for j in range(8)])])
    yield srv_case("snodes", "all byte values", [Doc(["urn:a"], [], [N(0, "ns=1;i=%d" % (b + 1), "n", {"EventNotifier": str(b)}, refs=[("i=35", "i=85", "false")]) for b in range(256)] + [VAR("ns=1;i=%d" % (b + 1001), None, "i=6", {"AccessLevel": str(b), "UserAccessLevel": str(255 - b)}) for b in range(256)])])
def tree_doc(r, n):
    ns = []
    for i in range(n):
        c = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7]); sup = {1: "i=58", 3: "i=24", 5: "i=32", 6: "i=62"}.get(c)
        if sup: refs = [("i=45", sup, "false")]
        else: refs = [("i=47", "ns=1;i=%d" % (i - 1) if i and r.random() < .6 else "i=85", "false")]
        ns.append(N(c, "ns=1;i=%d" % i if i else "ns=1;i=5000", "1:n%d" % i, refs=refs + ([("i=41", "ns=1;i=%d" % r.randint(1, n), None)] if r.random() < .4 else [])))
    return Doc(["urn:a"], [], ns)
def fam_retry(r, k):
    yield srv_case("retry", "nothing refused", [tree_doc(r, 25)]); yield srv_case("retry", "empty document", [Doc(["urn:a"], [], [])])
    for i in range(max(6, k)):
        q = random.Random(r.randint(0, 10**9)); n = q.randint(2, 40); d = tree_doc(q, n)
        ref = [("ns=2;i=%d" % j, q.choice([1, 1, 2, 3, 5, 8, 9, 10, 11, -1])) for j in range(1, n) if q.random() < q.choice([.1, .5, 1])]
        yield srv_case("retry", "random refusals %d" % i, [d], refuse=ref)
    d = Doc(["urn:a"], [], [N(c, "ns=1;i=%d" % (c + 1), "n", refs=[("i=47" if c not in (1, 3, 5, 6) else "i=45", "i=85", "false")]) for c in range(8)])
    for t in (1, 2, 8, 9, 10, 11, -1): yield srv_case("retry", "every class refused %d times" % t, [d], refuse=[("ns=2;i=%d" % (c + 1), t) for c in range(8)])
    for c in range(8): yield srv_case("retry", "class %s refused forever" % CLSN[c], [d], refuse=[("ns=2;i=%d" % (c + 1), -1)])
    d = Doc(["urn:a"], [], [N(0, "ns=1;i=%d" % (j + 1), "n", refs=[("i=47", "i=85", "false")]) for j in range(150)])
    yield srv_case("retry", "150 refused nodes", [d], refuse=[("ns=2;i=%d" % (j + 1), 1 + j % 3) for j in range(150)])
    yield srv_case("retry", "two files", [d, Doc(["urn:a"], [], [N(2, "ns=1;i=%d" % (j + 1000), "n", refs=[("i=47", "ns=1;i=%d" % (j + 1), "false")]) for j in range(20)])], refuse=[("ns=2;i=3", 2), ("ns=2;i=1003", 4)])
def fam_stypes(r, k):
    enc = lambda i, t, bn="Default Binary", fw="false", ty="i=38": N(0, "ns=1;i=%d" % i, bn, refs=[(ty, t, fw)])
    base = [DT("ns=1;i=1", "1:A", "i=22", [("x", "i=1", {})]), enc(11, "ns=1;i=1"), DT("ns=1;i=2", "1:B", "ns=1;i=1", [("y", "i=6", {})]), enc(12, "ns=1;i=2"), enc(13, "ns=1;i=2", "Default XML"), DT("ns=1;i=3", "1:C", "i=22", [], refs=[("i=38", "ns=1;i=14", None)]), DT("ns=1;i=4", "1:E", "i=29", [("A", "i=6", {"Value": "1"})]), enc(15, "ns=1;i=4"), DT("ns=1;s=str", "1:S", "i=22", [("s", "i=12", {})]), N(0, "ns=1;s=enc str", "Default Binary", refs=[("i=38", "ns=1;s=str", "false")]), DT("ns=1;i=5", "1:U", "i=22", [("a", "i=1", {}), ("b", "ns=1;s=str", {})], union=1), enc(16, "ns=1;i=5"), DT("ns=1;i=6", "1:OS", "i=12755", [("a", "i=1", {})]), enc(17, "ns=1;i=6"), DT("ns=1;i=20", "1:Two", "i=22", [("a", "i=1", {})], refs=[("i=38", "ns=1;i=21", None)]), enc(22, "ns=1;i=20"), DT("ns=1;i=7", "1:Num", "i=26"), DT("ns=1;i=8", "1:Int", "i=27"), DT("ns=1;i=9", "1:I2", "ns=1;i=8"), DT("ns=1;i=10", "plain", "i=12")]
    yield srv_case("stypes", "encodings and kinds", [Doc(["urn:a"], [], base)]); yield srv_case("stypes", "encodings first", [Doc(["urn:a"], [], base[::-1])])
    yield srv_case("stypes", "two files", [Doc(["urn:a"], [], base), Doc(["urn:b", "urn:a"], [], [DT("ns=1;i=1", "1:A2", "ns=2;i=2", [("z", "ns=2;s=str", {})]), enc(11, "ns=1;i=1"), DT("ns=1;i=2", "1:E2", "ns=2;i=4"), DT("ns=1;i=3", "1:I3", "ns=2;i=9"), DT("ns=1;s=str", "1:S2", "ns=2;s=str", [("t", "i=12", {"ValueRank": "1"})])])])
    yield srv_case("stypes", "subtypes through the server", [Doc(["urn:a"], [], [DT("ns=1;i=1", "1:A", "i=7000", [("x", "i=1", {})]), DT("ns=1;i=2", "1:B", "i=7003"), DT("ns=1;i=3", "1:C", "i=7005", [("x", "i=1", {})]), DT("ns=1;i=4", "1:D", "i=9999")])], graph=[("i=22", "i=7000"), ("i=29", "i=7001"), ("i=7001", "i=7003"), ("i=22", "i=7004"), ("i=7004", "i=7005")])
    yield srv_case("stypes", "many types", [Doc(["urn:a"], [], [DT("ns=1;i=%d" % j, "1:T%d" % j, "i=22" if j % 3 else "i=29", [("m", "i=%d" % (1 + j % 12), {})] if j % 3 else None) for j in range(1, 400)])])
    for i in range(max(3, k // 4)):
        q = random.Random(r.randint(0, 10**9)); tm = TM(q, [], q.randint(3, 12)); nodes = list(tm.docs); j = 0
        for t in tm.ids:
            if q.random() < .6: j += 1; nodes.append(enc(20000 + j, t, q.choice(["Default Binary"] * 3 + ["Default XML", "1:Default Binary"]), q.choice(["false"] * 4 + [None])))
        q.shuffle(nodes); yield srv_case("stypes", "random types and encodings %d" % i, [Doc(["urn:a"], [], nodes)])
def fam_slog(r, k):
    d = tree_doc(r, 20)
    yield srv_case("slog", "nothing refused", [d]); yield srv_case("slog", "refused", [d], refuse=[("ns=2;i=%d" % j, j % 4) for j in range(1, 20) if j % 4])
    yield srv_case("slog", "failing import", [Doc(["urn:a"], [], [N(0, "ns=1;i=1", "n", refs=[("ns=1;i=99", "i=1", None)])])])
    yield srv_case("slog", "empty", [Doc([], [], [])])
def fam_sids(r, k):
    for us in (["http://opcfoundation.org/UA/", "urn:a"], ["urn:a", "http://opcfoundation.org/UA/"], ["urn:app", "urn:b", "urn:app"], ["urn:c"] * 3 + ["urn:d"], []):
        for pre in (0, 7):
            ns = [N(c, "ns=%d;%s" % (n, ["i=%d" % (40000 + 10 * n + c), "s=Node %d %d" % (n, c)][c % 2]), "%d:b%d" % (n, c), dict({"ParentNodeId": "ns=%d;i=5" % n} if c in gen.INST else {}, **({"DataType": "ns=%d;i=9" % n} if c in (2, 6) else {})), refs=[("i=47", "ns=%d;i=6" % n, "false"), ("i=41", "T%d" % n, None), ("i=40", "ns=%d;s=td" % n, None)]) for n in range(len(us) + 2) for c in range(8)]
            yield srv_case("sids", "namespaces %s, %d before" % (us, pre), [Doc(us, [("T%d" % n, "ns=%d;i=77" % n) for n in range(9)], ns)], pre=pre)
    yield srv_case("sids", "many namespaces", [Doc(["urn:%d" % i for i in range(55)], [], [N(0, "ns=%d;i=1" % i, "%d:b" % i, refs=[("i=35", "ns=%d;i=2" % (55 - i), "false")]) for i in range(58)])])
def fam_srvlife(r, k):
    for c in list(fam_stypes(r, 4)) + list(fam_retry(r, 4))[:10] + list(fam_svalues(r, 8)):
        c.fam = "srvlife"; yield c
    st = Doc(["urn:a"], [], [N(5, "ns=1;s=rt", "n", refs=[("s=rt", "S", "false"), ("s=rt", "s=x", None)]), N(0, "ns=1;s=o", "n", refs=[("s=rt", "s=x", "false"), ("i=47", "s=y", "false")])])
    for o in (["--srv", ""], [], ["--builtin"]):
        yield Case("srvlife", "references of namespace 0 string types " + " ".join(o), ["loader"] + o + ["$D/f.xml"], {"f.xml": to_xml(st)}, lambda res: [({"P24"}, "%d blocks not released (or released twice)" % l["n"]) for l in R(res, "leak") if l["n"]])
__all__ = [k for k in globals() if k.startswith("fam_")]
