"""Abstract nodeset documents, their XML text and the reference model.

The model states what the properties promise, independently of the code under
test: it works on the abstract document, never on the XML."""
import re, random
CLS = ["Object", "ObjectType", "Variable", "DataType", "Method", "ReferenceType", "VariableType", "View"]
XML = ["UAObject", "UAObjectType", "UAVariable", "UADataType", "UAMethod", "UAReferenceType", "UAVariableType", "UAView"]
INST = {0, 2, 4, 7}
HIER0 = {"i=%d" % n for n in (33, 35, 36, 38, 44, 45, 46, 47, 48)}
# attribute -> (record key, default); '#': node id, '@': node id or alias
ATTRS = {
 0: {"ParentNodeId": ("#parent", None), "EventNotifier": ("en", "0")},
 1: {"IsAbstract": ("abs", "false")},
 2: {"ParentNodeId": ("#parent", None), "DataType": ("@dt", "i=24"), "ArrayDimensions": ("dims", ""), "ValueRank": ("rank", "-1"), "AccessLevel": ("al", "1"),
     "UserAccessLevel": ("ual", "1"), "Historizing": ("hist", "false"), "MinimumSamplingInterval": ("msi", "-1")},
 3: {"IsAbstract": ("abs", "false")},
 4: {"ParentNodeId": ("#parent", None), "Executable": ("ex", "true"), "UserExecutable": ("uex", "true")},
 5: {"Symmetric": ("sym", "false")},
 6: {"IsAbstract": ("abs", "false"), "DataType": ("@dt", "i=24"), "ArrayDimensions": ("dims", ""), "ValueRank": ("rank", "-1")},
 7: {"ParentNodeId": ("#parent", None), "ContainsNoLoops": ("cnl", "false"), "EventNotifier": ("en", "0")}}
def L1(s): return None if s is None else s.encode("utf8").decode("latin1")
def esc_attr(s): return s.replace("<", "&lt;").replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")

class Doc:
    def __init__(self, uris=(), aliases=(), nodes=()):
        self.uris = list(uris); self.aliases = list(aliases); self.nodes = list(nodes)

def N(cls, id, bn="n", attrs=None, dn=None, de=None, inv=None, refs=(), val=None, defn=None, order=None):
    return dict(cls=cls, id=id, bn=bn, attrs=dict(attrs or {}), dn=dn, de=de, inv=inv, refs=list(refs), val=val, defn=defn, order=order)

# ---------------- XML ----------------
def text(s, r, fancy):
    if not fancy: return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    out = []; i = 0
    while i < len(s):
        k = r.random(); n = r.randint(1, 12); part = s[i:i + n]
        if k < 0.15 and "]]" not in part and ">" not in part: out.append("<![CDATA[" + part + "]]>")
        elif k < 0.3: n = min(n, 3); out.append("".join("&#%d;" % ord(c) for c in part[:n]))
        elif k < 0.4: out.append("<!-- c%d -->" % r.randint(0, 99)); n = 0
        elif k < 0.45: out.append("<?pi data?>"); n = 0
        else: out.append(part.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;"))
        i += n
    return "".join(out)
KNOWN = ["DisplayName", "Description", "References", "Reference", "Value", "Definition", "Field", "UAObject", "UAVariable", "Alias", "Aliases", "NamespaceUris", "Uri",
         "Extensions", "Extension", "InverseName", "UANodeSet", "Int32", "ListOfInt32", "UADataType", "UAReferenceType"]
def junk(r, depth=0):
    """an unknown element with arbitrary (also known) elements inside"""
    def inner(d):
        if d > 4: return "text"
        s = ""
        for _ in range(r.randint(0, 3)):
            n = r.choice(KNOWN + ["Zzz", "Foo"]); a = r.choice(["", ' NodeId="ns=1;i=99999" BrowseName="q"', ' Alias="A0"', ' ReferenceType="HasComponent" IsForward="false"', ' Locale="xx"', ' Name="f" Value="3"'])
            s += "<%s%s>%s%s</%s>" % (n, a, r.choice(["", "i=77", "stray text", "\n"]), inner(d + 1), n)
        return s
    n = r.choice(["Documentation", "Category", "RolePermissions", "Unknown", "X", "Models", "Foo"])
    return "<%s a='1'>%s</%s>" % (n, inner(depth), n) if r.random() < .8 else "<%s/>" % n
def tree_xml(t, r, fancy):
    name, body = t
    if isinstance(body, list):
        ws = "\n   " if fancy else ""
        return "<%s>%s</%s>" % (name, ws + ws.join(tree_xml(c, r, fancy) for c in body) + ws, name)
    return "<%s/>" % name if body is None else "<%s>%s</%s>" % (name, text(body, r, fancy), name)
def eo_xml(e, r, fancy):
    tid, body = e; ws = "\n " if fancy else ""
    return ws.join(["<ExtensionObject>", "<TypeId>" + ws + "<Identifier>%s</Identifier>" % tid + ws + "</TypeId>", "<Body>", tree_xml(body, r, fancy), "</Body>", "</ExtensionObject>"])
def val_xml(v, r, fancy):
    k = v[0]; ws = "\n  " if fancy else ""
    if k == "scalar": b = tree_xml((v[1], v[2]), r, fancy)
    elif k == "list": b = "<%s>" % v[1] + ws + ws.join(tree_xml(c, r, fancy) for c in v[2]) + ws + "</%s>" % v[1]
    elif k == "eo": b = eo_xml((v[1], v[2]), r, fancy)
    elif k == "loeo": b = "<%s>" % v[1] + ws + ws.join(eo_xml(c, r, fancy) for c in v[2]) + ws + "</%s>" % v[1]
    else: b = v[1]
    return "<Value>" + ws + b + ws + "</Value>"
def to_xml(doc, seed=0, fancy=False, noise=0.0):
    r = random.Random(seed); o = ['<?xml version="1.0" encoding="utf-8"?>\n']
    def J(): return "".join(junk(r) for _ in range(r.randint(1, 2))) if noise and r.random() < noise else ""
    def nl(): return r.choice(["\n", "\n   ", "\n<!-- <UAObject> -->", " "]) if fancy else "\n"
    def attrs(l):
        l = [(k, v) for k, v in l if v is not None]
        if fancy: r.shuffle(l)
        return "".join(' %s="%s"' % (k, esc_attr(v)) for k, v in l)
    def loc(tag, lt):
        if lt is None: return ""
        a = attrs([("Locale", lt[0])])
        return "<%s%s/>" % (tag, a) if lt[1] is None else "<%s%s>%s</%s>" % (tag, a, text(lt[1], r, fancy), tag)
    o.append('<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd">' + nl() + J())
    if doc.uris:
        o.append("<NamespaceUris>" + nl())
        for u in doc.uris: o.append(J() + "<Uri>%s</Uri>" % text(u, r, fancy) + nl())
        o.append(J() + "</NamespaceUris>" + nl() + J())
    if doc.aliases:
        o.append("<Aliases>" + nl())
        for n, i in doc.aliases: o.append(J() + "<Alias%s>%s</Alias>" % (attrs([("Alias", n)]), text(i, r, fancy)) + nl())
        o.append(J() + "</Aliases>" + nl())
    for n in doc.nodes:
        if "raw" in n: o.append(n["raw"] + nl()); continue
        o.append(J())
        extra = [("SymbolicName", "x"), ("WriteMask", "3"), ("Nodeid", "ns=1;i=4711"), ("DataTypes", "i=1")] if fancy and r.random() < .4 else []
        o.append("<%s%s>" % (XML[n["cls"]], attrs([("NodeId", n["id"]), ("BrowseName", n["bn"])] + list(n["attrs"].items()) + extra)) + nl())
        parts = []
        if n["dn"] is not None: parts.append(loc("DisplayName", n["dn"]))
        if n["de"] is not None: parts.append(loc("Description", n["de"]))
        if n["inv"] is not None: parts.append(loc("InverseName", n["inv"]))
        if n["refs"]:
            s = "<References>" + nl()
            for t, tg, f in n["refs"]: s += J() + "<Reference%s>%s</Reference>" % (attrs([("ReferenceType", t), ("IsForward", f)]), text(tg, r, fancy)) + nl()
            parts.append(s + J() + "</References>")
        if n["defn"] is not None:
            d = n["defn"]; s = "<Definition%s>" % attrs([("Name", "d")] + [(k, d.get(k)) for k in ("IsUnion", "IsOptionSet")]) + nl()
            for f in d["fields"]:
                s += J() + ("<Field%s/>" % attrs(list(f.items())) if r.random() < .7 or not noise else "<Field%s>%s</Field>" % (attrs(list(f.items())), junk(r))) + nl()
            parts.append(s + J() + "</Definition>")
        if n["val"] is not None: parts.append(val_xml(n["val"], r, fancy))
        if fancy: r.shuffle(parts)
        for p in parts: o.append(p + nl() + J())
        o.append("</%s>" % XML[n["cls"]] + nl())
    o.append(J() + "</UANodeSet>\n")
    return "".join(o).encode("utf8")

# ---------------- model ----------------
IDRE = re.compile(r"(?:ns=(\d+);)?([isgb])=(.*)\Z", re.S)
NULLID = "i=0"
def parse_id(t):
    """(ns, 'k=value') or None"""
    m = IDRE.match(t) if t is not None else None
    if not m: return None
    ns = int(m.group(1) or 0); k, v = m.group(2), m.group(3)
    if ns > 65535: return None
    if k == "i":
        if not re.fullmatch(r"\d+", v) or int(v) >= 2**32: return None
        v = str(int(v))
    if k == "g":
        if not re.fullmatch(r"[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}", v): return None
        v = v.lower()
    return ns, k + "=" + v
def fmt_id(ns, rest): return L1(("ns=%d;" % ns if ns else "") + rest)
class File:
    def __init__(s, doc, reg, cbadd=0): s.doc = doc; s.map = {}; s.reg = reg; s.aliases = {}; s.cbadd = cbadd
    def ns(s, n): return s.map.get(n, n)
    def id(s, t):
        p = parse_id(t)
        return NULLID if p is None else fmt_id(s.ns(p[0]), p[1])
    def alias(s, t): return s.aliases[t] if t in s.aliases else s.id(t)
def tree(t):
    name, body = t
    if isinstance(body, list) and body: return [name, "C", [tree(c) for c in body]]
    return [name, "P", None if not body or not body.strip(" \t\r\n\v\f") else L1(body)]
def model_value(v):
    if v is None: return None
    k = v[0]
    if k == "scalar": return dict(arr=False, eo=False, type=v[1], data=tree((v[1], v[2])))
    if k == "list": return dict(arr=True, eo=False, type=v[2][-1][0] if v[2] else None, data=[v[1], "C", [tree(c) for c in v[2]]])
    if k == "eo": return dict(arr=False, eo=True, type=v[1], data=[v[2][0], "C", [tree(c) for c in v[2][1]]])
    if k == "loeo": return dict(arr=True, eo=bool(v[2]), type=v[2][-1][0] if v[2] else None, data=[v[1], "C", [tree(c[1]) for c in v[2]]])
    return "skip"
class Builtin:
    def __init__(s): s.hier = set(HIER0); s.non = set()
    def td(s, t): return t == "i=40"
    def h(s, t): return t in s.hier
    def n(s, t): return not t.startswith("ns=") or t in s.non
    def add(s, id, refs): (s.hier if any(not f and g in s.hier for _, g, f in refs) else s.non).add(id)
class Server:
    """server graph: child -> direct supertypes"""
    def __init__(s, edges):
        kids = {}
        for a, b in edges: kids.setdefault(a, []).append(b)
        def down(root):
            out = set(); st = [root]
            while st:
                x = st.pop()
                if x not in out: out.add(x); st += kids.get(x, [])
            return out
        s.hier, s.non, s.tds = down("i=33"), down("i=32"), down("i=40")
    def td(s, t): return t in s.tds
    def h(s, t): return t in s.hier
    def n(s, t): return t in s.non
    def add(s, id, refs):
        if any(not f and g in s.tds for _, g, f in refs): s.tds.add(id)
        (s.hier if any(not f and g in s.hier for _, g, f in refs) else s.non).add(id)
def expect(docs, svc=None, twocb=False, nsidx=None):
    """-> dict of what a user of the loader may observe"""
    svc = svc or Builtin(); reg = []; nscalls = []; added = {}; order = []; bidir = []; logs = []
    defT, defN = [], []
    def classify(n, typ):
        if n["cls"] in (0, 2) and svc.td(typ): return "td"
        if svc.h(typ): return "hier"
        if svc.n(typ): return "non"
        return "unk"
    def finish(e):
        if e["id"] in added: logs.append("dup"); return
        added[e["id"]] = e; order.append(e)
        if not e["hier"] and e["class"] in INST and e.get("parent") not in (None, NULLID):
            p = added.get(e["parent"]); gen = None
            if p is not None:
                for t, g, f in reversed(p["hier"]):
                    if g == e["id"]: gen = (t, p["id"], not f); break
            e["hier"].append(gen or ("i=47", e["parent"], False)); e["_gen"] = True
        if e["class"] == 5: svc.add(e["id"], e["hier"])
    for fi, doc in enumerate(docs):
        f = File(doc, reg)
        for k, u in enumerate(doc.uris):
            if u not in reg: reg.append(u)
            nscalls.append((fi, True, L1(u))); f.map[k + 1] = nsidx(u) if nsidx else (7 + 13 * reg.index(u) + (1 if twocb and fi % 2 else 0)) & 0xFFFF
        for n, t in doc.aliases:
            if n is not None: f.aliases.setdefault(n, f.id(t))
        for n in doc.nodes:
            if "raw" in n: continue
            e = {"class": n["cls"], "id": f.id(n["id"]), "hier": [], "non": [], "unk": [], "td": []}
            bn = n["bn"]
            if bn is None: e["bns"], e["bn"] = 0, None
            elif ":" not in bn: e["bns"], e["bn"] = 0, L1(bn)
            else: a, b = bn.split(":", 1); e["bns"], e["bn"] = f.ns(int(a)), L1(b)
            for key, lt in (("dn", n["dn"]), ("de", n["de"])):
                e[key + "l"] = L1(lt[0]) if lt else None; e[key] = L1(lt[1]) if lt and lt[1] != "" else None
            if n["cls"] == 5:
                lt = n["inv"]; e["inl"] = L1(lt[0]) if lt else None; e["in"] = L1(lt[1]) if lt and lt[1] != "" else None
            for a, (key, dflt) in ATTRS[n["cls"]].items():
                v = n["attrs"].get(a, dflt)
                e[key.strip("#@")] = f.id(v) if key[0] == "#" else f.alias(v) if key[0] == "@" else L1(v)
            if n["cls"] == 2: e["val"] = model_value(n["val"])
            if n["cls"] == 3:
                d = n["defn"]
                if d is None: e["def"] = None
                else:
                    os_ = d.get("IsOptionSet") in ("true", "1"); fl = []
                    for x in ([] if os_ else d["fields"]):
                        if "Value" in x: fl.append([L1(x.get("Name")), NULLID, 0, int(x["Value"]), 0])
                        else: fl.append([L1(x.get("Name")), f.alias(x.get("DataType", "i=24")), int(x.get("ValueRank", "-1")), 0, int(x.get("IsOptional") in ("true", "1"))])
                    e["def"] = dict(enum=int(not os_ and any("Value" in x for x in d["fields"])), union=int(d.get("IsUnion") in ("true", "1")), os=int(os_), fields=fl)
            for t, g, fw in n["refs"]:
                ref = (f.alias(t), f.alias(g), fw in (None, "true", "1")); e[classify(n, ref[0])].append(ref)
                if ref[0] == "i=38" and e["bn"] == "Default Binary" and not ref[2]: bidir.insert(0, (ref[1], e["id"], ref[0]))
            e["_late"] = bool(e["unk"])
            if not e["unk"]: finish(e)
            else: (defT if n["cls"] == 5 else defN).append((e, n))
    # sorting
    failed = False
    def resolve(e, n):
        left = []
        for x in e["unk"]:
            if svc.h(x[0]): e["hier"].append(x)
            elif svc.n(x[0]): e["non"].append(x)
            else: left.append(x)
        e["unk"] = left; return not left
    prog = True
    while prog:
        prog = False
        for x in list(defT):
            if resolve(*x): defT.remove(x); finish(x[0]); prog = True
    if defT: failed = True; logs.append("unresolved")
    else:
        for x in defN:
            if not resolve(*x): failed = True; logs.append("unresolved"); break
            finish(x[0])
    edges = {}
    for e in order:
        for t, g, fw in e["hier"]:
            if e.get("_gen"): continue
            a, b = (e["id"], g) if fw else (g, e["id"])
            if a != b: edges.setdefault(a, set()).add(b)
    # cycle?
    state = {}
    def cyc():
        for s in list(edges):
            if state.get(s): continue
            st = [(s, iter(edges.get(s, ())))]; state[s] = 1
            while st:
                x, it = st[-1]
                for y in it:
                    if state.get(y) == 1: return True
                    if not state.get(y): state[y] = 1; st.append((y, iter(edges.get(y, ())))); break
                else: state[x] = 2; st.pop()
        return False
    if not failed and cyc(): failed = True; logs.append("loop")
    return dict(ns=nscalls, nodes=added, edges=edges, sort_ok=not failed, bidir=bidir, logs=logs)
