"""Mechanical loop annotation of the real sources.

The repository's source text is copied verbatim; the only insertions are loop
contract clauses (no executable text).  Positions and the variables a loop
modifies come from clang's AST, so renamed variables, for/while rewrites and
index/pointer rewrites keep their annotation."""
import json, os, re, subprocess

def ast_function(path, fn, incs):
    cmd = ["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + fn] + incs + [path]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
    dec = json.JSONDecoder(); s = r.stdout; i = 0; out = []
    while True:
        while i < len(s) and s[i] in " \r\n\t": i += 1
        if i >= len(s): break
        if s[i] != "{":                      # "Dumping x:" lines
            j = s.find("\n", i)
            if j < 0: break
            i = j + 1; continue
        o, i = dec.raw_decode(s, i); out.append(o)
    return [o for o in out if o.get("kind") == "FunctionDecl" and o.get("name") == fn
            and any(c.get("kind") == "CompoundStmt" for c in o.get("inner", []))]

def off(loc):
    if not loc: return None
    if "offset" in loc: return loc["offset"]
    for k in ("expansionLoc", "spellingLoc"):
        if k in loc and "offset" in loc[k]: return loc[k]["offset"]
    return None

def walk(n):
    yield n
    for c in n.get("inner", []) or []:
        if c: yield from walk(c)

def strip(n):
    while n.get("kind") in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr") and n.get("inner"): n = n["inner"][0]
    return n

def modified(loop):
    """(name, type) of scalars the loop assigns which live outside its body."""
    body = loop["inner"][-1] if loop["kind"] != "DoStmt" else loop["inner"][0]
    inner_decl = {d["id"] for d in walk(body) if d.get("kind") == "VarDecl"}
    seen = {}
    for n in walk(loop):
        k = n.get("kind"); tgt = None
        if k in ("BinaryOperator",) and n.get("opcode") == "=": tgt = n["inner"][0]
        elif k == "CompoundAssignOperator": tgt = n["inner"][0]
        elif k == "UnaryOperator" and n.get("opcode") in ("++", "--"): tgt = n["inner"][0]
        if tgt is None: continue
        t = strip(tgt)
        if t.get("kind") == "DeclRefExpr":
            d = t["referencedDecl"]
            if d.get("kind") in ("VarDecl", "ParmVarDecl") and d["id"] not in inner_decl:
                seen[d["name"]] = d["type"].get("desugaredQualType", d["type"]["qualType"]), d["type"]["qualType"]
    return [(k, v[0], v[1]) for k, v in seen.items()]

def find_loops(path, fn, incs):
    fs = ast_function(path, fn, incs)
    if not fs: return None
    src = open(path, "rb").read()
    res = []
    for n in walk(fs[-1]):
        if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt"):
            if n["kind"] == "DoStmt":
                res.append(dict(kind="do", pos=None, mod=[], line=0)); continue
            body = n["inner"][-1]
            pos = off(body["range"]["begin"])
            res.append(dict(kind=n["kind"], pos=pos, mod=modified(n), start=off(n["range"]["begin"]),
                            end=off(n["range"]["end"]), line=src[:pos].count(b"\n") + 1,
                            text=src[off(n["range"]["begin"]):off(n["range"]["end"]) + 1].decode("utf8", "replace")))
    return [l for l in res if not (l["kind"] == "do")] if not any(l["kind"] == "do" for l in res) else res

INT = re.compile(r"^(const )?(unsigned |signed )?(int|char|long|short|size_t|uint\w+|_Bool|bool|unsigned|long long|ptrdiff_t)\b[^*]*$")

def classify(qual, desug):
    if "*" in qual or "*" in desug: return "ptr"
    if qual in ("bool", "_Bool"): return "bool"
    if INT.match(desug) or INT.match(qual): return "int"
    return "other"

def render(template, loop, houdini=None):
    """template: dict(int=[..], ptr=[..] or {"Type *":[..]}, bool=[..], always=[..], assigns=[..])"""
    assigns, invs = [], []
    for name, desug, qual in loop["mod"]:
        c = classify(qual, desug)
        assigns.append(name)
        cand = template.get(c, [])
        if isinstance(cand, dict):
            key = next((k for k in cand if re.search(k, qual) or re.search(k, desug)), None)
            cand = cand.get(key, []) if key else []
        for t in cand: invs.append(t.replace("$v", name))
    invs += template.get("always", [])
    assigns += template.get("assigns", [])
    s = " __CPROVER_assigns(%s)" % ", ".join(assigns)
    for i in invs: s += " __CPROVER_loop_invariant(%s)" % i
    if template.get("decreases"): s += " __CPROVER_decreases(%s)" % template["decreases"]
    return s + " "

def annotate(path, specs, incs):
    """specs: {fn: [template, ...]} -> (annotated text, notes, ok)"""
    data = open(path, "rb").read(); ins = []; notes = []; ok = True
    for fn, temps in specs.items():
        loops = find_loops(path, fn, incs)
        if loops is None:
            notes.append("function %s not found" % fn); ok = False; continue
        if len(loops) != len(temps) or any(l["kind"] == "do" or l["pos"] is None for l in loops):
            notes.append("%s has %d loops, %d annotated" % (fn, len(loops), len(temps))); ok = False; continue
        for l, t in zip(loops, temps):
            if t is None: continue
            ins.append((l["pos"], render(t, l)))
            notes.append("%s:%d loop over %s" % (fn, l["line"], ",".join(m[0] for m in l["mod"])))
    for pos, s in sorted(ins, reverse=True):
        data = data[:pos] + s.encode() + data[pos:]
    return data, notes, ok
