import os, re, subprocess, time, json, shutil, tempfile
from . import loops
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BE = "backends/open62541/src"
def incs(gen=None):
    r = []
    if gen: r += ["-I" + gen, "-I" + gen + "/gen/" + BE, "-I" + gen + "/gen/src", "-I" + gen + "/gen/src/nodes"]
    r += ["-I" + V + "/specs", "-I" + V + "/stub", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/src/nodes",
          "-I" + REPO + "/backends/open62541/include", "-I" + REPO + "/" + BE, "-I/usr/include/libxml2"]
    return r

class Ob:
    def __init__(self, id, spec, define, fn=None, contract=None, src=(), loops=None, replace=(), flags=(), defs=(), unwind=None,
                 kind="proof", bound=None, bounded=3, bunwind=6, timeout=240, text="", tier="quick", leak=False, objbits=None, backend=None, unwindset=None, oom=False, cost=1, relax=False, subst=(), trusted=(), assume=(), fallback=None):
        self.__dict__.update(locals()); self.loops = loops or {}

CHECKS = ["--pointer-overflow-check", "--malloc-may-fail", "--malloc-fail-null"]
PROP = re.compile(r"^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")

def sh(cmd, timeout, cwd=None):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd, errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return -9, "TIMEOUT"

def run(ob, work, mode="proof"):
    """-> dict(status=PROVED|REFUTED|ERROR|BOUNDED_OK, ...)"""
    t0 = time.time(); d = os.path.join(work, ob.id + "." + mode); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    res = dict(id=ob.id, mode=mode, fn=ob.fn, notes=[], failed=[], n=0, ok=0, kind=ob.kind)
    def done(st, msg=""):
        res.update(status=st, msg=msg[-4000:], wall=round(time.time() - t0, 2)); return res
    use_loops = mode == "proof" and ob.loops
    for s in ob.src:
        dst = os.path.join(d, "gen", s); os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.exists(os.path.join(REPO, s)): return done("ERROR", "missing " + s)
        sp = ob.loops.get(s) if use_loops else None
        if sp:
            try: data, notes, ok = loops.annotate(os.path.join(REPO, s), sp, incs())
            except Exception as e: return done("ERROR", "annotation: %r" % e)
            res["notes"] += notes
            if not ok: return done("ERROR", "annotation does not attach: " + "; ".join(notes))
        else: data = open(os.path.join(REPO, s), "rb").read()
        open(dst, "wb").write(data)
    defs = ["-D" + x for x in ob.defs] + ["-DOB_" + ob.define]
    if mode == "bounded": defs.append("-DBOUNDED=%d" % ob.bounded)
    a, b = d + "/a.gb", d + "/b.gb"
    rc, out = sh(["goto-cc", "-DVERIF_CBMC", *defs, *incs(d), "--function", "harness", V + "/specs/" + ob.spec, "-o", a], 120)
    if rc != 0: return done("ERROR", "goto-cc: " + out)
    cur = a
    if ob.subst:
        rc, out = sh(["goto-instrument", *[x for y in ob.subst for x in ("--replace-calls", y)], a, a + ".s"], 120)
        if rc != 0: return done("ERROR", "goto-instrument --replace-calls: " + out)
        cur = a = a + ".s"
    if ob.contract:
        cmd = ["goto-instrument", "--dfcc", "harness", "--enforce-contract", ob.fn + "/" + ob.contract]
        for r in ob.replace: cmd += ["--replace-call-with-contract", r]
        if use_loops: cmd += ["--apply-loop-contracts"]
        cmd += ([] if ob.oom else ["--no-malloc-may-fail"])
        rc, out = sh(cmd + [a, b], 240)
        if rc != 0: return done("ERROR", "goto-instrument: " + out)
        cur = b
    cmd = ["cbmc", cur, "--verbosity", "9", *([] if "--no-pointer-check" in ob.flags else ["--pointer-overflow-check"]), *([] if ob.oom else ["--no-malloc-may-fail"]), *ob.flags]
    cmd += ["--sat-solver", ob.backend or os.environ.get("VF_SAT", "cadical")]
    if ob.leak: cmd.append("--memory-leak-check")
    cmd += ["--object-bits", str(ob.objbits or 10)]
    if mode == "bounded": cmd += ["--unwind", str(ob.bunwind), "--no-unwinding-assertions"]
    elif ob.unwind: cmd += ["--unwind", str(ob.unwind)]
    if ob.unwindset and mode != "bounded": cmd += ["--unwindset", ob.unwindset]
    res["cmd"] = " ".join(cmd)
    rc, out = sh(["prlimit", "--as=%d" % (12 << 30)] + cmd, ob.timeout)
    open(d + "/out.txt", "w").write(out)
    if rc == -9: return done("ERROR", "timeout after %ds or out of memory" % ob.timeout)
    vac_ok = True; nvac = nreach = 0; unw = False; und = nobody = False
    for l in out.splitlines():
        m = PROP.match(l.strip())
        if not m: continue
        pid, line, desc, st = m.groups()
        if desc.startswith("VACUITY"):
            nvac += 1
            if st != "FAILURE": vac_ok = False; res["notes"].append("vacuous: " + desc)
            else: nreach += 1
            continue
        res["n"] += 1
        if st == "SUCCESS": res["ok"] += 1
        elif st == "FAILURE":
            if "unwind" in pid or "unwinding assertion" in desc: unw = True
            elif "no-body" in pid: und = nobody = True; res["notes"].append(desc)
            else: res["failed"].append((pid, int(line) if line else 0, desc))
        else: und = True
    res["solver_s"] = round(sum(float(x) for x in re.findall(r"Runtime decision procedure: ([\d.e-]+)s", out)), 3)
    res["vac"] = nvac
    if rc not in (0, 10): return done("ERROR", "cbmc rc %d: %s" % (rc, out[-1500:]))
    if unw and not res["failed"]: return done("ERROR", "loop without contract (unwinding assertion)")
    # paths end at the unwinding limit, so a failed postcondition is one of a complete execution
    # (with loop contracts the loops that are left may be the reason for it)
    if unw and (ob.loops or not any(f[2].startswith("ensures ") for f in res["failed"])): return done("ERROR", "loop without contract (unwinding assertion), failed: " + "; ".join(f[2] for f in res["failed"][:4]))
    if nobody: return done("ERROR", "undetermined / missing body: " + "; ".join(res["notes"]))
    if res["failed"]: return done("REFUTED", "\n".join("%s line %d: %s" % f for f in res["failed"]))
    if und: return done("ERROR", "undetermined / missing body: " + "; ".join(res["notes"]))
    if res["n"] == 0: return done("ERROR", "no obligations generated")
    if nvac == 0: return done("ERROR", "no reachability check in " + ob.spec)
    if mode == "bounded" and nreach: vac_ok = True   # small bounds may exclude some situations
    if not vac_ok: return done("ERROR", "; ".join(res["notes"]))
    return done("PROVED" if mode == "proof" else "BOUNDED_OK")
