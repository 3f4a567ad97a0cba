#!/usr/bin/env python3
"""seed.py [-f] [ID...]: build the planted bugs of seed/bugs.py into seeded/<id>,
confirm each one (patch applies, original lines, builds, stable tests pass, demo
passes without and fails with it) and run the property's check against it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"; T = V + "/tools/seed"
sys.path.insert(0, T)
from bugs import BUGS
def sh(cmd, cwd=None, timeout=900):
    try: return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        class X: returncode, stdout, stderr = 124, "", "timeout"
        return X
def make(b):
    d = "%s/seeded/%s" % (V, b["id"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp"); r = w + "/repo"
    try:
        sh(["cp", "-a", "/repo", r])
        sh("git checkout -- .", r)
        for f, old, new in b["edits"]:
            s = open(r + "/" + f).read()
            if s.count(old) != 1: return "edit does not apply (%d matches): %s" % (s.count(old), old[:60])
            open(r + "/" + f, "w").write(s.replace(old, new))
        diff = sh("git diff", r).stdout
        # removed or preceding lines must be original
        for f, old, new in b["edits"]:
            bl = sh("git blame -s HEAD -- %s" % f, r).stdout.splitlines()
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        for f in ("dump.c", "ua_native.c", "ua_native.h"): shutil.copy(V + "/native/" + f, d)
        shutil.copytree(V + "/stub", d + "/stub")
        shutil.copy(T + "/check.py", d)
        open(d + "/demo.sh", "w").write(open(T + "/demo.sh").read().replace("@ARGS@", b["args"]))
        for n, c in b.get("files", {}).items(): open(d + "/" + n, "w", newline="").write(c)
        json.dump({k: b[k] for k in ("kinds", "drop", "ordered") if k in b}, open(d + "/expected.json", "w"))
        x = sh(["sh", d + "/demo.sh", "record"], "/repo")
        if x.returncode: return "recording failed: " + x.stdout[-400:] + x.stderr[-400:]
        x = sh(["sh", d + "/demo.sh"], "/repo")
        if x.returncode: return "demo fails on the unchanged tree: " + x.stdout[-300:]
        x = sh(["sh", d + "/demo.sh"], r)
        if x.returncode == 0: return "demo passes with the change"
        b["demo"] = x.stdout[-300:]
        return None
    finally: shutil.rmtree(w, ignore_errors=True)
def stable(b):
    sh("git apply %s/seeded/%s/patch.diff" % (V, b["id"]), "/repo")
    try:
        x = sh("bash /opt/vp/build.sh", "/repo")
        if x.returncode: return "does not build"
        sh("bash /opt/vp/test.sh /tmp/seedtests.json", "/repo")
        t = open("/tmp/seedtests.json").read()
        base = json.load(open("/opt/vp/BASELINE.json"))
        return t
    finally:
        sh("git checkout -- .", "/repo")
def run(b):
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    sh("git apply %s/seeded/%s/patch.diff" % (V, b["id"]), "/repo")
    try:
        x = subprocess.run(["python3", V + "/vf/run.py", b["prop"], "quick"], cwd=V, capture_output=True, text=True, env=env)
    finally: sh("git checkout -- .", "/repo")
    return x.returncode, x.stdout
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    res = {}
    for b in BUGS:
        if ids and not any(b["id"].startswith(i) for i in ids): continue
        if not ids and "-f" not in sys.argv and os.path.exists("%s/seeded/%s/meta.json" % (V, b["id"])) and "-r" not in sys.argv: continue
        if "-c" in sys.argv:
            # try only: neither /repo nor the stable tests are touched
            e = make(b)
            if e: print(b["id"], "REJECTED:", e); continue
            print(b["id"], "   demo:", b["demo"].replace("\n", " | ")[:300])
            w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
            try:
                sh(["cp", "-a", "/repo", w + "/repo"]); sh("git checkout -- . && git apply %s/seeded/%s/patch.diff" % (V, b["id"]), w + "/repo")
                x = subprocess.run(["python3", V + "/vf/run.py", b["prop"], "quick"], cwd=V, capture_output=True, text=True, env=dict(os.environ, VF_REPO=w + "/repo"))
            finally: shutil.rmtree(w, ignore_errors=True)
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
            print(b["id"], "CHECK", b["prop"], "rc", x.returncode, v[:2] or "MISSED"); sys.stdout.flush()
            continue
        if "-r" not in sys.argv:
            e = make(b)
            if e:
                print(b["id"], "REJECTED:", e); shutil.rmtree("%s/seeded/%s" % (V, b["id"]), ignore_errors=True); continue
            t = stable(b)
            if "-v" in sys.argv: print(t[:600])
            m = re.findall(r'"(?:status|result|outcome)": *"(\w+)"', t)
            print(b["id"], "kept; tests:", re.sub(r"\s+", " ", t)[:160]); print("   demo:", b["demo"].replace("\n", " | ")[:300])
        if "-n" in sys.argv: continue
        rc, out = run(b)
        v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        print(b["id"], "CHECK", b["prop"], "rc", rc, v[:2] or "MISSED"); sys.stdout.flush()
