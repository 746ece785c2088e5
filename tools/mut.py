#!/usr/bin/env python3
"""Self-test of the checks: breaking edits must be reported, behaviour-preserving ones must stay quiet.
usage: mut.py [substring of property or name]...   (uses the checker binary named by $GC, default /tmp/gc)
Works on scratch copies of /repo under /tmp; never touches /repo."""
import os, sys, shutil, subprocess, tempfile, glob, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
GC = os.environ.get("GC", "/tmp/gc")
ALL = []
def M(props, name, *edits, test=False): ALL.append((props, name, edits, True))
def E(props, name, *edits): ALL.append((props, name, edits, False))
for f in sorted(glob.glob(here + "/mutants/*.py")):
    exec(compile(open(f).read(), f, "exec"))
import json
CLAIMED = [c["property"] for c in json.load(open(os.path.dirname(here) + "/MANIFEST.json"))["checks"]]
if os.environ.get("ALLPROPS"): ALL = [m for m in ALL if not m[3]]
if os.environ.get("PROPS"): ALL = [(os.environ["PROPS"] if not m[3] else m[0],) + m[1:] for m in ALL]
if os.environ.get("TOUCHES"): ALL = [m for m in ALL if any(os.environ["TOUCHES"] in e[0] for e in m[2])]
def run(m):
    props, name, edits, bad = m
    if not bad and os.environ.get("ALLPROPS") or props == "ALL":
        props = ",".join(CLAIMED)
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        r = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        for (file, old, new) in edits:
            p = r + "/" + file
            s = open(p).read() if os.path.exists(p) else ""
            if old == "" :
                s = s + new
            else:
                n = s.count(old)
                if n == 0: return (m, "BADEDIT", "text not found: " + old)
                s = s.replace(old, new, 1)
            open(p, "w").write(s)
        env = dict(os.environ, GOFRE_REPO=r, GOFLAGS="-mod=mod", CGO_ENABLED="0")
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode: return (m, "BADEDIT", b.stderr)
        env = dict(os.environ, GOFRE_REPO=r)
        o = subprocess.run([GC, "check", "-out", d] + props.split(","), cwd=d, env=env, capture_output=True, text=True)
        out = o.stdout + o.stderr
        viol = [p for p in props.split(",") if "VIOLATION property=%s " % p in out]
        if bad:
            ok = len(viol) == len(props.split(","))
        else:
            ok = o.returncode == 0
        return (m, "ok" if ok else ("MISSED" if bad else "FALSE ALARM"), out)
    finally:
        shutil.rmtree(d)
sel = [m for m in ALL if not sys.argv[1:] or any(a in m[0] or a in m[1] for a in sys.argv[1:])]
nb = 0
with cf.ThreadPoolExecutor(int(os.environ.get("WORKERS", "3"))) as ex:
    for m, res, out in ex.map(run, sel):
        undec = "[undecided]" in out or "[internal-error]" in out
        if res != "ok" or os.environ.get("V") or undec:
            print(res, m[0], m[1], "(undecided)" if undec else "")
            print("    " + "\n    ".join([l for l in out.strip().splitlines() if not l.startswith("OK ")][:14]))
        if res != "ok": nb += 1
print(len(sel), "mutants,", nb, "wrong")
