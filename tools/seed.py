#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and confirms each one in a scratch copy:
builds, passes the stable tests, demo passes without and fails with the change. usage: seed.py [filter]..."""
import os, sys, json, glob, shutil, subprocess, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__)); out = os.path.dirname(here) + "/seeded"
ALL = []
def S(id, prop, pkg, edits, test, needs, breaks, race=False): ALL.append((id, prop, pkg, edits, test, needs, breaks, race))
for f in sorted(glob.glob(here + "/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise; run with cwd at the repository root
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here="$(cd "$(dirname "$0")" && pwd)"
ov="$(mktemp)"; trap 'rm -f "$ov"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)szz_demo_test.go" "$here/zz_demo_test.go" > "$ov"
timeout 250 go test -vet=off -count=1 -timeout 200s%(race)s -overlay "$ov" -run '^TestDemo' ./%(pkg)s
'''
base = {t if isinstance(t, str) else t.get("id") for t in (lambda b: b.get("passed") or b.get("stable") or b.get("tests") or [])(json.load(open("/opt/vp/BASELINE.json")))}
def tests(r):
    pk = subprocess.run("go list -e ./... | grep -v '^github.com/ixtendio/gofre/response$'", shell=True, cwd=r, env=ENV, capture_output=True, text=True).stdout.split()
    o = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1"] + pk, cwd=r, env=ENV, capture_output=True, text=True).stdout
    bad = []
    for l in o.splitlines():
        try: j = json.loads(l)
        except Exception: continue
        if j.get("Action") == "fail": bad.append("%s %s" % (j.get("Package"), j.get("Test")))
    return bad
def mk(s):
    id, prop, pkg, edits, test, needs, breaks, race = s
    if pkg and not pkg.endswith("/"): pkg += "/"
    d = out + "/" + id
    tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        os.makedirs(d, exist_ok=True)
        r = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        open(d + "/zz_demo_test.go", "w").write(test.lstrip())
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, race=" -race" if race else ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        env = ENV
        c = subprocess.run(["bash", d + "/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
        if c.returncode: return (id, "DEMO FAILS CLEAN", c.stdout[-1500:] + c.stderr[-1500:])
        for (file, old, new) in edits:
            p = r + "/" + file; t = open(p).read()
            if t.count(old) != 1: return (id, "BADEDIT", "%d of %s" % (t.count(old), old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode: return (id, "NOBUILD", b.stderr)
        bad = tests(r)
        bad = [x for x in bad if not x.endswith("None")]
        if bad: return (id, "TESTS FAIL", "\n".join(bad))
        c = subprocess.run(["bash", d + "/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
        if c.returncode == 0: return (id, "DEMO PASSES WITH BUG", c.stdout[-800:])
        if "FAIL" not in c.stdout or "build failed" in c.stdout: return (id, "DEMO ODD", c.stdout[-800:] + c.stderr[-800:])
        gc = os.environ.get("GC", "/tmp/gc")
        o = subprocess.run([gc, "check", "-out", tmp, prop], env=dict(os.environ, GOFRE_REPO=r), capture_output=True, text=True).stdout
        return (id, "ok " + ("CAUGHT" if "VIOLATION property=" + prop in o else "MISSED"), "" if "VIOLATION" in o else o[-600:])
    finally:
        shutil.rmtree(tmp)
sel = [s for s in ALL if not sys.argv[1:] or any(a in s[0] or a in s[1] for a in sys.argv[1:])]
with cf.ThreadPoolExecutor(3) as ex:
    for id, res, info in ex.map(mk, sel):
        print(res, id)
        if res != "ok CAUGHT": print("    " + info.replace("\n", "\n    "))
