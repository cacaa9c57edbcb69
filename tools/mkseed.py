#!/usr/bin/env python3
"""mkseed.py FILE: plants the bugs described in a Python file (development; no check uses it).

The file defines seeds = [dict(id, prop, edits=[(path, old, new)...], pkg, test, needs, breaks)]; test is the body of an
external Go test file (package PKG_test). Each is confirmed in a scratch copy of /repo: it compiles, the stable tests pass, the
demonstration passes without and fails with the change, and the changed lines are original ones.
"""
import json, os, subprocess, sys, shutil, re
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
S = "/tmp/seedscratch"
env = dict(os.environ, GOPATH="/root/go", GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
base = json.load(open("/opt/vp/BASELINE.json"))
def run(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
repo=${DEMO_REPO:-/repo}
cd "$repo" || exit 3
o=$(mktemp) || exit 3
trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\":{\\"$repo/%(dir)s/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$o"
timeout 280 go test %(race)s -vet=off -count=1 -overlay "$o" -run '^TestZZDemo$' ./%(dir)s
'''
def stable():
    r = run("go test -json -vet=off -count=1 -timeout 5m ./...", S)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "::" + e["Test"]); ok.add(e["Package"] + "/" + e["Test"]); ok.add(e["Package"] + "." + e["Test"])
    names = base["stable"]
    miss = [n for n in names if n not in ok and n.replace(" ", "::") not in ok]
    return miss
for s in spec["seeds"]:
    if only and s["id"] not in only: continue
    d = "/verif/seeded/" + s["id"]
    subprocess.run("mkdir -p /tmp/seedscratch && find /tmp/seedscratch -mindepth 1 -delete; cp -a /repo/. /tmp/seedscratch/", shell=True)
    bad = None
    for path, old, new in s["edits"]:
        f = S + "/" + path
        t = open(f).read()
        if t.count(old) != 1:
            bad = "%s: %d matches of %r" % (path, t.count(old), old); break
        # original lines?
        ln = t[:t.index(old)].count("\n") + 1
        n = old.rstrip("\n").count("\n") + 1
        b = run("git blame -s -L %d,+%d %s" % (ln, n, path), S).stdout
        mine = [x for x in b.splitlines() if not x.startswith("^98d8f77")]
        if mine and len(mine) == n: print(s["id"], "WARNING not original:", mine)
        open(f, "w").write(t.replace(old, new))
    if bad: print(s["id"], "BAD", bad); continue
    diff = run("git diff", S).stdout
    if run("go build ./...", S).returncode: print(s["id"], "BAD does not compile:", run("go build ./...", S).stderr); continue
    miss = stable()
    if miss: print(s["id"], "BAD tests fail:", miss[:5]); continue
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go.txt", "w").write(s["test"])
    open(d + "/demo.sh", "w").write(DEMO % {"dir": s["pkg"], "race": "-race" if s.get("race") else ""})
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    e1 = run("bash %s/demo.sh" % d, "/repo")
    e2 = run("DEMO_REPO=%s bash %s/demo.sh" % (S, d), S)
    if e1.returncode or not e2.returncode or "demo" in e2.stderr and "build failed" in e2.stdout:
        print(s["id"], "BAD demo: unchanged", e1.returncode, "patched", e2.returncode, e1.stdout[-800:], e1.stderr[-500:], e2.stdout[-800:])
        shutil.rmtree(d); continue
    print(s["id"], "ok", s["prop"], [l for l in e2.stdout.splitlines() if "Error" in l or "demo" in l or "panic" in l][:1])
