#!/usr/bin/env python3
"""Plant a bug: make its patch, confirm it (builds, stable tests pass, demonstration separates), keep it
under seeded/<id>/ and say whether the property's check catches it.

seed.py verify ID...   confirm kept bugs again        seed.py check ID... [--prop P]   run the check only"""
import json, os, re, shutil, subprocess, sys

V = "/verif"
WT = os.environ.get("SEED_WT", "/tmp/seedwt")

DEMO = r'''#!/bin/bash
# runs TestZZDemo in package %(pkg)s of the working tree: 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=1
echo "{\"Replace\":{\"$PWD/%(pkg)s/zz_demo_test.go\":\"$D/demo_test.go\"}}" > "$T/ov.json"
go test -tags 'ledger test_ledger_mock' -vet=off -count=1 -timeout 280s -overlay "$T/ov.json" -run '^TestZZDemo' ./%(pkg)s
'''

env = dict(os.environ)
for line in open(V + "/env.sh"):
    m = re.match(r"export (.*)$", line.strip())
    if m:
        for k, q, u in re.findall(r"(\w+)=(?:'([^']*)'|(\S*))", m.group(1)):
            env[k] = q or u
TAGS = env["VTAGS"]

def sh(cmd, cwd=WT, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str), **kw)
    return p.returncode, p.stdout

def fresh():
    if not os.path.isdir(WT):
        sh(["git", "clone", "-q", "/repo", WT], cwd="/tmp")
    sh("git fetch -q origin && git checkout -qf --detach origin/HEAD 2>/dev/null || git checkout -qf origin/master; git reset -q --hard; git clean -fdq")
    want = sh("git rev-parse HEAD", cwd="/repo")[1].strip()
    sh(["git", "checkout", "-qf", want])
    assert sh("git rev-parse HEAD")[1].strip() == want

def tests():
    rc, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "-tags", TAGS, "./...", "./integration-tests/..."])
    ok = set()
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("Action") == "pass" and d.get("Test"):
            ok.add(d["Package"] + "/" + d["Test"])
    miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
    return miss

def original(files):
    """lines the patch removes must be lines of the original repository"""
    base = sh("git rev-list --max-parents=0 HEAD", cwd="/repo")[1].split()[0]
    return base

def confirm(id, skip_tests=False):
    d = f"{V}/seeded/{id}"
    fresh()
    rc, out = sh(["bash", d + "/demo.sh"])
    if rc != 0:
        return "demo fails on the clean tree\n" + out[-3000:]
    rc, out = sh(["git", "apply", d + "/patch.diff"])
    if rc != 0:
        return "patch does not apply " + out
    rc, out = sh(["go", "build", "-tags", TAGS, "./..."])
    if rc != 0:
        return "build fails\n" + out[-2000:]
    rc, out = sh(["bash", d + "/demo.sh"])
    if rc == 0:
        return "demo passes with the patch"
    if "--- FAIL: TestZZDemo" not in out:
        return "demo did not run\n" + out[-3000:]
    print("   demo:", " | ".join(l.strip() for l in out.splitlines() if "Error" in l or "expected" in l or "actual" in l or "demo_test.go" in l)[:400])
    if not skip_tests:
        miss = tests()
        if miss:
            return "existing tests fail: %s" % miss[:6]
    return ""

def check(id, prop=None, tier="quick"):
    d = f"{V}/seeded/{id}"
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    fresh()
    sh(["git", "apply", d + "/patch.diff"])
    e = dict(env, VERIF_REPO=WT, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    p = subprocess.run([sys.executable, V + "/run.py", prop, tier], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    hit = p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout
    return hit, p.stdout

def plant(id, prop, edits, pkg, demo, needs, breaks, run=True, tests_too=True):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    fresh()
    for f, old, new in edits:
        p = f"{WT}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT DOES NOT MATCH", f, s.count(old)); return
        open(p, "w").write(s.replace(old, new))
    sh(["gofmt", "-l"] + [f for f, _, _ in edits])
    diff = sh(["git", "diff"])[1]
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    err = confirm(id, not tests_too)
    if err:
        print(id, "NOT CONFIRMED:", err)
        return
    print(id, "confirmed")
    if run:
        hit, out = check(id)
        print(id, "CAUGHT" if hit else "MISSED", out[-600:] if hit else out[-1500:])

if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    prop = None
    if "--prop" in sys.argv:
        prop = sys.argv[sys.argv.index("--prop") + 1]; ids.remove(prop)
    for i in ids or sorted(os.listdir(V + "/seeded")):
        if sys.argv[1] == "verify":
            print(i, confirm(i) or "confirmed", flush=True)
        hit, out = check(i, prop)
        print(i, "CAUGHT" if hit else "MISSED", out.strip().splitlines()[-1][:300], flush=True)
        if not hit or "--v" in sys.argv: print(out[-1500:], flush=True)
