#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a description in tools/plants/<id>.py and confirms it:
patch applies, the tree builds, the stable tests pass with it, the demonstration passes
without it and fails with it.   tools/plant.py [-notest] ID..."""
import sys, os, subprocess, json, shutil, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: the property holds in this demonstration; non-zero: it does not
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 3
trap 'chmod -R u+rwx "${t:?}"; rm -rf -- "${t:?}"' EXIT
cp go.mod go.sum "$t/" || exit 3
(cd / && GOFLAGS= go mod edit -require=github.com/stretchr/testify@v1.5.1 "$t/go.mod") || exit 3
printf '{"Replace":{"%s/{PKG}/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" >"$t/ov.json"
mkdir -p "$t/home" && export SCOUTER_AGENT_HOME=$t/home DEMO_DIR=$t/home
{ENV}
go test -count=1 -timeout 100s -modfile="$t/go.mod" -overlay="$t/ov.json" -run '^TestDemo' "./{PKG}"
'''
def sh(c, cwd=None, env=None):
    r = subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, env=env)
    return r.returncode, r.stdout + r.stderr
def plant(i, test=True):
    d = runpy.run_path(f"{V}/tools/plants/{i}.py")
    out = f"{V}/seeded/{i}"
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {tmp}")
        sh("git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", tmp)
        for f, a, b in d["edits"]:
            s = open(f"{tmp}/{f}").read()
            if s.count(a) != 1:
                return f"{i}: edit matches {s.count(a)} times in {f}: {a[:60]!r}"
            open(f"{tmp}/{f}", "w").write(s.replace(a, b))
        rc, diff = sh("git diff", tmp)
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        pkg = d["pkg"]
        open(f"{out}/demo.sh", "w").write(DEMO.replace("{PKG}", pkg).replace("{ENV}", d.get("env", ":")))
        open(f"{out}/demo_test.go", "w").write(d["demo"].lstrip())
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
        rc, o = sh("git -C /repo apply --check " + out + "/patch.diff")
        if rc: return f"{i}: does not apply: {o}"
        sh("git checkout -q .", tmp)
        rc, o = sh(f"bash {out}/demo.sh", tmp)
        if rc: return f"{i}: demo fails on the clean tree: {o[-1500:]}"
        sh(f"git apply {out}/patch.diff", tmp)
        env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="0")
        rc, o = sh("go build ./...", tmp, env)
        if rc: return f"{i}: does not build: {o[-800:]}"
        rc, o = sh(f"bash {out}/demo.sh", tmp)
        if rc == 0: return f"{i}: demo passes with the patch"
        if "FAIL" not in o or "build failed" in o: return f"{i}: demo does not run: {o[-800:]}"
        msg = [l for l in o.splitlines() if "demo_test.go" in l or "panic" in l][:2]
        if test:
            # the stable tests, in place, undone straight afterwards
            sh(f"git -C /repo apply {out}/patch.diff")
            try:
                sh("bash /opt/vp/build.sh"); sh(f"bash /opt/vp/test.sh {tmp}/o.json")
            finally:
                sh("git -C /repo checkout -- .")
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            got = set(map(str, json.load(open(f"{tmp}/o.json"))["passed"]))
            miss = [x for x in base if str(x) not in got]
            if miss: return f"{i}: stable tests fail: {miss[:5]}"
        return f"{i}: ok ({d['prop']}) {' '.join(msg)[:200]}"
    finally:
        sh(f"chmod -R u+rwx {tmp}"); shutil.rmtree(tmp)
a = sys.argv[1:]
t = "-notest" not in a
for i in [x for x in a if x[0] != "-"]:
    print(plant(i, t), flush=True)
