#!/usr/bin/env python3
"""mkseed.py ID PROPERTY < spec.py: builds /verif/seeded/ID from a spec: variables EDITS=[(file,old,new)], DEMO (Go test source, package + file dir), NEEDS, BREAKS.
Checks in a scratch copy: applies, builds, stable tests pass, demo 0 without and !=0 with the patch."""
import sys, os, subprocess, shutil, json, tempfile
V = "/verif"
sid, prop = sys.argv[1], sys.argv[2]
env = {}
exec(sys.stdin.read(), env)
d = f"{V}/seeded/{sid}"
os.makedirs(d, exist_ok=True)
w = "/tmp/seedwork"
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call(["cp", "-a", "/repo", w])
try:
    for f, old, new in env["EDITS"]:
        p = f"{w}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{f}: {s.count(old)} matches of {old!r}")
        open(p, "w").write(s.replace(old, new))
    pk = env.get("PKG", ".")
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_seed_test.go", "w").write(env["DEMO"])
    race = env.get("FLAGS", "")
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# runs in the repository: an in-package test laid over it
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" HOME=${{HOME:-/root}}
root=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{{\\"Replace\\": {{\\"$root/{pk}/demo_seed_test.go\\": \\"$here/demo_seed_test.go\\"}}}}" > "$t/overlay.json"
{env.get("CD","")}go test {race} -overlay "$t/overlay.json" -count=1 -timeout 120s -run '^TestSeedDemo$' {env.get('TARGET','./'+pk)}
''')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": env["NEEDS"], "what_it_breaks": env["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    t = tempfile.mkdtemp()
    shutil.copytree(d, t + "/s")
    r0 = subprocess.run([t + "/s/demo.sh"], cwd="/repo", capture_output=True, text=True)
    if r0.returncode:
        print(r0.stdout[-2000:], r0.stderr[-2000:]); sys.exit("DEMO FAILS ON CLEAN TREE")
    e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false")
    r = subprocess.run(["go", "vet", "-copylocks=false", "./..."], cwd=w, capture_output=True, text=True, env=e)
    r = subprocess.run(["go", "build", ".", "./gorwp", "./topology", "./ibeam_lib_monogfx"], cwd=w, capture_output=True, text=True, env=e)
    if r.returncode: print(r.stderr); sys.exit("DOES NOT BUILD")
    r = subprocess.run(["go", "test", "-json", "./..."], cwd=w, capture_output=True, text=True, env=e)
    fails = [json.loads(l) for l in r.stdout.splitlines() if '"Action":"fail"' in l]
    fails = [x["Package"] + "/" + x["Test"] for x in fails if "Test" in x]
    st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = [f for f in fails if f in st]
    if bad: sys.exit(f"STABLE TESTS FAIL {bad}")
    r1 = subprocess.run([t + "/s/demo.sh"], cwd=w, capture_output=True, text=True)
    if r1.returncode == 0: sys.exit("DEMO PASSES WITH THE PATCH")
    if "build failed" in r1.stdout or "cannot" in r1.stderr: print(r1.stdout, r1.stderr); sys.exit("demo build failure")
    print("OK", sid, "demo says:", [l for l in r1.stdout.splitlines() if l.strip()][:3])
    shutil.rmtree(t)
finally:
    shutil.rmtree(w, ignore_errors=True)
