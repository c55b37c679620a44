#!/usr/bin/env python3
"""Makes and confirms planted bugs: seed.py FILE.py [ID...], FILE.py defining SEEDS = [dict(id, property, edits=[(file, old, new)], pkg, test, needs, breaks)].
Each is built in a scratch copy, must compile, keep the stable tests passing, and its demo must pass without and fail with it."""
import json, os, subprocess, sys, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# Runs in /repo. Fails when the planted change is present.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$repo/%(pkg)s/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\"}}" > "$tmp/ov.json"
cd "$repo" && TMPDIR=$tmp timeout 250 go test %(race)s -count=1 -vet=off -overlay "$tmp/ov.json" -run '^TestPlanted$' ./%(pkg)s > "$tmp/out" 2>&1
rc=$?
tail -15 "$tmp/out"
grep -q "build failed\\|setup failed" "$tmp/out" && exit 3
grep -q "no tests to run" "$tmp/out" && exit 4
exit $rc
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
for s in spec["SEEDS"]:
    if only and s["id"] not in only: continue
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    w = d + "/repo"
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        for f, old, new in s["edits"]:
            t = open(f"{w}/{f}").read()
            if t.count(old) != 1: print(s["id"], "EDIT not unique/absent:", f, t.count(old), repr(old[:60])); raise SystemExit(1)
            open(f"{w}/{f}", "w").write(t.replace(old, new))
        out = f"/verif/seeded/{s['id']}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(sh("git diff", w).stdout)
        open(out + "/demo.sh", "w").write(DEMO % dict(pkg=s["pkg"], race="-race" if s.get("race") else ""))
        open(out + "/demo_test.go.txt", "w").write(s["test"])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
        bad = sh(f"bash {out}/demo.sh", w, env=env)
        b = sh("go build ./... && go vet ./... 2>&1 | grep -i 'cannot\\|undefined' ; go test ./... 2>&1 | grep -a '^--- \\|^ok\\|^FAIL'", w, env=env)
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=w)
        good = sh(f"bash {out}/demo.sh", w, env=env)
        base = sh("go test ./... 2>&1 | grep -a '^--- \\|^ok\\|^FAIL'", w, env=env)
        strip = lambda t: sorted(l.split(" (")[0].split("\t")[0] + (l.split("\t")[1] if l.count("\t") > 1 else "") for l in t.splitlines())
        ok = good.returncode == 0 and bad.returncode not in (0, 3, 4)
        print(s["id"], "OK" if ok else "PROBLEM", "clean rc", good.returncode, "planted rc", bad.returncode, "tests", "same" if strip(b.stdout) == strip(base.stdout) else "DIFFER\n" + b.stdout + base.stdout + b.stderr)
        if not ok: print(good.stdout[-1500:], bad.stdout[-1500:])
    finally:
        shutil.rmtree(d)
