#!/usr/bin/env python3
"""Development aid: applies edits to a scratch copy of /repo and lists which checks fire.
usage: refac.py FILE.py [NAME...]   FILE.py defines CASES = {name: [(file, old, new), ...]}"""
import sys, os, shutil, subprocess, importlib.util, concurrent.futures as cf
spec = importlib.util.spec_from_file_location("cases", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
names = sys.argv[2:] or list(m.CASES)
BC = os.environ.get("BC", "/tmp/bc")
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
def one(n):
    d = f"/tmp/rf/{n}"
    shutil.rmtree(d, ignore_errors=True); shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    try:
        for f, old, new in m.CASES[n]:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) != 1: return n, f"EDIT: {f}: {s.count(old)} matches for {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        r = subprocess.run(["go", "vet", "./..."] if False else ["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
        if r.returncode: return n, "BUILD: " + r.stderr[:400]
        r = subprocess.run([BC, "all"] + (os.environ["IDS"].split() if os.environ.get("IDS") else getattr(m, "IDS", [])), env=dict(os.environ, BOOCHECK_REPO=d), capture_output=True, text=True)
        bad = [l for l in r.stdout.split("\n") if not l.rstrip().endswith(", 0 failures") and l.strip()]
        if os.environ.get("V"): return n, "\n".join(l[:700] for l in bad[:40]) or "quiet"
        return n, " ".join(l.split(":")[0] for l in bad if l[:1] in "CX") or ("quiet" if r.stdout else r.stderr[:300])
    finally:
        shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for n, r in ex.map(one, names): print(f"{n}: {r}", flush=True)
