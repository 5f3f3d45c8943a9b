#!/usr/bin/env python3
"""tools/seedtest.py [--demo-only] ID...: validates seeded bugs in a scratch worktree and runs the property's check against them.
Extra checks to run: ID:C07,C12"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
def build(wt):
    r = run(["sh", "-c", "goyacc -o xdr.go -p xdr xdr.y && go build ./... && go vet ./xdr >/dev/null 2>&1; go build ./..."], wt, env=env)
    if r.returncode: return "BUILD " + r.stdout[-800:]
    r = run(["go", "test", "-count=1", "./..."], wt, env=env)
    if r.returncode: return "TESTS " + r.stdout[-800:]
    return None
def one(spec, demo_only):
    sid, _, extra = spec.partition(":")
    d = os.path.join(ROOT, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    base = tempfile.mkdtemp(prefix="seed-")
    wt, dd = os.path.join(base, "repo"), os.path.join(base, "demo")
    try:
        r = run(["git", "clone", "-q", "/repo", wt], "/")
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        e = build(wt)
        if e: return "clean " + e
        r = run(["bash", os.path.join(dd, "demo.sh")], wt, env=env)
        if r.returncode: return "DEMO FAILS ON CLEAN\n" + r.stdout[-1500:]
        r = run(["git", "apply", os.path.join(d, "patch.diff")], wt)
        if r.returncode: return "PATCH " + r.stdout
        e = build(wt)
        if e: return e
        r = run(["bash", os.path.join(dd, "demo.sh")], wt, env=env, timeout=300)
        if r.returncode == 0: return "DEMO PASSES WITH PATCH"
        tail = r.stdout.strip().splitlines()[-6:]
        if demo_only: return "ok: " + " | ".join(tail)[:500]
        res = []
        for c in [meta["property"]] + [x for x in extra.split(",") if x]:
            r = run([os.path.join(ROOT, "bin/check"), c], ROOT, env=dict(os.environ, VERIF_REPO=wt, VERIF_EVIDENCE=os.path.join(base, "ev"), VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            l = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION") or x.startswith("  ")]
            res.append("%s %s" % (c, "CAUGHT " + (l[1].strip() if len(l) > 1 else "")[:230] if r.returncode == 1 and l else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])))
        return "; ".join(res)
    finally:
        shutil.rmtree(base, ignore_errors=True)
args = sys.argv[1:]
demo_only = "--demo-only" in args
args = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
for a in args:
    print(a, "::", one(a, demo_only), flush=True)
