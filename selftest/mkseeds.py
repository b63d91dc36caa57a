#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from selftest/seeds/<id>.py (edits + demo).

Each seeds/<id>.py defines PROP, PKG (package directory the demo test joins,
or "" with SCRIPT for a shell demo), EDITS [(file, old, new)], TEST (source of
the demo test) or SCRIPT, NEEDS, BREAKS.  Every seed is confirmed in a scratch
copy: builds, stable tests pass, demo fails with and passes without it."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:/usr/local/bin:/usr/bin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go")
DEMO = '''#!/bin/bash
# Run with cwd at the repository's root, after a build.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cat >"$t/o.json" <<E
{"Replace": {"$PWD/@PKG@/zz_demo_test.go": "$here/demo_test.go.txt"}}
E
timeout 280 go test @ARGS@ -vet=off -count=1 -overlay "$t/o.json" -run 'TestDemo' ./@PKG@
'''
SHPRE = '''#!/bin/bash
# Run with cwd at the repository's root, after a build.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
go build -o "$t/gen" . || exit 2
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=isinstance(cmd, str), text=True, **k)
GEN = "rm -f xdr.go y.output; go generate . && go build ./..."
def one(name):
    g = {}
    exec(open(os.path.join(H, "seeds", name + ".py")).read(), g)
    d = os.path.join(V, "seeded", name)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        r = os.path.join(t, "repo")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        for f, o, n in g["EDITS"]:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(o) < 1: return "%s: text not found in %s: %r" % (name, f, o)
            open(p, "w").write(s.replace(o, n, 1))
        gf = [f for f, _, _ in g["EDITS"] if f.endswith(".go")]
        if gf: sh(["gofmt", "-l"] + sorted(set(gf)), r)
        diff = sh(["git", "diff"], r).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if g.get("TEST"):
            open(os.path.join(d, "demo_test.go.txt"), "w").write(g["TEST"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@PKG@", g["PKG"]).replace("@ARGS@", g.get("ARGS", "")))
        else:
            open(os.path.join(d, "demo.sh"), "w").write(SHPRE + g["SCRIPT"].lstrip())
        for fn, txt in g.get("FILES", {}).items(): open(os.path.join(d, fn), "w").write(txt.lstrip())
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        b = sh(GEN, r)
        if b.returncode: return name + ": does not build\n" + b.stdout
        b = sh("go test -vet=off -count=1 ./...", r)
        if b.returncode: return name + ": tests fail\n" + b.stdout
        bad = sh(["bash", os.path.join(d, "demo.sh")], r)
        if bad.returncode == 0: return name + ": demo passes with the patch\n" + bad.stdout
        sh("git checkout -q -- .", r); b = sh(GEN, r)
        good = sh(["bash", os.path.join(d, "demo.sh")], r)
        if good.returncode: return name + ": demo fails without the patch\n" + good.stdout
        tail = [l for l in bad.stdout.splitlines() if l.strip()]
        return name + ": ok (%s)" % (tail[0][:110] if tail else "")
    finally:
        shutil.rmtree(t, ignore_errors=True)
names = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(H, "seeds")) if f.endswith(".py"))
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for x in ex.map(one, names): print(x, flush=True)
