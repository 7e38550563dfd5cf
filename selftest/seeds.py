#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the list in seedlist.py: makes the change in
a scratch copy of /repo, confirms that it builds, passes the stable tests and
that the demonstration passes without it and fails with it, and records it.

usage: seeds.py [-k substr] [-n (verify what is there only)]"""
import json, os, shutil, subprocess, sys, tempfile, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=readonly", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package with an overlay; run with cwd /repo.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("-n", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    from seedlist import SEEDS
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = 0
    for s in SEEDS:
        if a.k not in s["id"] and a.k != s["prop"]:
            continue
        out = os.path.join(VERIF, "seeded", s["id"])
        tmp = tempfile.mkdtemp(prefix="starpc-seed-")
        try:
            repo = os.path.join(tmp, "repo")
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            sh(["git", "checkout", "-q", "--", "."], repo)
            os.makedirs(out, exist_ok=True)
            if not a.n:
                open(os.path.join(out, "demo_test.go"), "w").write(s["test"].lstrip("\n"))
                p = os.path.join(out, "demo.sh")
                open(p, "w").write(DEMO % {"pkg": s["pkg"]})
                os.chmod(p, 0o755)
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                          open(os.path.join(out, "meta.json"), "w"), indent=1)
            r = sh(["bash", os.path.join(out, "demo.sh")], repo)
            if r.returncode != 0:
                print("BAD", s["id"], "demo fails without the change\n", r.stdout[-1500:]); bad += 1; continue
            for f, old, new in s["edits"]:
                fp = os.path.join(repo, f)
                t = open(fp).read()
                if t.count(old) != 1:
                    print("BAD", s["id"], "text found", t.count(old), "times in", f, repr(old[:60])); bad += 1; break
                open(fp, "w").write(t.replace(old, new))
            else:
                if not a.n:
                    d = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, check=True).stdout
                    open(os.path.join(out, "patch.diff"), "wb").write(d)
                r = sh(["go", "build", "./..."], repo)
                if r.returncode != 0:
                    print("BAD", s["id"], "does not build\n", r.stdout[-1500:]); bad += 1; continue
                r = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], repo)
                res = {}
                for l in r.stdout.splitlines():
                    try:
                        e = json.loads(l)
                    except ValueError:
                        continue
                    if e.get("Test") and e["Action"] in ("pass", "fail"):
                        res[e["Package"] + "/" + e["Test"]] = e["Action"]
                f = [t for t in stable if res.get(t) != "pass"]
                if f:
                    print("BAD", s["id"], "fails the tests", f); bad += 1; continue
                r = sh(["bash", os.path.join(out, "demo.sh")], repo)
                if r.returncode == 0:
                    print("BAD", s["id"], "demo passes with the change"); bad += 1; continue
                print("ok", s["id"], s["prop"], [l.strip() for l in r.stdout.splitlines() if "demo_test.go" in l or "panic:" in l][:1])
        finally:
            shutil.rmtree(tmp)
    sys.exit(1 if bad else 0)

main()
