#!/usr/bin/env python3
"""Self-test of the rules: each mutant has to be reported by the rules of its
property, each refactoring has to leave every rule quiet.
usage: run.py [-k substring] [-r] [-m]"""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from cases import MUTANTS, REFACTORINGS
import blind1, blind2, blind3, blind4, blindm
import cases_ts, cases_echo, cases_text, cases_mut, blind5
MUTANTS = MUTANTS + cases_ts.MUTANTS
REFACTORINGS = REFACTORINGS + cases_ts.REFACTORINGS
TOOL = os.path.join(here, "..", "bin", "starpccheck")

TS = ["node", os.path.join(here, "..", "ts", "main.mjs")]

def tools(q, edits):
    if q != "all":
        return [TS if 40 <= int(q[1:]) <= 56 else [TOOL]]
    ts = [f.endswith((".ts", ".proto")) for f, _, _ in edits]
    return ([TS] if any(ts) else []) + ([[TOOL]] if not all(f.endswith(".ts") for f, _, _ in edits) else [])

def touching(edits):
    "The properties which analyse one of the files (of the last run of all.sh)."
    import glob, json
    out = []
    for f in sorted(glob.glob(os.path.join(here, "..", "evidence", "S??.json"))):
        d = json.load(open(f))
        fns = " ".join(d.get("coverage", {}).get("functions_analysed", []))
        if any(e[0] in fns for e in edits):
            out.append(d["property"])
    return out

def prep(d, edits):
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "node_modules"))
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1:
            return "edit does not apply: %s: %r" % (f, old)
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
    if all(f.endswith(".ts") for f, _, _ in edits):
        return None
    env = dict(os.environ, GOFLAGS="-mod=readonly", GOTOOLCHAIN="local")
    env["PATH"] = "/opt/veriftools/go1.24.13/bin:" + env["PATH"]
    r = subprocess.run(["go", "vet", "-unusedresult=false", "./srpc", "./rpcstream"], cwd=d, env=env, capture_output=True, text=True) if 0 else \
        subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
    if not r.returncode and any(f.endswith("_js.go") for f, _, _ in edits):
        r = subprocess.run(["go", "build", "./srpc"], cwd=d, env=dict(env, GOOS="js", GOARCH="wasm"), capture_output=True, text=True)
    if r.returncode:
        return "does not compile: " + r.stdout + r.stderr
    return None

def one(case, kind):
    if kind == "m":
        prop, name, edits = case
    else:
        name, edits = case
        prop = "all"
    tmp = tempfile.mkdtemp(prefix="starpc-self-")
    try:
        d = os.path.join(tmp, "repo")
        e = prep(d, edits)
        if e:
            return name, "BROKEN", e
        ver = os.path.join(tmp, "verif")
        os.mkdir(ver)
        shutil.copy(os.path.join(here, "..", "known-findings.txt"), ver) if os.path.exists(os.path.join(here, "..", "known-findings.txt")) else None
        props = prop if isinstance(prop, list) else [prop]
        if prop == "all" and all(f.endswith(".ts") for f, _, _ in edits):
            props = touching(edits) or props
        out, hit = "", []
        for q in props:
            for cmd in tools(q, edits):
                r = subprocess.run(cmd + ["-repo", d, "-verif", ver, "-property", q], capture_output=True, text=True)
                out += r.stdout + r.stderr
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    hit.append(q)
        if kind == "m":
            miss = [q for q in props if q not in hit]
            return name, "ok" if not miss else "MISSED", out if miss else out.splitlines()[0][:220]
        bad = "VIOLATION" in out
        return name, "FALSE ALARM" if bad else "ok", "\n".join(l for l in out.splitlines() if not l.startswith("OK ")) if bad else ""
    finally:
        shutil.rmtree(tmp)

args = sys.argv[1:]
k = args[args.index("-k") + 1] if "-k" in args else ""
jobs = []
with cf.ThreadPoolExecutor(8) as ex:
    if "-r" not in args:
        for m in MUTANTS:
            if k in m[1] or k in str(m[0]):
                jobs.append((m[0], ex.submit(one, m, "m")))
    if "-m" not in args:
        for m in REFACTORINGS:
            if k in m[0]:
                jobs.append(("refactoring", ex.submit(one, m, "r")))
    bad = 0
    for p, j in jobs:
        n, s, o = j.result()
        print(s, p, n, ":", o if s != "ok" or "-v" in args else "")
        bad += s != "ok"
print(len(jobs), "cases,", bad, "unexpected")
sys.exit(1 if bad else 0)
