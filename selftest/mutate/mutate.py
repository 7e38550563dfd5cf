#!/usr/bin/env python3
"""Runs every rule of the Go analysis against small changes of the Go files.
usage: mutate.py LIST.jsonl OUT.jsonl [workers]   (LIST is made by mutate.go)
OUT has a line for each change: nocompile, caught (with the first property), or survived."""
import json, os, queue, shutil, subprocess, sys, threading
here = os.path.dirname(os.path.abspath(__file__))
tool = os.path.abspath(os.path.join(here, "..", "..", "bin", "starpccheck"))
todo = [json.loads(l) for l in open(sys.argv[1])]
out = open(sys.argv[2], "a")
done = set()
for l in open(sys.argv[2]):
    d = json.loads(l)
    done.add((d["file"], d["lo"], d["hi"], d["new"]))
q = queue.Queue()
for m in todo:
    if (m["file"], m["lo"], m["hi"], m["new"]) not in done:
        q.put(m)
lock = threading.Lock()
base = "/tmp/mut/%d" % os.getpid()
shutil.copy(tool, "/tmp/mut/tool.%d" % os.getpid())
tool = "/tmp/mut/tool.%d" % os.getpid()

def work(n):
    d, ver = "%s/%d/repo" % (base, n), "%s/%d/verif" % (base, n)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "node_modules"))
    os.makedirs(ver)
    shutil.copy(os.path.join(here, "..", "..", "known-findings.txt"), ver)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        p = os.path.join(d, m["file"])
        s = open("/repo/" + m["file"], "rb").read()
        open(p, "wb").write(s[:m["lo"]] + m["new"].encode() + s[m["hi"]:])
        r = subprocess.Popen([tool, "-repo", d, "-verif", ver, "-property", "all"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, GOMAXPROCS="2", GOGC="300"))
        t = threading.Timer(180, r.kill)
        t.start()
        res, by, prev = "survived", "", ""
        for l in r.stdout:
            if l.startswith("VIOLATION"):
                res, by = "caught", l.split("property=")[1].split()[0] + " " + prev
                break
            if not l.startswith("OK "):
                prev += l.strip()[:300] + " "
        r.kill()
        r.wait()
        t.cancel()
        if res == "survived" and r.returncode not in (0, -9):
            res = "crash"
        if "could not be analysed: load" in by:
            res, by = "nocompile", ""
        open(p, "wb").write(s)
        m["result"], m["by"] = res, by[:300]
        with lock:
            out.write(json.dumps(m) + "\n")
            out.flush()

ts = [threading.Thread(target=work, args=(n,)) for n in range(int(sys.argv[3]) if len(sys.argv) > 3 else 8)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree(base)
