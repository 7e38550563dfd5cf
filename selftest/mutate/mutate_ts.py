#!/usr/bin/env python3
"""As mutate.py, for TypeScript: runs the properties which analyse the changed file (of the last all.sh).
usage: mutate_ts.py LIST.jsonl OUT.jsonl [workers]"""
import glob, json, os, queue, re, shutil, subprocess, sys, threading
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.join(here, "..", "..")
props = {}
for f in sorted(glob.glob(verif + "/evidence/S[45]?.json")):
    i = os.path.basename(f)[:3]
    if 40 <= int(i[1:]) <= 56:
        d = json.load(open(f))
        for n in set(re.findall(r"[\w/-]+\.ts", " ".join(d["coverage"].get("functions_analysed", [])))):
            props.setdefault(n, []).append(i)
order = "S41 S56 S49 S42 S43 S52 S44 S46 S51 S47 S54 S45 S50 S55 S40 S48 S53".split()
done = {(d["file"], d["lo"], d["hi"], d["new"]) for d in map(json.loads, open(sys.argv[2]))} if os.path.exists(sys.argv[2]) else set()
q = queue.Queue()
for m in map(json.loads, open(sys.argv[1])):
    if (m["file"], m["lo"], m["hi"], m["new"]) not in done:
        q.put(m)
out, lock, base = open(sys.argv[2], "a"), threading.Lock(), "/tmp/mut/ts%d" % os.getpid()
shutil.copytree(verif + "/ts", base + "/ts", symlinks=True)

def work(n):
    d, ver = "%s/%d/repo" % (base, n), "%s/%d/verif" % (base, n)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "node_modules"), symlinks=True)
    os.makedirs(ver)
    shutil.copy(verif + "/known-findings.txt", ver)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        p = os.path.join(d, m["file"])
        s = open("/repo/" + m["file"], "rb").read()
        open(p, "wb").write(s[:m["lo"]] + m["new"].encode() + s[m["hi"]:])
        res, by = "survived", ""
        for i in sorted(props.get(m["file"], []), key=order.index):
            try:
                r = subprocess.run(["node", base + "/ts/main.mjs", "-repo", d, "-verif", ver, "-property", i], capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired:
                res = "timeout"
                continue
            if "VIOLATION" in r.stdout:
                res, by = "caught", i + " " + r.stdout[:300]
                break
            if r.returncode:
                res, by = "crash", i + " " + r.stderr[-300:]
        open(p, "wb").write(s)
        m["result"], m["by"] = res, by
        with lock:
            out.write(json.dumps(m) + "\n")
            out.flush()

ts = [threading.Thread(target=work, args=(n,)) for n in range(int(sys.argv[3]) if len(sys.argv) > 3 else 8)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree(base)
