#!/usr/bin/env python3
"""try.py FILE.py [ID...]: applies the edits that FILE lists, one at a time, to a copy of /repo and runs the checks they name.
FILE calls t(id, "CHECK ...", [(file, old, new)]) for each. Prints caught/MISSED. The copies are under /tmp/try and are removed."""
import os, re, shutil, subprocess, sys, threading, queue
REPO = "/repo"; W = 3
tries = []
def t(id, checks, edits):
    tries.append((id, checks.split(), edits))
src = open(sys.argv[1]).read()
exec(src, {"t": t, "__name__": "tries"})
only = sys.argv[2:]
q = queue.Queue()
for x in tries:
    if not only or x[0] in only:
        for f, old, new in x[2]:
            n = open(os.path.join(REPO, f)).read().count(old)
            if n != 1:
                print("BAD EDIT", x[0], f, n, "times:", old[:60])
                break
        else:
            q.put(x)
lock = threading.Lock()
def worker(w):
    base = "/tmp/try/w%d" % w
    repo, ver = base + "/repo", base + "/verif"
    os.makedirs(base, exist_ok=True)
    shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns("target", ".git"), dirs_exist_ok=True, symlinks=True)
    shutil.copytree("/verif", ver, ignore=shutil.ignore_patterns("target", ".git", "seeded", "evidence"), dirs_exist_ok=True, symlinks=True)
    os.makedirs(ver + "/evidence", exist_ok=True)
    for d, _, fs in os.walk(ver + "/harness"):
        for f in fs:
            if f.endswith((".toml", ".rs")):
                p = os.path.join(d, f)
                s = open(p).read()
                if "/repo" in s:
                    open(p, "w").write(s.replace("/repo/", repo + "/").replace('"/repo', '"' + repo))
    while True:
        try:
            id, checks, edits = q.get_nowait()
        except queue.Empty:
            return
        saved = {}
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            saved.setdefault(p, s)
            open(p, "w").write(s.replace(old, new))
        res = []
        for c in checks:
            r = subprocess.run([ver + "/check.sh", c], capture_output=True, text=True)
            out = r.stdout + r.stderr
            if r.returncode == 1:
                ls = [l for l in out.splitlines() if "section" in l]
                res.append("caught " + c + " " + (ls[0][:160] if ls else ""))
            elif r.returncode == 0:
                res.append("MISSED " + c)
            else:
                res.append("rc %d %s %s" % (r.returncode, c, out[-900:]))
        for p, s in saved.items():
            open(p, "w").write(s)
        with lock:
            print(id, "|", "; ".join(res), flush=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
[x.start() for x in ts]; [x.join() for x in ts]
shutil.rmtree("/tmp/try", ignore_errors=True)
