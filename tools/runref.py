#!/usr/bin/env python3
"""tools/runref.py FILE [ID...]: the checks named with a behaviour-preserving edit, on a scratch copy with the edit"""
import os, shutil, subprocess, sys, tempfile
ns = {}; exec(open(sys.argv[1]).read(), ns)
for name, pids, edits in ns["R"]:
    if sys.argv[2:] and name.split()[0] not in sys.argv[2:]: continue
    w = tempfile.mkdtemp(prefix="ref_")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s" % w, shell=True, check=True)
        for f, old, new, *cnt in edits:
            p = os.path.join(w, f); t = open(p, errors="surrogateescape").read()
            if t.count(old) < 1: raise SystemExit("%s: no match %r" % (name, old[:60]))
            open(p, "w", errors="surrogateescape").write(t.replace(old, new, *(cnt or [1])))
        for pid in pids:
            try:
                r = subprocess.run(["./check", pid], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                o = [l for l in r.stdout.splitlines() if "obligation" in l or "VIOLATION" in l or "rror" in l]
                print(name.split()[0], pid, "rc=%d" % r.returncode, "quiet" if r.returncode == 0 else "ALARM " + " | ".join(x[:220] for x in o[:3]), flush=True)
            except subprocess.TimeoutExpired:
                print(name.split()[0], pid, "TIMEOUT", flush=True)
    finally:
        shutil.rmtree(w)
