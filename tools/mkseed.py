#!/usr/bin/env python3
"""helper to plant a bug: tools/mkseed.py spec.py  (spec defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, sources, needs, breaks)])"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "seeded")
DEMO = '''#!/bin/bash
# exit 0 when the property holds on this input, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
src=$PWD/src
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
%s
cd "$t" && timeout 200 ./demo
'''
ALL = r'''n=0
for f in $(cd "$src" && find . -name '*.cpp' | grep -v -e '_test\.cpp$' -e '^./main\.cpp$' -e '^./test\.cpp$' -e dictionary_test -e 'pyglue/object' -e 'pyglue/pywrapper' -e 'pyglue/type_cast'); do
  n=$((n+1)); g++ -std=c++11 -w -O1 -fno-access-control -ffunction-sections -fdata-sections $INC -c "$src/$f" -o "$t/o$n.o" & [ $((n % 8)) = 0 ] && wait
done
g++ -std=c++11 -w -O1 -fno-access-control -ffunction-sections -fdata-sections $INC -c "$here/demo.cpp" -o "$t/d.o" || exit 3
wait
g++ "$t"/*.o -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -o "$t/demo" || exit 3'''
SOME = '''g++ -std=c++11 -w -O1 -fno-access-control -ffunction-sections -fdata-sections $INC "$here/demo.cpp" %s -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -o "$t/demo" || exit 3'''
CHAIN = '''#include "markov.h"
VC_TASK(chain) { chain_task(%s); }
struct Entry { const char* name; void (*fn)(); };
extern Entry vc_entries[]; extern int vc_nentries;
Entry vc_entries[] = {{"chain", vc_task_chain}, {0, 0}};
int vc_nentries = 1;
'''
RUN = '''export VC_FOCUS=FOCUS
for i in 1 2 3 4 5 6 7 8; do (timeout 100 ./demo search $i 25 only=chain > out$i 2>&1) & done; wait
cat out? | grep -v '^OK\\|^TOTAL' | head -3
grep -q '^TOTAL' out1 || exit 2
! grep -q '^FAIL' out?'''
sys.path.insert(0, os.path.join(HERE, ".."))
from vc import build
INC = 'INC="%s"\n' % " ".join(build.INC).replace(build.SRC, "$src")

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(OUT, s["id"])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="seed_")
        try:
            subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
            subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -Af && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True, check=True)
            body = INC + (ALL if s["sources"] == "all" else SOME % " ".join('"$src/%s"' % x for x in s["sources"]))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % body)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            run = RUN
            if "harness" in s:
                shutil.copy(os.path.join(HERE, "..", "harness", s["harness"] + ".cpp"), d)
                HT = s["tasks"]
                run = RUN.replace("only=chain", "")
                s["chain"] = None
            if "chain" in s:
                # random chains of updates on the compiled code, every state and transition checked
                for f in ("markov.h", "weights.h", "rngctl.h", "vc.h", "vcrt.cpp"):
                    shutil.copy(os.path.join(HERE, "..", "harness", f), d)
                s["demo"] = CHAIN % s["chain"] if s["chain"] else '#include "%s.cpp"\nstruct Entry { const char* name; void (*fn)(); };\nextern Entry vc_entries[]; extern int vc_nentries;\nEntry vc_entries[] = {%s, {0, 0}};\nint vc_nentries = %d;\n' % (s["harness"], ", ".join('{"%s", vc_task_%s}' % (t, t) for t in HT), len(HT))
                sh = open(os.path.join(d, "demo.sh")).read()
                sh = sh.replace('$INC -c "$here/demo.cpp"', '$INC -I"$src" -I"$here" -c "$here/demo.cpp"').replace("|| exit 3\nwait", "|| exit 3\ng++ -std=c++11 -w -O1 -c \"$here/vcrt.cpp\" -o \"$t/r.o\" || exit 3\nwait", 1).replace("timeout 200 ./demo", run.replace("FOCUS", s.get("focus", "")))
                open(os.path.join(d, "demo.sh"), "w").write(sh)
            open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
            r0 = subprocess.run([os.path.join(d, "demo.sh")], cwd=w).returncode
            for f, old, new in s["edits"]:
                p = os.path.join(w, f)
                t = open(p, errors="surrogateescape").read()
                if t.count(old) != 1:
                    raise SystemExit("%s: %d matches of %r in %s" % (s["id"], t.count(old), old, f))
                open(p, "w", errors="surrogateescape").write(t.replace(old, new))
            df = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, check=True).stdout
            open(os.path.join(d, "patch.diff"), "wb").write(df)
            r1 = subprocess.run([os.path.join(d, "demo.sh")], cwd=w).returncode
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            print("%s: unchanged %d, planted %d %s" % (s["id"], r0, r1, "ok" if r0 == 0 and r1 not in (0, 3) else "*** BAD"))
        finally:
            shutil.rmtree(w)
main()
