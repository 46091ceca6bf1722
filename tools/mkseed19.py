#!/usr/bin/env python3
"""plants the bugs of the save/restore code: the demos compile /repo's sources on the stand-in of the Python value layer, copied beside them"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = os.path.join(HERE, "..", "seeded")
ns = {}; exec(open(sys.argv[1]).read(), ns)
SRC = ["module/parameter/parameter.cpp", "module/diagram/diagram_IO.cpp", "module/diagram/diagram.cpp", "module/diagram/component_bundle.cpp", "module/diagram/component.cpp", "module/weight/weight_array.cpp", "module/weight/weight_estimator.cpp", "module/weight/component.cpp", "module/weight/component_MC.cpp", "module/weight/index_map.cpp", "module/weight/gamma3.cpp", "estimator/estimator.cpp", "utility/dictionary.cpp", "utility/vector.cpp", "utility/complex.cpp", "lattice/lattice.cpp", "utility/utility.cpp", "utility/momentum.cpp", "utility/rng.cpp", "utility/logger.cpp", "utility/abort.cpp"]
SH = '''#!/bin/bash
# exit 0 when the property holds on this input, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
src=$PWD/src
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
n=0
for f in %s; do
  n=$((n+1)); g++ -std=c++11 -w -O1 -fno-access-control -ffunction-sections -fdata-sections -I"$here/glue" -I"$src" -c "$src/$f" -o "$t/o$n.o" & [ $((n %% 8)) = 0 ] && wait
done
g++ -std=c++11 -w -O1 -fno-access-control -ffunction-sections -fdata-sections -I"$here/glue" -I"$src" -c "$here/demo.cpp" -o "$t/d.o" || exit 3
wait
g++ "$t"/*.o -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -o "$t/demo" || exit 3
cd "$t" && timeout 200 ./demo > /dev/null
''' % " ".join(SRC)
for s in ns["SEEDS"]:
    if sys.argv[2:] and s["id"] not in sys.argv[2:]: continue
    d = os.path.join(OUT, s["id"]); os.makedirs(d + "/glue/utility/pyglue", exist_ok=True)
    shutil.copy(os.path.join(HERE, "../harness/ghost/utility/pyglue/pywrapper.h"), d + "/glue/utility/pyglue/")
    open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755); open(d + "/demo.cpp", "w").write(s["demo"])
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -Af && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True, check=True)
        r0 = subprocess.run([d + "/demo.sh"], cwd=w).returncode
        for f, old, new in s["edits"]:
            p = os.path.join(w, f); t = open(p, errors="surrogateescape").read()
            if t.count(old) != 1: raise SystemExit("%s: %d matches of %r" % (s["id"], t.count(old), old))
            open(p, "w", errors="surrogateescape").write(t.replace(old, new))
        open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, check=True).stdout)
        r1 = subprocess.run([d + "/demo.sh"], cwd=w).returncode
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("%s: unchanged %d, planted %d %s" % (s["id"], r0, r1, "ok" if r0 == 0 and r1 not in (0, 3) else "*** BAD"), flush=True)
    finally:
        shutil.rmtree(w)
