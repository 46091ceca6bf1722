"""native build of a contract harness with /repo's real sources; replay and search"""
import concurrent.futures as cf
import hashlib
import os
import re
import shlex
import shutil
import subprocess

from . import build
from .build import BuildError, INC, SRC, VERIF, scratch, sh

HDIR = os.path.join(VERIF, "harness")
CXX = ["g++", "-std=c++11", "-w", "-O1", "-g0", "-ffunction-sections", "-fdata-sections", "-fno-access-control"]
LINK = ["-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all"]


def allsrc():
    """every /repo source the project's own build compiles here"""
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(".cpp"):
                out.append(os.path.relpath(os.path.join(d, f), SRC))
    skip = re.compile(r"^(main|test)\.cpp$|^utility/(dictionary_test|pyglue/(object|pywrapper|type_cast))\.cpp$|_test\.cpp$")
    return sorted(f for f in out if not skip.search(f))


def compile_one(src, extra=(), tag=""):
    path = src if os.path.isabs(src) else os.path.join(SRC, src)
    obj = os.path.join(scratch(), "n_" + tag + re.sub(r"\W", "_", src) + ".o")
    if not os.path.exists(obj):
        sh(CXX + [*extra] + INC + ["-I" + HDIR, "-c", path, "-o", obj])
    return obj


def build_native(harness, sources, tasks, extra=(), out="native", link=()):
    """-> path of the executable"""
    ent = os.path.join(scratch(), "entries_%s.cpp" % out)
    with open(ent, "w") as f:
        f.write("struct Entry { const char* name; void (*fn)(); };\n")
        for t in tasks:
            f.write('extern "C" void vc_task_%s();\n' % t)
        f.write("extern Entry vc_entries[]; extern int vc_nentries;\nEntry vc_entries[] = {\n")
        for t in tasks:
            f.write('{"%s", vc_task_%s},\n' % (t, t))
        f.write("{0, 0}};\nint vc_nentries = %d;\n" % len(tasks))
    srcs = [os.path.join(HDIR, h) for h in harness] + [os.path.join(HDIR, "vcrt.cpp"), ent] + list(sources)
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: compile_one(s, extra), srcs))
    exe = os.path.join(scratch(), out)
    sh(["g++", *objs, *LINK, *link, "-o", exe])
    return exe


def run(exe, args, timeout=300, env=None):
    d = os.path.join(scratch(), "run_%s_%d" % (hashlib.md5(" ".join(args).encode()).hexdigest()[:8], os.getpid()))
    os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=dict(os.environ, **(env or {})),
                           timeout=timeout, cwd=d, errors="replace")
        return p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -1
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parse(out):
    fails, cases, skipped = [], 0, 0
    per = {}
    for l in out.splitlines():
        if l.startswith("FAIL "):
            m = re.match(r"FAIL task=(\S+) obligation=(.*?)((?: [^ =]+=[^ ]*)*)$", l)
            kv = dict(x.split("=", 1) for x in m.group(3).split()) if m else {}
            fails.append({"task": m.group(1) if m else "?", "obligation": m.group(2) if m else l, "inputs": kv})
        m = re.match(r"OK task=(\S+) cases=(\d+) skipped=(\d+) asserts=(\d+)", l)
        if m:
            per[m.group(1)] = (int(m.group(2)), int(m.group(3)), int(m.group(4)))
        m = re.match(r"TOTAL cases=(\d+) skipped=(\d+)", l)
        if m:
            cases, skipped = int(m.group(1)), int(m.group(2))
    return fails, cases, skipped, per
