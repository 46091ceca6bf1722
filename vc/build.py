"""compile /repo's current sources to LLVM IR (for the verifier), to layouts,
and to native libraries (for replay).  Everything goes to a private scratch
directory; nothing in /repo is written."""
import atexit
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import tempfile

from . import ir

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
INC = ["-I" + SRC, "-I/usr/include/python3.12", "-I/usr/lib/python3/dist-packages/numpy/core/include"]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_vc_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr[-3000:]))
    return p.stdout


def emit_ir(src, extra=()):
    """src relative to /repo/src, or an absolute path -> parsed module"""
    path = src if os.path.isabs(src) else os.path.join(SRC, src)
    base = os.path.join(scratch(), re.sub(r"\W", "_", src))
    sh(["clang++", "-std=c++11", "-w", "-O1", "-Xclang", "-disable-llvm-passes", "-Xclang", "-mno-constructor-aliases", "-fno-discard-value-names",
        "-S", "-emit-llvm", *[x for x in extra if "/ghost" in x], *INC, *[x for x in extra if "/ghost" not in x], path, "-o", base + ".ll"])
    sh(["opt", "-S", "-passes=sroa,early-cse,simplifycfg", base + ".ll", "-o", base + ".opt.ll"])
    with open(base + ".opt.ll") as f:
        return f.read()


def modules(srcs, extra=()):
    with cf.ThreadPoolExecutor(8) as ex:
        texts = list(ex.map(lambda s: emit_ir(s, extra), srcs))
    return [ir.parse_module(t) for t in texts]


LAYOUT_TU = r'''
#include "module/markov/markov.h"
#include "module/markov/markov_monitor.h"
#include "module/diagram/diagram.h"
#include "module/parameter/parameter.h"
#include "module/weight/weight.h"
#include "module/weight/component.h"
#include "module/weight/gamma3.h"
int s = sizeof(mc::Markov)+sizeof(mc::MarkovMonitor)+sizeof(diag::Diagram)+sizeof(para::ParaMC)
 +sizeof(weight::Weight)+sizeof(weight::GClass)+sizeof(weight::WClass)+sizeof(weight::SigmaClass)
 +sizeof(weight::PolarClass)+sizeof(weight::GammaGClass)+sizeof(weight::GammaWClass)
 +sizeof(Estimator<real>)+sizeof(Estimator<Complex>)+sizeof(weight::WeightArray<6>)+sizeof(weight::WeightArray<7>);
'''


class Layout:
    """byte offsets of members, from clang's record layout dump"""

    def __init__(self, text):
        self.rec = {}       # record name -> {"": size, "a.b": (off, type)}
        cur, stack, first = None, [], None
        for line in text.splitlines():
            if line.startswith("*** Dumping"):
                cur = None
                continue
            m = re.match(r"^ *(\d+)(?::[\d-]+)? \|( +)(.*)$", line)
            m2 = re.match(r"^ +\| +\[sizeof=(\d+)", line)
            if m2 and cur is not None:
                cur[""] = int(m2.group(1))
                cur = None
                continue
            if not m:
                continue
            off, ind, rest = int(m.group(1)), (len(m.group(2)) - 1) // 2, m.group(3)
            if cur is None:
                name = re.sub(r"^(class|struct|union) ", "", rest)
                name = re.sub(r" \(empty\)$", "", name)
                cur = {}
                self.rec.setdefault(name, cur)
                cur = self.rec[name]
                stack = []
                continue
            if rest.endswith("(base)") or rest.endswith("(base) (empty)") or rest.endswith("(primary base)"):
                fname, fty = None, rest.split(" (")[0]
            else:
                mm = re.match(r"^(.*?) ?([A-Za-z_]\w*)$", rest)
                fname, fty = (mm.group(2), mm.group(1)) if mm else (rest, "")
            stack = stack[:ind - 1] + [fname]
            path = ".".join(x for x in stack if x)
            if fname and path not in cur:
                cur[path] = (off, re.sub(r"\b(class|struct|union) ", "", fty).strip())

    def off(self, rec, path):
        r = self.rec.get(rec)
        if r is None:
            raise BuildError("no record " + rec)
        if path not in r:
            raise BuildError("no member %s::%s" % (rec, path))
        return r[path][0]

    def size(self, rec):
        return self.rec[rec][""]

    def __call__(self, rec, path):
        return self.off(rec, path)


def layout():
    p = os.path.join(scratch(), "layout.cpp")
    with open(p, "w") as f:
        f.write(LAYOUT_TU)
    out = sh(["clang++", "-std=c++11", "-w", "-fsyntax-only", "-Xclang", "-fdump-record-layouts", *INC, p])
    return Layout(out)
