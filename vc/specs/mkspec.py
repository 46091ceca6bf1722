"""the parts common to the checks of the Monte Carlo updates (C04..C10)"""
from .. import native as _n
from . import markov

SOURCES = markov.SOURCES
NATIVE = _n.allsrc()
OPS = [i for i in range(23) if markov.NAMES[i]]
COMMON = ["the diagram an update starts from is any diagram satisfying the invariants of C04-C08 (each proved to be preserved by every update); "
          "objects beyond the ones the update reaches stay symbolic (lazy initialisation), which is exhaustive because the code reaches them only through the materialised pointers",
          "random numbers are arbitrary values of their contracts (C16); pools by contract (C03), momentum by contract (C01), complex by contract (C02), weights by contract (C13)",
          "aborting updates are excluded here: C04 proves that no update aborts"]


def fill(g, pid, covers=True):
    g.update(HARNESS=[], NATIVE_HARNESS=["%s.cpp" % pid.lower()], SOURCES=SOURCES, NATIVE=NATIVE, NEED_LAYOUT=True, NATIVE_ONLY=["chain"], NATIVE_SECS=8,
             TRUSTED=["vc/specs/mkheap.py (lazy symbolic diagram), vc/specs/markov.py (transition contracts)"], ASSUME=COMMON + g.get("EXTRA", []))

    def tasks(prog, lay, tier):
        return markov.ops_tasks(prog, lay, pid, OPS, ["chain"], maxloop=3 if tier == "thorough" or pid not in ("C08", "C09") else 2)
    g["tasks"] = tasks
    g["native_env"] = focus


def focus(names):
    """make the bounded search try the updates whose contract failed more often"""
    return {"VC_FOCUS": "".join(chr(65 + i) for i, n in enumerate(markov.NAMES) if n and any(t.startswith(n) for t in names))}
