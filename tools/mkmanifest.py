#!/usr/bin/env python3
"""source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)"""
import json, os
V = "contract-based deductive verification: weakest-precondition/symbolic execution of clang IR of the real functions against contracts, obligations discharged by z3/cvc5"
BASE = ("Unbounded proof over the LLVM IR clang 18 emits from /repo's current sources on every run; callers are checked against callee contracts or the callee's own body. "
        "Assumes: doubles read as exact reals, the IR executor (vc/exec.py), the solvers z3/cvc5 and clang's front end. "
        "A failed obligation is replayed natively (g++ build of /repo's sources against the executable form of the same contract).")
checks = {
 "C01": "All operators and the index/equality functions for all in-range operands, integer overflow checked.",
 "C02": "All operators/inline functions for all real operands; sqrt/atan2 as axiomatised functions.",
 "C03": "Every pool operation preserves the representation invariant from every pool state (every permutation, every count), for the three pooled types.",
 "C11": "All lattice sizes (symbolic), all coordinates and indices.",
 "C12": "All lattices, sublattice counts, bin counts, temperatures and arguments (symbolic); mixed-radix injectivity by lemma.",
 "C13": "All look-up forms against the tables and against each other, for all lines, tables, lattices and flags.",
 "C04": "MK","C05": "MK","C06": "MK","C07": "MK","C08": "MK","C09": "MK","C10": "MK",
 "C14": "All shapes, sizes, orders, bins and weights; element-wise loops by an inductive loop rule (one arbitrary iteration, independence proved).",
 "C15": "Every sample, history length and capacity state (symbolic); loops over the history by an inductive loop rule with proved invariants.",
 "C17": "Every call of the monitor on an arbitrary well-formed diagram (any order, worm or not, any measuring line, any reweighting factors): the exact set of recorded contributions and their arguments.",
 "C16": "Every value of the 32-bit engine; std::uniform_*_distribution code is verified, not assumed.",
 "C18": "All lattices, bin counts, times, spins and symmetry tables (symbolic contents), constructors included; positional index with injectivity lemmas.",
}
MK = ("All 21 registered updates from every well-formed diagram (any order, any lattice, any draw of the random numbers), unbounded; ChangeRLoop for fermion loops of any length by three loop invariants (a bounded stand-in, labelled as such, decides only if its loops are reshaped beyond the invariants' reach); Hop (any number of steps, by induction over its loop), BuildNew/Reset, FixDiagram and ClearDiagram proved. ")
checks = {k: MK if v == "MK" else v for k, v in checks.items()}
na = {
 "C04": None, "C05": None, "C06": None, "C07": None, "C08": None, "C09": None, "C10": None,
 "C13": None, "C14": None, "C15": None, "C17": None, "C18": None,
 "C19": "Save and restore is a history property over the cnpy/pickle file formats, Python-side dictionaries and the 2.5 kB generator state; the code is stream I/O through external libraries (zlib, cnpy, CPython) for which no contract within the verifier's reach can be discharged.",
 "C20": "Convergence of an iterative numerical solver (numpy/scipy Python code and cooperating processes exchanging files) is a liveness/numerical-analysis statement about code outside the verifier's language.",
}
PENDING = "Contracts for this part are still being built; not claimed yet."
m = {"version": 1, "setup_cmd": "python3 -m compileall -q vc && command -v clang++ g++ python3-vt cvc5",
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks are needed: the harnesses include /repo's headers with -fno-access-control", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --thorough" % p, "technique": V, "level": "proof",
                 "level_note": n + " " + BASE} for p, n in sorted(checks.items())],
     "not_applicable": [{"property": p, "reason": r or PENDING} for p, r in sorted(na.items()) if p not in checks],
     "notes": "See DESIGN.md. ./check ID runs one check, ./replay ID replays a violation."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
