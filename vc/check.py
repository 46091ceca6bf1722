"""python3-vt -m vc.check <ID> : decide one property on /repo's current tree"""
import concurrent.futures as cf
import importlib
import itertools
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

from . import build, hcontracts, ir, native
from . import exec as X

VERIF = build.VERIF
_G = {}


class Task:
    def __init__(self, name, fn, contracts=None, opts=None, asserts=(), native=None, covers=(), bounded=None, unless=None):
        self.name, self.fn = name, fn
        self.contracts = contracts or {}
        self.opts = opts or {}
        self.asserts = list(asserts)      # assertion names that must be reached
        self.covers = list(covers)
        self.bounded = bounded            # the stated bound: a stand-in, never counted as proved
        self.unless = unless              # only run when the named task is outside the verifier's reach; that task's place is then taken by this one
        self.native = native              # native task(s) searched when this one fails


def direct_asserts(prog, fname):
    """names of the vc_assert calls in the body of a harness task"""
    out = []
    f = prog.func(fname)
    m = prog.where[fname]
    for lab in f.blocks:
        for ins in f.blocks[lab]:
            if ins.op in ("call", "invoke") and ins.a[0] == ("g", "vc_assert"):
                a = ins.a[1][0][1]
                if a[0] == "g" and a[1] in m.globals:
                    init = m.globals[a[1]][1]
                    if init and init[0] == "str":
                        out.append(bytes(b & 255 for b in init[1]).split(b"\0")[0].decode())
    return out


def harness_tasks(prog, spec, lay=None):
    ts = []
    con = dict(hcontracts.CONTRACTS)
    con.update(getattr(spec, "CONTRACTS", {}))
    if hasattr(spec, "contracts"):
        con.update(spec.contracts(prog, lay))
    opts = getattr(spec, "OPTS", {})
    topts = getattr(spec, "TASK_OPTS", {})
    skip = getattr(spec, "NATIVE_ONLY", ())
    tcon = spec.task_contracts(prog, lay) if hasattr(spec, "task_contracts") else {}
    for n in prog.modules[0].funcs:
        if n.startswith("vc_task_") and n[8:] not in skip:
            o = dict(opts)
            o.update(topts.get(n[8:], {}))
            c = con
            if n[8:] in tcon:
                c = dict(con)
                c.update(tcon[n[8:]])
            ts.append(Task(n[8:], (lambda c, n=n: c.call(n, [])), c, o, direct_asserts(prog, n), native=[n[8:]]))
    return ts


def run_task(i):
    t = _G["tasks"][i]
    try:
        return i, X.explore(_G["prog"], t.name, t.fn, t.contracts, **t.opts)
    except Exception:
        r = X.Result(t.name)
        r.unsupported.append("internal: " + traceback.format_exc()[-800:])
        return i, r


def hints(fails):
    hi, hr = [], []
    for o in fails:
        for k, v in (o.model or {}).items():
            if k.startswith("_"):
                continue
            try:
                if "/" in v or "." in v:
                    hr.append(v.replace("?", ""))
                else:
                    hi.append(str(int(v)))
                    hr.append(v)
            except ValueError:
                pass
    u = lambda l: list(dict.fromkeys(l))[:40]
    return ["i=" + h for h in u(hi)] + ["r=" + h for h in u(hr)]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "proof",
          "coverage": {}, "assumptions": [], "wall_s": 0.0, "violations": 0}
    rc = 1
    try:
        rc = decide(pid, tier, seed, ev)
    except Exception as e:
        # the verifier could not be applied to the changed source: every obligation is undischarged
        det = traceback.format_exc()
        sys.stderr.write(det)
        ev["coverage"].setdefault("obligations", 0)
        ev["coverage"].setdefault("discharged", 0)
        ev["coverage"].setdefault("checker_cmd", "./check " + pid)
        ev["coverage"].setdefault("trusted_base", [])
        ev["violations"] = 1
        path = write_replay(pid, {"property": pid, "obligation": "extraction", "detail": det[-4000:],
                                  "failing_input": None})
        print("obligations of %s could not be generated from the current source: %s" % (pid, str(e)[:500]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        rc = 1
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    sys.stdout.flush()
    return rc


def write_replay(pid, d):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    p = os.path.join(VERIF, "replays", pid + ".json")
    with open(p, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return p


def decide(pid, tier, seed, ev):
    spec = importlib.import_module("vc.specs." + pid.lower())
    thorough = tier == "thorough"
    hs = [os.path.join(native.HDIR, h) for h in spec.HARNESS]
    t1 = time.time()
    ex = cf.ThreadPoolExecutor(2)
    mods = build.modules(hs + list(spec.SOURCES), ["-I" + native.HDIR, "-fno-access-control", *getattr(spec, "DEFS", ()), *getattr(spec, "PREINC", ())])
    prog = X.Program(mods)
    lay = build.layout() if getattr(spec, "NEED_LAYOUT", False) else None
    tasks = []
    if spec.HARNESS:
        tasks += harness_tasks(prog, spec, lay)
    if hasattr(spec, "tasks"):
        tasks += spec.tasks(prog, lay, tier)
    only = os.environ.get("VERIF_ONLY")
    if only:
        tasks = [t for t in tasks if re.search(only, t.name)]
    build_s = time.time() - t1
    nhs = getattr(spec, "NATIVE_HARNESS", None) or spec.HARNESS
    ntasks = list(spec.NATIVE_ONLY) if getattr(spec, "NATIVE_HARNESS", None) else [n[8:] for h in prog.modules[:len(hs)] for n in h.funcs if n.startswith("vc_task_")
              and n[8:] not in getattr(spec, "PROOF_ONLY", ())]
    nat = ex.submit(native.build_native, nhs, getattr(spec, "NATIVE", spec.SOURCES), ntasks, getattr(spec, "PREINC", ()), link=getattr(spec, "NLINK", ())) if nhs else None

    _G.update(tasks=tasks, prog=prog)
    res = [None] * len(tasks)
    with mp.get_context("fork").Pool(min(8, max(1, len(tasks)))) as pool:
        order = sorted((i for i in range(len(tasks)) if not tasks[i].unless), key=lambda i: -tasks[i].opts.get("weight", 0))
        later = [i for i in range(len(tasks)) if tasks[i].unless]

        def needed():
            gone = {tasks[i].name for i in order if res[i].unsupported and not res[i].failed}
            for i in later:
                if tasks[i].unless in gone or (only and not any(t.name == tasks[i].unless for t in tasks)):
                    replaced.append(tasks[i].unless)
                    yield i
        replaced = []
        for i, r in itertools.chain(pool.imap_unordered(run_task, order), (x for j in [0] for x in pool.imap_unordered(run_task, list(needed())))):
            res[i] = r
            if os.environ.get("VERIF_VERBOSE"):
                sys.stderr.write("  %-40s paths %d obl %d/%d %.1fs %s\n" % (tasks[i].name, r.paths, r.discharged, r.obligations, r.wall_s,
                                 ("FAILED " + ",".join(sorted({o.name for o in r.failed}))) if r.failed else (r.unsupported[:1] or "")))

    notes = ["%s: outside the verifier's reach on this tree (%s); decided by its bounded stand-in" % (t.name, r.unsupported[0][:200])
             for t, r in zip(tasks, res) if r is not None and t.name in replaced]
    keep = [i for i in range(len(tasks)) if res[i] is not None and tasks[i].name not in replaced]
    tasks, res = [tasks[i] for i in keep], [res[i] for i in keep]
    problems = []          # (task, obligation name, detail, model)
    for t, r in zip(tasks, res):
        for o in r.failed:
            problems.append((t, o.name, ("refuted: " if o.status == "fail" else "undecided: ") + o.detail, o.model, o))
        for u in r.unsupported[:3]:
            problems.append((t, "undischarged (outside the verifier's reach)", u, None, None))
        if not r.failed and not r.unsupported:
            if r.obligations == 0:
                problems.append((t, "vacuous (no obligation generated)", "", None, None))
            for a in t.asserts:
                if "assert " + a not in r.covers:
                    problems.append((t, "vacuous (assertion never reached): " + a, "", None, None))
            for a in t.covers:
                if a not in r.covers:
                    problems.append((t, "vacuous (case never reached): " + a, "", None, None))
    if not tasks:
        problems.append((Task("none", None), "vacuous (no task)", "", None, None))

    # ---------------------------------------------------------------- native replay / bounded search
    exe, nerr = None, None
    if nat is not None:
        try:
            exe = nat.result()
        except build.BuildError as e:
            nerr = str(e)
    fails, cases, skipped = [], 0, 0
    confirmed = []
    per = {}
    if exe:
        for t, oname, det, model, o in problems:
            if model and t.native:
                kv = ["%s=%s" % (k[3:], v.replace("?", "")) for k, v in model.items() if k.startswith("in:")]
                out, rcx = native.run(exe, ["replay", t.native[0], *kv], 60)
                f, _, _, _ = native.parse(out)
                for x in f:
                    x["source"] = "verifier counterexample of obligation %s/%s" % (t.name, oname)
                confirmed += f
                if confirmed:
                    break
        if problems and not confirmed:
            names = []
            for t, *_ in problems:
                names += t.native or []
            hh = hints([o for *_, o in problems if o is not None])
            env = spec.native_env([t.name for t, *_ in problems]) if hasattr(spec, "native_env") else None
            names = list(dict.fromkeys(names))[:12]
            k = max(1, 8 // max(1, len(names)))
            secs = 20 if k == 8 else 10
            with cf.ThreadPoolExecutor(8) as tex:
                jobs = [tex.submit(native.run, exe, ["search", str(seed + 100 * j), str(secs), "only=" + nm, *hh], 200, env) for nm in names for j in range(k)]
                for j in jobs:
                    f, c, s, _ = native.parse(j.result()[0])
                    cases += c
                    confirmed += f
        if not confirmed:
            secs = getattr(spec, "NATIVE_SECS", 6) * (10 if thorough else 1)
            hh = hints([o for *_, o in problems if o is not None])
            with cf.ThreadPoolExecutor(8) as tex:
                groups = getattr(spec, "NATIVE_GROUPS", None) or [None]
                jobs = []
                for g in groups:
                    a = ["search", str(seed), str(secs)] + (["only=" + g] if g else []) + hh
                    jobs.append(tex.submit(native.run, exe, a, secs * 3 + 120))
                for j in jobs:
                    out, rcx = j.result()
                    f, c, s, p = native.parse(out)
                    cases += c
                    skipped += s
                    per.update(p)
                    confirmed += f
    known = load_known(pid)
    new, listed = [], []
    for x in confirmed:
        (listed if any(k_match(k, x) for k in known) else new).append(x)
    kprob = [p for p in problems if any(k_match(k, {"task": p[0].name, "obligation": p[1]}) for k in known)]
    probs = [p for p in problems if p not in kprob]
    rc = 0
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    obl = sum(r.obligations for t, r in zip(tasks, res) if not t.bounded)
    dis = sum(r.discharged for t, r in zip(tasks, res) if not t.bounded)
    # a recorded finding is not an obligation of this run's claim
    repo_fn = sorted({f for r in res for f in r.inlined if not f.startswith("vc_task_")})
    conu = sorted({f for r in res for f in r.contracts if not f.startswith("vc_")})
    libs = sorted({f.split("(")[0][-80:] for r in res for f in r.library})
    bounded = list(getattr(spec, "BOUNDED", [])) + ["%s: %s (%d/%d obligations within the bound, not counted above)" % (t.name, t.bounded, r.discharged, r.obligations)
                                                    for t, r in zip(tasks, res) if t.bounded] + notes
    ev["coverage"] = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "./check %s%s" % (pid, " --thorough" if thorough else ""),
        "trusted_base": ["clang 18 front end and opt passes sroa,early-cse,simplifycfg (C++ to LLVM IR)",
                         "vc/ir.py, vc/exec.py (IR reader and verification condition generator)", "z3 (SMT back end), cvc5 on z3 unknowns",
                         *getattr(spec, "TRUSTED", [])],
        "back_end": "z3 " + ".".join(map(str, X.z3.get_version()[:3])),
        "solver_queries": sum(r.queries for r in res), "solver_s": round(sum(r.solver_s for r in res), 2),
        "verification_tasks": len(tasks), "paths": sum(r.paths for r in res),
        "functions_executed_in_proofs": [f for f in repo_fn if not re.match(r"(std::|__gnu)", f)],
        "callee_contracts_used": conu, "library_calls_ignored": libs,
        "native_cases": cases, "native_skipped": skipped, "native_label": "bounded replay/search of the same contracts on the compiled code; never counted as proved",
        "bounded_tasks": bounded,
        "per_task": {t.name: "%d paths, %d/%d obligations, %.1fs" % (r.paths, r.discharged, r.obligations, r.wall_s) for t, r in zip(tasks, res)},
        "ir_build_s": round(build_s, 2),
    }
    ev["assumptions"] = list(getattr(spec, "ASSUME", [])) + [
        "IEEE-754 doubles are treated as reals and 32/64-bit signed arithmetic as mathematical unless an arith/* obligation is listed",
        "ignored library calls (strings, streams, logging) neither throw nor touch modelled state"]
    if new:
        rc = 1
        x = new[0]
        path = write_replay(pid, {"property": pid, "task": x["task"], "obligation": x["obligation"], "failing_input": x["inputs"],
                                  "found_by": x.get("source", "bounded native search"),
                                  "replay": "./replay %s %s %s" % (pid, x["task"], " ".join("%s=%s" % kv for kv in x["inputs"].items())),
                                  "undischarged": [[t.name, n, d[:500]] for t, n, d, *_ in probs[:10]]})
        print("failed obligation %s/%s with input %s" % (x["task"], x["obligation"], json.dumps(x["inputs"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    elif probs and not (listed and all(p[0].name in {l["task"] for l in listed} for p in probs)):
        rc = 1
        t, n, d, m, _ = probs[0]
        path = write_replay(pid, {"property": pid, "task": t.name, "obligation": n, "verifier_output": d, "model": m, "failing_input": None,
                                  "native_build_error": nerr,
                                  "all": [[t.name, n, d[:1500]] for t, n, d, *_ in probs[:20]]})
        for t, n, d, m, _ in probs[:6]:
            print("undischarged obligation %s/%s: %s" % (t.name, n, d[:300]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    elif nerr:
        rc = 1
        path = write_replay(pid, {"property": pid, "obligation": "native build of the contract harness", "detail": nerr, "failing_input": None})
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    ev["violations"] = len(new) + (1 if rc and not new else 0)
    print("%s: %d/%d obligations discharged over %d paths in %d tasks; native cases %d; rc=%d" % (pid, dis, obl, sum(r.paths for r in res), len(tasks), cases, rc))
    return rc


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k.get("property") == pid]


def k_match(k, x):
    return k.get("task") == x["task"] and (k.get("obligation") in (None, x["obligation"]))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
