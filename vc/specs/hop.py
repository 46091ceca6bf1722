"""C10: the dispatcher (Markov::Hop) and its set-up (Markov::BuildNew).

Hop is verified for any number of steps by induction over its loop: at the loop head, after k steps,
the loop counters are their start values plus k times their change per step, k steps were made and the
step counter grew by k.  One arbitrary step is then executed and the invariant re-established."""
from fractions import Fraction

import z3

from ..check import Task
from ..exec import And, Not, Opaque, PathEnd, Ptr, eq, is_sym, simp, zi, zr
from ..ir import DOUBLE, PTR, IntT, Unsupported
from ..loops import headers
from . import mkheap
from .markov import NAMES
from .mkheap import Heap

I8, I32, I64 = IntT(8), IntT(32), IntT(64)
MC, ALL = 19, 23
FN = "mc::Markov::Hop(int)"


def hop_contracts(lay):
    base = mkheap.contracts(lay)
    C = {"RandomFactory::urn()": base["RandomFactory::urn()"]}

    def update(ctx, a, dem):
        ctx.hop_events.append(dem)
        ctx.prove("updates-run-on-this-chain", isinstance(a[0], Ptr) and a[0].region is ctx.heap.M and a[0].off == 0)
    for n in NAMES:
        if n:
            C["mc::Markov::%s()" % n] = update
    for n in ("ChangeROnVertex", "ChangeSpinOnVertex"):
        C["mc::Markov::%s()" % n] = update
    return C


def step_ok(c, H, sums, gamma):
    """exactly one draw x, and the update i with sum(i-1) <= x < sum(i) ran, once"""
    urns = [v for k, v, i in H.draws if k == "urn"]
    c.prove("one-random-number-selects-the-update", len(H.draws) == 1 and len(urns) == 1)
    x = urns[0]
    ev = c.hop_events
    c.prove("at-most-one-update-per-step", len(ev) <= 1)
    n = ALL if gamma else MC
    sel = {}
    for j in range(n):
        lo = sums(j - 1) if j else zr(0)
        sel[j] = z3.And(x >= lo, x < sums(j))
    if not ev:
        idle = [sel[j] for j in range(n) if not NAMES[j]] + [x >= sums(n - 1)]
        c.prove("step-runs-the-selected-update", z3.Or(*idle))
        c.cover("idle")
    else:
        w = [j for j in range(n) if NAMES[j] and ev[0] == "mc::Markov::%s()" % NAMES[j]]
        c.prove("step-runs-the-selected-update", sel[w[0]] if w else False)
        c.cover("update")


def hop(lay):
    base = hop_contracts(lay)

    def fn(c):
        H = c.heap = Heap(c, lay)
        c.hop_events = []

        def ini(*a):
            raise Unsupported("the dispatcher looks at the diagram")
        H.D.init = ini
        sums = lambda j: z3.Real("sum!%d" % j)
        n = z3.Int("in:sweep")
        gamma = c.branch(z3.Int("in:runGamma3") != 0)
        for j in range(ALL if gamma else MC):
            c.assume(sums(j) >= (sums(j - 1) if j else 0))
        c.assume(sums(0) > 0)
        mangled = c.prog.find(FN)
        f = c.prog.func(mangled)
        if not headers(f):
            raise Unsupported("no loop in Hop")
        st = {"phase": 0, "head": None}
        cnt0 = z3.Int("counter0")
        k = z3.Int("steps_made")
        cell = Ptr(H.regs["Counter"])

        def cut(ctx, fun, lab, prev, env):
            if st["head"] is None:
                st["head"] = lab
            if st["head"] != lab:
                return
            phis = [i.dst for i in fun.blocks[lab] if i.op == "phi"]
            vals = {d: env[d] for d in phis}
            st["phase"] += 1
            if st["phase"] == 1:
                c.prove("nothing-happens-before-the-first-step", not c.hop_events and not H.draws)
                st["p0"] = vals
                return
            if st["phase"] == 2:
                # one concrete step was made only to see how the loop's own counters move: this is a guess, checked below
                st["step"] = {}
                for d, v in vals.items():
                    z = 0 if v is st["p0"][d] else simp(zi(v) - zi(st["p0"][d]))
                    st["step"][d] = z
                    if is_sym(st["step"][d]):
                        raise Unsupported("loop variable without constant step")
                c.assume(z3.And(k >= 0, k < 1 << 31))
                c.assume(z3.Or(k <= n, k == 0))
                for d in phis:
                    if st["step"][d]:
                        env[d] = simp(zi(st["p0"][d]) + st["step"][d] * k)
                del c.hop_events[:]
                del H.draws[:]
                c.store(cell, simp(cnt0 + k), I64)
                return
            c.prove("loop-counters-move-uniformly", And(*[eq(vals[d], simp(zi(st["p0"][d]) + st["step"][d] * (k + 1))) for d in phis if st["step"][d]]))
            c.prove("no-more-than-the-requested-steps", k + 1 <= n)
            c.prove("step-counter-advances-by-one", eq(c.load(cell, I64), simp(cnt0 + k + 1)))
            step_ok(c, H, sums, gamma)
            c.prove("chain-set-up-unchanged", not H.M.cells)
            raise PathEnd()
        for lab in headers(f):
            c.loop_cuts[(f.name, lab)] = cut
        def pick(ctx, a, dem):
            v = base["RandomFactory::urn()"](ctx, a, dem)
            if st["phase"] == 1:
                c.assume(zr(v) < sums(0))
            return v
        c.hop_pick = pick
        c.call(mangled, [Ptr(H.M), n])
        if st["phase"] == 1:
            c.prove("requested-steps-are-made", n <= 0)
            c.prove("no-step-no-change", And(eq(c.load(cell, I64), cnt0), not c.hop_events, not H.draws))
            c.cover("none")
        elif st["phase"] == 2:
            c.prove("requested-steps-are-made", eq(k, n))
            c.prove("step-counter-counts-the-steps", And(eq(c.load(cell, I64), simp(cnt0 + n)), not c.hop_events, not H.draws))
            c.cover("end")
    C = dict(base)
    C["RandomFactory::urn()"] = lambda ctx, a, dem: ctx.hop_pick(ctx, a, dem)
    return Task("Hop", fn, C, {"max_s": 300}, native=["chain"], covers=["update", "idle", "none", "end"])


def near(a, b):
    """equal up to the rounding of the constants the compiler folded"""
    return And(a - b <= Fraction(1, 10 ** 12), b - a <= Fraction(1, 10 ** 12))


def build(lay):
    """BuildNew and Reset: the chain is connected to its parameters, diagram and tables, the selection probabilities add up and every statistic starts at zero"""
    L, M, P, W, D = lay, "mc::Markov", "para::ParaMC", "weight::Weight", "diag::Diagram"
    C = {}
    for n in ("operator=(char const*)", "operator=(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >&&)"):
        C["std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::" + n] = lambda c, a, d: a[0]
    C["std::vector<double, std::allocator<double> >::data()"] = lambda c, a, d: c.load(a[0], PTR)
    C["std::vector<double, std::allocator<double> >::operator[](unsigned long)"] = lambda c, a, d: c.add_linear(c.load(a[0], PTR), a[1], 8)

    def fn(c):
        H = c.heap = Heap(c, lay)
        orw = c.alloc("factors", init=lambda *a: Opaque("factor"))
        beta, order = z3.Real("in:Beta"), z3.Int("in:Order")
        gamma = c.branch(z3.Int("in:runGamma3") != 0)

        def ini_p(ctx, r, key, size, ty):
            o = key[2]
            if o == L(P, "Beta") and size == 8:
                return beta
            if o == L(P, "Order") and size == 4:
                return order
            if o == L(P, "runGamma3") and size == 1:
                return int(gamma)
            if o == L(P, "OrderReWeight") and size == 8:
                return Ptr(orw)
            return Opaque("parameter+%s" % o)
        para = c.alloc("para", size=L.size(P), init=ini_p)
        tabs = {n: c.alloc(n, init=lambda *a: Opaque("table")) for n in ("Sigma", "Polar", "G", "W", "GammaG", "GammaW")}
        wt = c.alloc("weight", size=L.size(W), init=lambda ctx, r, key, size, ty: next((Ptr(t) for n, t in tabs.items() if key[2] == L(W, n)), Opaque("weight")))
        m = c.alloc("chain", size=L.size(M), arrays=[H.apc, H.asum, H.aacc, H.aprop], init=lambda ctx, r, key, size, ty: Opaque("not set"))
        c.call_dem("mc::Markov::BuildNew(para::ParaMC&, diag::Diagram&, weight::Weight&)", [Ptr(m), Ptr(para), Ptr(H.D), Ptr(wt)])

        def at(n, ty=PTR):
            return c.load(Ptr(m, L(M, n)), ty)

        def points(n, r, off):
            v = at(n)
            return isinstance(v, Ptr) and v.region is r and v.off == off and not v.terms
        c.prove("temperature-and-order-are-the-configured-ones", And(eq(at("Beta", DOUBLE), beta), eq(at("Order", I32), order), eq(at("runGamma3", I8), int(gamma))))
        for n in ("Counter", "WormSpaceReweight", "PolarReweight", "GammaGReweight", "GammaWReweight", "Lat", "RNG"):
            c.prove("chain-uses-the-configured-%s" % n, points(n, para, L(P, n)))
        c.prove("chain-uses-the-configured-OrderReWeight", points("OrderReWeight", orw, 0))
        for n, o in (("Diag", 0), ("Worm", L(D, "Worm")), ("UExt", L(D, "UExt"))):
            c.prove("chain-works-on-the-given-%s" % n, points(n, H.D, o))
        for n in ("G", "W"):
            c.prove("chain-uses-the-given-table-%s" % n, points(n, tabs[n], 0))
        c.prove("configuration-not-changed", not para.cells and not wt.cells and not H.D.cells)
        n = ALL if gamma else MC
        v = lambda f, i: c.load(Ptr(m, L(M, f) + 8 * i), DOUBLE)
        tot = zr(0)
        for i in range(n):
            p = zr(v("ProbofCall", i))
            c.prove("selection-probability-not-negative", p > 0 if i == 0 else p >= 0)
            tot = simp(tot + p)
            c.prove("threshold-is-the-sum-of-the-probabilities-so-far", near(zr(v("SumofProbofCall", i)), tot))
        c.prove("probabilities-add-up-to-one", near(tot, zr(1)))
        for i in range(ALL):
            if NAMES[i] and i < n:
                for o in range(H.cols):
                    c.prove("statistics-start-at-zero", And(eq(v("Accepted", i * H.cols + o), 0), eq(v("Proposed", i * H.cols + o), 0)))
        c.cover("gamma" if gamma else "plain")
    return Task("BuildNew", fn, C, {"max_s": 300, "max_steps": 4000000}, native=["chain"], covers=["gamma", "plain"])
