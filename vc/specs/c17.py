"""C17: what one call of the monitor measures, on an arbitrary well-formed diagram (mkheap.Heap)."""
from fractions import Fraction

import z3

from .. import mono
from .. import native as _n
from ..check import Task
from ..exec import And, Implies, Not, Opaque, Or, Ptr, Thrown, eq, is_sym, simp, zi
from ..ir import DOUBLE, PTR, IntT, Unsupported
from . import mkheap
from .mkheap import IN, OUT, Heap, get_c, site_at

I8, I32 = IntT(8), IntT(32)
HARNESS, NATIVE_HARNESS, NATIVE_ONLY, NATIVE_SECS, NEED_LAYOUT = [], ["c17.cpp"], ["monitor"], 8, True
NATIVE = _n.allsrc()
SOURCES = ["module/markov/markov_monitor.cpp", "module/diagram/diagram.cpp", "module/diagram/component.cpp", "module/weight/weight_estimator.cpp",
           "utility/momentum.cpp", "utility/complex.cpp", "utility/vector.cpp", "lattice/lattice.cpp"]
TRUSTED = ["vc/specs/mkheap.py (lazy symbolic diagram)"]
ASSUME = ["the diagram is any diagram satisfying the invariants of C04-C08 (each proved to be preserved by every update)",
          "a vertex-function line is present only in runs with runGamma3 set (the updates that create it are registered only then)",
          "the table estimators' own bookkeeping (which bin, which sign) is C14/C18, the scalar counters' is C15, complex arithmetic C02"]
COUNTERS = ("SigmaEstimator", "PolarEstimator", "GammaGEstimator", "GammaWEstimator")
BUNDLES = ("WormEstimator", "PhyEstimator")
MM = "mc::MarkovMonitor"


class Setup:
    def __init__(self, ctx, lay):
        self.c, self.H = ctx, None
        H = self.H = ctx.heap = Heap(ctx, lay, weights="mono")
        L, P, W = lay, "para::ParaMC", "weight::Weight"
        ctx.events = self.ev = []
        self.rg = z3.Int("in:runGamma3")
        ctx.assume(z3.Or(self.rg == 0, self.rg == 1))
        ctx.assume(z3.Implies(self.rg == 0, H.hg() == 0))
        # the state of the monitor
        pf = {L(P, n): n for n in ("WormSpaceReweight", "PolarReweight", "GammaGReweight", "GammaWReweight")}

        def ini_p(ctx, r, key, size, ty):
            o = key[2]
            if o == L(P, "OrderReWeight") and size == 8:
                return Ptr(H.ORW)
            if o == L(P, "OrderReWeight") + 8 and size == 8:
                return Opaque("end of the reweighting factors")
            if o in pf and size == 8:
                return mono.atom(ctx, pf[o])
            if o == L(P, "runGamma3") and size == 1:
                return self.rg
            if o == L(P, "Order") and size == 4:
                return H.N
            return Opaque("parameter+%d" % o) if size <= 8 else None
        self.P = ctx.alloc("para", size=L.size(P), init=ini_p)
        self.obj = {n: ctx.alloc(n, init=lambda ctx, r, key, size, ty: Opaque("estimator")) for n in ("Sigma", "Polar", "GammaG", "GammaW")}

        def ini_w(ctx, r, key, size, ty):
            for n, r in self.obj.items():
                if key[2] == L(W, n):
                    return Ptr(r)
            return Opaque("weight+%d" % key[2])
        self.WT = ctx.alloc("weight", size=L.size(W), init=ini_w)

        def ini_m(ctx, r, key, size, ty):
            o = key[2]
            for n, v in (("Para", Ptr(self.P)), ("Diag", Ptr(H.D)), ("Weight", Ptr(self.WT))):
                if o == L(MM, n):
                    return v
            return Opaque("monitor+%d" % o)
        self.M = ctx.alloc("monitor", size=L.size(MM), init=ini_m)
        self.at = {L(MM, n): n for n in COUNTERS + BUNDLES}
        self.handles = {}
        self.est = {"Sigma": L("weight::SigmaClass", "Estimator"), "Polar": L("weight::PolarClass", "Estimator")}

    def who(self, p, whole=False):
        if p.region is self.M and p.off in self.at:
            return self.at[p.off]
        for n, r in self.obj.items():
            if p.region is r:
                return n + (".Estimator" if not whole and p.off == self.est.get(n) else "" if p.off == 0 else "+%d" % p.off)
        for r, w in self.handles.values():
            if p.region is r and p.off == 0:
                return w
        return "?"

    def frame(self):
        """nothing but the statistics was written"""
        c, H = self.c, self.H
        c.prove("diagram-not-changed", not H.added and not H.removed and not any(x.region.cells for x in H.by_region.values()) and not H.D.cells)
        c.prove("parameters-not-changed", not self.P.cells and not self.WT.cells and not H.ORW.cells)


def S(ctx):
    return ctx.setup17


def contracts(lay):
    C = mkheap.contracts(lay)

    def bundle(ctx, a, dem):
        s = S(ctx)
        w = s.who(a[0])
        k = (w, a[1] if not is_sym(a[1]) else a[1].get_id())
        if k not in s.handles:
            s.handles[k] = (ctx.alloc("%s[]" % w, init=lambda *x: Opaque("estimator")), (w, a[1]))
        return Ptr(s.handles[k][0])

    def val(ctx, v):
        return ctx.load(v, DOUBLE) if isinstance(v, Ptr) else v
    C["std::vector<double, std::allocator<double> >::operator[](unsigned long)"] = lambda c, a, d: c.add_linear(c.load(a[0], PTR), a[1], 8)
    C["EstimatorBundle<double>::operator[](int)"] = bundle
    C["Estimator<double>::Measure(double const&)"] = lambda c, a, d: S(c).ev.append(("count", S(c).who(a[0]), val(c, a[1])))
    for t in ("weight::WeightEstimator", "weight::GammaGClass", "weight::GammaWClass"):
        C[t + "::MeasureNorm(double)"] = lambda c, a, d: S(c).ev.append(("norm", S(c).who(a[0]), a[1]))
        C[t + "::SqueezeStatistics(double)"] = lambda c, a, d: S(c).ev.append(("squeeze", S(c).who(a[0]), a[1]))
    C["Estimator<double>::SqueezeStatistics(double)"] = C["EstimatorBundle<double>::SqueezeStatistics(double)"] = C[t + "::SqueezeStatistics(double)"]

    def spins(ctx, v):
        return tuple(ctx.load(v.add(4 * i), I32) for i in range(2)) if isinstance(v, Ptr) else v

    def measure(gamma):
        def f(ctx, a, dem):
            s = S(ctx)
            n = 3 if gamma else 2
            sites = [site_at(ctx, p) for p in a[1:1 + n]]
            taus = list(a[1 + n:1 + 2 * n])
            sp = [spins(ctx, v) for v in a[1 + 2 * n:1 + 3 * n]]
            o = None if gamma else a[1 + 3 * n]
            w = mono.cof(ctx, *get_c(ctx, a[-1]))
            s.ev.append(("measure", s.who(a[0], True), sites, taus, sp, o, w))
        return f
    R = "Site const&, "
    C["weight::SigmaClass::Measure(%sdouble, double, spin, spin, int, Complex const&)" % (R * 2)] = measure(False)
    C["weight::PolarClass::Measure(%sdouble, double, spin*, spin*, int, Complex const&)" % (R * 2)] = measure(False)
    C["weight::GammaGClass::Measure(%sdouble, double, double, spin, spin, spin, Complex const&)" % (R * 3)] = measure(True)
    C["weight::GammaWClass::Measure(%sdouble, double, double, spin*, spin*, spin, Complex const&)" % (R * 3)] = measure(True)
    return C


def same(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and And(*[same(x, y) for x, y in zip(a, b)])
    return eq(a, b)


def ceq(ctx, a, b):
    return And(*[eq(x, y) for x, y in zip(mono.cval(ctx, a), mono.cval(ctx, b))])


def rinv(ctx, *ats):
    """1 / (a1 * a2 ...) as a complex monomial"""
    m = (Fraction(1), (), ())
    for a in ats:
        c, e = mono.of(ctx, a)
        m = mono.cmul(ctx, m, mono.cinv(ctx, (c, e, ())))
    return m


def measure(ctx, lay):
    s = ctx.setup17 = Setup(ctx, lay)
    H = s.H
    try:
        ctx.call_dem("mc::MarkovMonitor::Measure()", [Ptr(s.M)])
    except Thrown as e:
        ctx.prove("measuring-does-not-abort", False, str(e.what))
        return
    # the cases of the statement
    zero = ctx.branch(H.o == 0)
    fermion = ctx.branch(H.mgb)
    gam = False if zero else ctx.branch(H.hg() != 0)
    rg = ctx.branch(s.rg == 1)
    ctx.cover("order-zero" if zero else "worm" if H.we else ("G" if fermion else "W") + ("-vertex-function" if gam else ""))
    s.frame()
    cnt = [e for e in s.ev if e[0] == "count"]
    norm = [e for e in s.ev if e[0] == "norm"]
    mea = [e for e in s.ev if e[0] == "measure"]
    ctx.prove("only-measurements", len(cnt) + len(norm) + len(mea) == len(s.ev))
    conf = [e for e in cnt if isinstance(e[1], tuple)]
    sect = [e for e in cnt if not isinstance(e[1], tuple)]
    ctx.prove("one-configuration-counted-once", len(conf) == 1)
    ctx.prove("counted-among-worm-or-physical-configurations", conf[0][1][0] == ("WormEstimator" if H.we else "PhyEstimator"))
    ctx.prove("counted-at-the-order-of-the-diagram", And(eq(conf[0][1][1], H.o), eq(conf[0][2], 1)))
    if H.we:
        ctx.prove("no-measurement-while-a-worm-exists", not norm and not mea)
        return
    orw = H.orw(H.o)
    if zero:
        ctx.prove("order-zero-is-only-the-normalisation", not mea and not sect)
        want = ["Sigma.Estimator" if fermion else "Polar.Estimator"] + ([("GammaG" if fermion else "GammaW")] if rg else [])
        ctx.prove("normalisation-of-the-measured-sector-once", sorted(e[1] for e in norm) == sorted(want))
        w = mono.cval(ctx, rinv(ctx, orw))[0]
        ctx.prove("normalisation-is-one-over-the-reweighting-factor", And(*[eq(e[2], w) for e in norm]))
        return
    ctx.prove("no-normalisation-above-order-zero", not norm)
    name = {(True, False): "Sigma", (False, False): "Polar", (True, True): "GammaG", (False, True): "GammaW"}[bool(fermion), bool(gam)]
    ctx.prove("sector-counter-of-the-diagram-once", len(sect) == 1 and sect[0][1] == name + "Estimator" and eq(sect[0][2], 1))
    ctx.prove("exactly-one-measurement-in-the-sector", len(mea) == 1 and mea[0][1] == name)
    _, _, sites, taus, sp, order, w = mea[0]
    line = H.measured()
    a, b = H.pre(line, "v0"), H.pre(line, "v1")              # the line runs from a (IN) to b (OUT)
    # the object's amputated legs: it begins where the measuring line ends
    vin, vout = (a, b) if name == "GammaW" else (b, a)
    x, y = H.vargs(vin), H.vargs(vout)
    ctx.prove("booked-at-the-end-points-of-the-measuring-line", And(same(sites[0], x[0]), same(sites[1], y[0])))
    ctx.prove("booked-at-the-times-of-the-end-points", And(eq(taus[0], x[1]), eq(taus[1], y[1])))
    if fermion:
        want = (H.pre(b, "s0"), H.pre(a, "s1"))              # the leg of the line at b, and at a
        ctx.prove("booked-at-the-spins-of-the-measuring-line", And(eq(sp[0], want[0]), eq(sp[1], want[1])))
    else:
        ctx.prove("booked-at-the-spins-of-the-end-points", And(same(sp[0], x[2:]), same(sp[1], y[2:])))
    if gam:
        e = H.ext(False)
        ctx.prove("booked-at-the-external-point", And(same(sites[2], e[:3]), eq(taus[2], e[3]), eq(sp[2], e[4])))
    else:
        ctx.prove("booked-at-the-order-of-the-diagram", eq(order, H.o))
    ph = mono.cof(ctx, H.dpre("PhRe"), H.dpre("PhIm"))
    ats = [orw] + ([mono.atom(ctx, name + "Reweight")] if gam else [])
    want = mono.cmul(ctx, ph, rinv(ctx, *ats))
    if name == "Polar":
        want = mono.cmul(ctx, (Fraction(-1), (), ()), want)
    ctx.prove("contribution-is-the-phase-over-the-reweighting-factors", ceq(ctx, w, want))


def squeeze(ctx, lay):
    s = ctx.setup17 = Setup(ctx, lay)
    f = ctx.fresh("in:factor", "real")
    ctx.assume(f > 0)
    ctx.call_dem("mc::MarkovMonitor::SqueezeStatistics(double)", [Ptr(s.M), f])
    rg = ctx.branch(s.rg == 1)
    want = ["Sigma.Estimator", "Polar.Estimator", "WormEstimator", "PhyEstimator", "SigmaEstimator", "PolarEstimator"]
    if rg:
        want += ["GammaG", "GammaW", "GammaGEstimator", "GammaWEstimator"]
    s.frame()
    ctx.prove("every-statistic-is-squeezed-once", all(e[0] == "squeeze" for e in s.ev) and sorted(str(e[1]) for e in s.ev) == sorted(want))
    ctx.prove("every-statistic-is-squeezed-by-the-same-factor", And(*[eq(e[2], f) for e in s.ev]))


def tasks(prog, lay, tier):
    C = contracts(lay)
    o = {"fpmul": "mono", "max_s": 300}
    return [Task("measure", lambda ctx: measure(ctx, lay), C, o, native=["monitor"],
                 covers=["order-zero", "worm", "G", "W", "G-vertex-function", "W-vertex-function"]),
            Task("squeeze", lambda ctx: squeeze(ctx, lay), C, o, native=["monitor"])]
