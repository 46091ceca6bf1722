"""The transition contracts of the Monte Carlo updates (C04..C10).

Every update is executed symbolically on an arbitrary well-formed diagram (mkheap.Heap) and each
postcondition below is a verification condition on every path.
"""
import re
from fractions import Fraction

import z3

from .. import mono
from .. import native as _n
from ..check import Task
from ..exec import (Region, And, Implies, Infeasible, Not, Opaque, Or, PathEnd, Ptr, Thrown, eq, is_sym, simp, zi, zr)
from ..ir import DOUBLE, PTR, IntT, Unsupported
from . import mkheap
from .mkheap import DOWN, IN, MAX_K, OUT, PER, UP, Heap, Obj, bit

I8, I32, I64 = IntT(8), IntT(32), IntT(64)
SOURCES = ["module/markov/markov.cpp", "module/markov/gamma3_updates.cpp", "module/diagram/diagram.cpp", "module/diagram/component.cpp",
           "utility/momentum.cpp", "utility/complex.cpp", "utility/vector.cpp", "lattice/lattice.cpp"]
NAMES = ["CreateWorm", "DeleteWorm", "MoveWormOnG", "MoveWormOnW", "Reconnect", "AddInteraction", "DeleteInteraction", "AddDeltaInteraction",
         "DeleteDeltaInteraction", "ChangeTauOnVertex", None, "ChangeRLoop", "ChangeMeasureFromGToW", "ChangeMeasureFromWToG",
         "ChangeDeltaToContinuous", "ChangeContinuousToDelta", None, "JumpToOrder0", "JumpBackToOrder1", "JumpToGGGammaG", "JumpFromGGGammaGToG",
         "JumpToWWGammaW", "JumpFromWWGammaWToW"]
(CREATE, DELETE, MOVEG, MOVEW, RECON, ADD, DEL, ADDD, DELD, CTAU, RVER, RLOOP, G2W, W2G, D2C, C2D, SPINV, TO0, BACK, TOGG, FROMGG, TOWW, FROMWW) = range(23)
REV = [DELETE, CREATE, MOVEG, MOVEW, RECON, DEL, ADD, DELD, ADDD, CTAU, None, RLOOP, W2G, G2W, C2D, D2C, None, BACK, TO0, FROMGG, TOGG, FROMWW, TOWW]
WORMS = (CREATE, DELETE, MOVEG, MOVEW, RECON, ADD, DEL, ADDD, DELD)
PTRS = {"V": ("nG0", "nG1", "nW"), "G": ("v0", "v1"), "W": ("v0", "v1")}
BACKP = {("V", "nG0"): "v1", ("V", "nG1"): "v0", ("G", "v0"): "nG1", ("G", "v1"): "nG0", ("W", "v0"): "nW", ("W", "v1"): "nW"}


def SIGN(d):
    return 1 - 2 * d


def iff(a, b):
    a, b = bit(a), bit(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return simp(z3.BoolVal(a) == b if isinstance(a, bool) else (a == (z3.BoolVal(b) if isinstance(b, bool) else b)))


class Run:
    """one update from an arbitrary well-formed diagram, and its postconditions"""

    def __init__(self, ctx, lay, op, weights="abstract", conserve=False, maxloop=3):
        self.c, self.lay, self.op = ctx, lay, op
        self.H = ctx.heap = Heap(ctx, lay, weights, conserve or op in (TO0, BACK))
        self.o = self.H.o
        if op == RLOOP:
            self.H.maxloop = maxloop

    def call(self):
        c = self.c
        self.aborted = None
        try:
            c.call_dem("mc::Markov::%s()" % NAMES[self.op], [Ptr(self.H.M)])
        except Thrown as e:
            self.aborted = e.what
        return self.aborted is None

    # ---------------------------------------------------------------- helpers
    def changed(self):
        """was any part of the diagram written (the external point aside)?"""
        H = self.H
        if H.added or H.removed:
            return True
        for x in H.by_region.values():
            if x.pre_live and x.region.cells:
                return True
        ext = ("uT", "uRs", "uRx", "uRy", "uS")
        offs = [(H.doff[n], H.dfields[H.doff[n]][1]) for n in ext]
        for (a, s, off), (size, v) in H.D.cells.items():
            if a is not None or not any(o <= off and off + size <= o + z for o, z in offs):
                return True
        return False

    def touched(self):
        """complete the materialised part: previous targets of overwritten pointers, neighbours of removed objects"""
        H = self.H
        for x in list(H.by_region.values()):
            if not x.pre_live:
                continue
            for p in PTRS[x.kind]:
                if not x.live or H.wrote(x, p):
                    H.pre(x, p)

    def ptr(self, x, p):
        """current target of a pointer field if it is known, else None"""
        H = self.H
        if not x.pre_live or H.wrote(x, p) or p in x.f:
            return H.get(x, p)
        return None

    def live(self, y, kind):
        return isinstance(y, Obj) and y.kind == kind and y.live

    def o_post(self):
        return simp(self.H.dget("Order"))

    def we_post(self):
        return self.c.branch(bit(self.H.dget("we"))) if is_sym(self.H.dget("we")) else bit(self.H.dget("we"))

    # ---------------------------------------------------------------- C04
    def c04(self):
        c, H = self.c, self.H
        gl = [x for x in H.G if x.live or "K" in x.f or not x.live]
        for x in list(H.G) + list(H.W):
            if x.region.cells or not x.live or "K" in x.f:
                H.pre(x, "K")
        for kind, off, pre0, rng in (("G", H.o_gh, H.lg0, lambda k: k + MAX_K), ("W", H.o_wh, H.lw0, lambda k: z3.If(zi(k) < 0, -zi(k), zi(k)))):
            mat = [x for x in getattr(H, kind) if "K" in x.f]
            lo, hi = (-MAX_K, MAX_K)
            post = [(x, H.get(x, "K")) for x in mat + [y for y in H.added if y.kind == kind] if x.live]
            wr = [(x, k) for x, k in post if not x.pre_live or H.wrote(x, "K")]
            nm = "fermion" if kind == "G" else "interaction"
            idx = lambda k: simp(rng(k))
            pre = [idx(x.f["K"]) for x in mat]
            for x, k in wr:
                c.prove("%s-momentum-in-range" % nm, And(zi(k) >= lo, zi(k) <= hi) if kind == "G" else And(zi(k) >= lo, zi(k) <= hi, zi(k) != 0))
                rest = And(eq(pre0(zi(idx(k))), 1), *[Not(eq(idx(k), p)) for p in pre])
                others = [Not(eq(idx(k), idx(k2))) for y, k2 in post if y is not x]
                c.prove("%s-momenta-distinct" % nm, And(Not(rest), *others))
            k = z3.Int("sk:" + kind)
            c.assume(z3.And(k >= 0, k <= (2 * MAX_K if kind == "G" else MAX_K)))
            a = H.table(kind, k)
            c.assume(z3.Or(pre0(k) == 0, pre0(k) == 1))
            rest = And(eq(pre0(k), 1), *[Not(eq(k, p)) for p in pre])
            want = Or(rest, *[eq(k, idx(p)) for _, p in post])
            c.prove("%s-table-exact" % nm, iff(a, want) if not isinstance(want, bool) else iff(a, want))

    # ---------------------------------------------------------------- C05
    def c05(self):
        c, H = self.c, self.H
        self.touched()
        o = self.o_post()
        c.prove("order-in-range", And(zi(o) >= 0, zi(o) <= H.N))
        e2 = z3.If(zi(o) > 0, zi(o), z3.IntVal(1))
        d = {k: sum(1 for x in H.added if x.kind == k and x.live) - sum(1 for x in H.removed if x.kind == k and x.pre_live) for k in "VGW"}
        c.prove("object-counts-match-order", And(2 * H.e + d["G"] == 2 * e2, H.e + d["W"] == e2, 2 * H.e + d["V"] == 2 * e2))
        for x in H.objs("V"):
            isnew = not x.pre_live
            for p in ("nG0", "nG1"):
                y = self.ptr(x, p)
                if y is not None:
                    ok = self.live(y, "G")
                    c.prove("vertex-lines-live", ok)
                    if ok:
                        z = self.ptr(y, BACKP["V", p])
                        c.prove("vertex-and-lines-agree", z is None or z is x)
            y = self.ptr(x, "nW")
            if y is not None:
                ok = self.live(y, "W")
                c.prove("vertex-lines-live", ok)
                dr = H.get(x, "Dir")
                if is_sym(dr):
                    dr = c.concretize(dr)
                c.prove("vertex-and-lines-agree", dr in (0, 1))
                if ok and dr in (0, 1):
                    c.prove("vertex-and-lines-agree", self.ptr(y, "v%d" % dr) in (None, x))
            if isnew or H.wrote(x, "Tau") or H.dwrote("Order"):
                t = H.get(x, "Tau")
                c.prove("time-in-range", Implies(zi(o) > 0, And(zr(t) >= 0, zr(t) < H.beta)))
            for n, hi in (("Rs", H.subvol), ("Rx", H.size[0]), ("Ry", H.size[1])):
                if isnew or H.wrote(x, n):
                    v = H.get(x, n)
                    c.prove("site-in-lattice", And(zi(v) >= 0, zi(v) < hi))
            if not isnew and H.wrote(x, "Rs", "Rx", "Ry"):
                for p in ("nG0", "nG1"):
                    H.get(x, p)
            if not isnew and H.wrote(x, "Tau"):
                H.get(H.get(x, "nW"), "v0"), H.get(H.get(x, "nW"), "v1")
        for x in H.objs("G"):
            en = []
            for p in ("v0", "v1"):
                y = self.ptr(x, p)
                en.append(y)
                if y is not None:
                    c.prove("line-ends-live", self.live(y, "V"))
                    c.prove("line-and-vertices-agree", self.live(y, "V") and self.ptr(y, BACKP["G", p]) in (None, x))
            if not x.pre_live or H.wrote(x, "v0", "v1") or any(self.live(y, "V") and (not y.pre_live or H.wrote(y, "Rs", "Rx", "Ry")) for y in en):
                a, b = H.get(x, "v0"), H.get(x, "v1")
                if self.live(a, "V") and self.live(b, "V") and a is not b:
                    c.prove("fermion-line-on-one-site", And(*[eq(H.get(a, r), H.get(b, r)) for r in ("Rs", "Rx", "Ry")]))
        for x in H.objs("W"):
            en = []
            for p in ("v0", "v1"):
                y = self.ptr(x, p)
                en.append(y)
                if y is not None:
                    c.prove("line-ends-live", self.live(y, "V"))
                    if self.live(y, "V"):
                        c.prove("line-and-vertices-agree", self.ptr(y, "nW") in (None, x) and simp(eq(H.get(y, "Dir"), int(p[1]))))
            if not x.pre_live or H.wrote(x, "v0", "v1"):
                c.prove("line-ends-live", H.get(x, "v0") is not H.get(x, "v1"))
            if not x.pre_live or H.wrote(x, "v0", "v1", "delta", "meas", "gam") or H.dwrote("Order") or \
                    any(self.live(y, "V") and (not y.pre_live or H.wrote(y, "Tau")) for y in en):
                if not H.flag(H.get(x, "delta")):
                    continue
                a, b = H.get(x, "v0"), H.get(x, "v1")
                if self.live(a, "V") and self.live(b, "V"):
                    c.prove("local-line-joins-equal-times-and-is-not-measuring", And(eq(zr(H.get(a, "Tau")), zr(H.get(b, "Tau"))), zi(o) > 0,
                                                                                    not H.flag(H.get(x, "meas")), not H.flag(H.get(x, "gam"))))
        self.c05_order0(o)
        self.c05_flags()
        we = self.we_post()
        if we and (H.dwrote("we", "Ira", "Masha", "Order") or H.removed):
            I, M = H.dget("Ira"), H.dget("Masha")
            c.prove("worm-ends-are-two-live-vertices", And(zi(o) > 0, self.live(I, "V") and self.live(M, "V") and I is not M))

    def c05_order0(self, o):
        """at order zero the diagram is the bubble: each fermion line runs between the two vertices"""
        c, H = self.c, self.H
        if not H.dwrote("Order") or not c.feasible(zi(o) == 0):
            return
        if c.branch(zi(o) == 0):
            x = [v for v in H.objs("V")][0] if H.objs("V") else H.fresh_obj("V")
            y = H.get(H.get(x, "nG1"), "v1")
            c.prove("order-zero-is-the-bubble", y is not x)

    def c05_flags(self):
        c, H = self.c, self.H
        lines = H.objs("G") + H.objs("W")
        gone = [x for x in H.removed if x.pre_live and x.kind != "V"]
        for x in H.W:
            if x.live and H.wrote(x, "delta"):
                c.prove("local-line-joins-equal-times-and-is-not-measuring", Implies(bit(H.get(x, "delta")), And(Not(bit(H.get(x, "meas"))), Not(bit(H.get(x, "gam"))))))
        if not (H.dwrote("MG", "GM", "WM") or any(x.pre_live and H.wrote(x, "meas") for x in lines)):
            for x in gone:
                c.prove("measuring-line-bookkeeping", eq(H.pre(x, "meas"), 0))
            for x in lines:
                if not x.pre_live:
                    c.prove("exactly-one-measuring-line", iff(H.get(x, "meas"), False))
        else:
            H.measured()
            mg = bit(H.dget("MG"))
            if is_sym(mg):
                mg = c.branch(mg)
            m = H.dget("GM" if mg else "WM")
            ok = self.live(m, "G" if mg else "W")
            c.prove("measuring-line-bookkeeping", ok and iff(H.get(m, "meas"), True))
            for x in H.objs("G") + H.objs("W"):
                if x is not m:
                    c.prove("exactly-one-measuring-line", iff(H.get(x, "meas"), False))
                else:
                    c.prove("vertex-function-line-is-not-measuring", iff(H.get(x, "gam"), False))
                    if x.kind == "W":
                        c.prove("local-line-joins-equal-times-and-is-not-measuring", iff(H.get(x, "delta"), False))
        if not (H.dwrote("HG", "Vin", "Vout") or any(x.pre_live and H.wrote(x, "gam") for x in lines)):
            for x in gone:
                c.prove("vertex-function-bookkeeping", eq(H.pre(x, "gam"), 0))
            for x in lines:
                if not x.pre_live:
                    c.prove("vertex-function-bookkeeping", iff(H.get(x, "gam"), False))
                elif H.wrote(x, "meas"):
                    c.prove("vertex-function-line-is-not-measuring", Not(And(bit(H.get(x, "meas")), bit(H.get(x, "gam")))))
        else:
            if c.branch(H.hg() != 0):
                H.gammaline()
            hg = H.dget("HG")
            if is_sym(hg):
                hg = c.concretize(hg)
            c.prove("vertex-function-bookkeeping", hg in (0, 1, 2))
            m = None
            if hg:
                k = "G" if hg == 1 else "W"
                p, q = c.load(Ptr(H.D, H.doff["Vin"]), PTR), c.load(Ptr(H.D, H.doff["Vout"]), PTR)
                m = H.by_region.get(id(p.region)) if isinstance(p, Ptr) and p.region is not None else None
                ok = self.live(m, k) and isinstance(q, Ptr) and q.region is p.region and not p.terms and not q.terms and \
                    p.off == H.off[k]["v0"] and q.off == H.off[k]["v1"]
                c.prove("vertex-function-handles", ok)
                if ok:
                    c.prove("vertex-function-bookkeeping", iff(H.get(m, "gam"), True))
                    c.prove("vertex-function-line-is-not-measuring", iff(H.get(m, "meas"), False))
                    if k == "W":
                        c.prove("local-line-joins-equal-times-and-is-not-measuring", iff(H.get(m, "delta"), False))
            for x in H.objs("G") + H.objs("W"):
                if x is not m:
                    c.prove("vertex-function-bookkeeping", iff(H.get(x, "gam"), False))

    # ---------------------------------------------------------------- C06
    def c06(self):
        c, H = self.c, self.H
        self.touched()
        todo = []

        def add(v):
            if isinstance(v, Obj) and v.kind == "V" and v.live and v not in todo:
                todo.append(v)
        for x in list(H.G) + list(H.W):
            if x.live and H.wrote(x, "K"):
                for p in ("v0", "v1"):
                    H.pre(x, p)
                    add(H.get(x, p))
        for x in H.added:
            if x.live and x.kind != "V":
                add(H.get(x, "v0")), add(H.get(x, "v1"))
            add(x)
        for x in list(H.V):
            if x.live and H.wrote(x, "nG0", "nG1", "nW", "Dir"):
                add(x)
        for x in list(H.G) + list(H.W):
            if H.wrote(x, "v0", "v1") or not x.live:
                for p in ("v0", "v1"):
                    add(H.pre(x, p))
                    if x.live:
                        add(H.get(x, p))
        we = self.we_post()
        if H.dwrote("we", "Ira", "Masha", "wK"):
            if H.we:
                add(H.Ira), add(H.Masha)
            if we:
                add(H.dget("Ira")), add(H.dget("Masha"))
                k = H.dget("wK")
                c.prove("worm-momentum-in-range", And(zi(k) >= -MAX_K, zi(k) <= MAX_K))
        I, M, wk = (H.dget("Ira"), H.dget("Masha"), H.dget("wK")) if we else (None, None, 0)
        for v in todo:
            def K(p):
                f = "nW" if p == "W" else "nG%d" % p
                y = self.ptr(v, f)
                if y is None:
                    return H.portK(v, p)
                return H.get(y, "K") if isinstance(y, Obj) else c.fresh("wild")
            s = K(IN) - K(OUT)
            if v.pre_live and not H.wrote(v, "Dir") and "Dir" not in v.f and "pDir" in v.f:
                d, kw = v.f["pDir"], K("W")
                s = s - z3.If(d == IN, zi(kw), -zi(kw))
            else:
                d = H.get(v, "Dir")
                if is_sym(d):
                    d = c.concretize(d)
                s = s - K("W") if d == IN else s + K("W")
            if v is I:
                s = s - wk
            if v is M:
                s = s + wk
            s = simp(s)
            c.prove("momentum-conserved-at-vertex", Or(*[eq(s, PER * t) for t in range(-4, 5)]))

    # ---------------------------------------------------------------- C07
    def c07(self):
        c, H = self.c, self.H
        self.touched()
        gs, ws = [], []

        def add(l, x):
            if isinstance(x, Obj) and x.live and x not in l:
                l.append(x)
        for x in list(H.V) + [y for y in H.added if y.kind == "V"]:
            if not x.live:
                continue
            for i in (0, 1):
                if H.mod(x, "s%d" % i):
                    v = H.get(x, "s%d" % i)
                    c.prove("spin-values", Or(eq(v, 0), eq(v, 1)))
                    add(gs, H.get(x, "nG%d" % i))
                    add(ws, H.get(x, "nW"))
            if H.wrote(x, "nW"):
                add(ws, H.get(x, "nW"))
        for x in list(H.G) + [y for y in H.added if y.kind == "G"]:
            if x.live and (not x.pre_live or H.wrote(x, "v0", "v1")):
                add(gs, x)
        for x in list(H.W) + [y for y in H.added if y.kind == "W"]:
            if x.live and (not x.pre_live or H.wrote(x, "v0", "v1", "worm")):
                add(ws, x)
        we = self.we_post()
        moved = H.dwrote("we", "Ira", "Masha", "wS")
        if moved:
            old = [H.Ira, H.Masha] if H.we else [None, None]
            new = [H.dget("Ira"), H.dget("Masha")] if we else [None, None]
            for a, b in zip(old, new):
                for v in (a, b):
                    if isinstance(v, Obj) and v.live and (a is not b or H.dwrote("wS")):
                        add(ws, H.get(v, "nW"))
        I, M, dS = (H.dget("Ira"), H.dget("Masha"), H.dget("wS")) if we else (None, None, 0)
        if moved and we:
            c.prove("worm-spin", Or(eq(dS, 1), eq(dS, -1)))
        for x in gs:
            a, b = H.get(x, "v0"), H.get(x, "v1")
            c.prove("one-spin-per-fermion-line", isinstance(a, Obj) and isinstance(b, Obj) and eq(H.get(a, "s1"), H.get(b, "s0")))
        for x in ws:
            a, b = H.get(x, "v0"), H.get(x, "v1")
            if not (isinstance(a, Obj) and isinstance(b, Obj)):
                c.prove("spin-balance-of-interaction-line", False)
                continue
            s = sum(H.get(v, "s0") - H.get(v, "s1") for v in (a, b))
            k = sum(1 for v in (a, b) if v is I) - sum(1 for v in (a, b) if v is M)
            c.prove("spin-balance-of-interaction-line", eq(s, k * dS if k else 0))
            c.prove("worm-flag", iff(H.get(x, "worm"), any(v is I or v is M for v in (a, b)) if we else False))
            if we and {id(a), id(b)} == {id(I), id(M)}:
                cn = lambda ds, v: Or(And(eq(ds, 1), eq(H.get(v, "s0"), DOWN), eq(H.get(v, "s1"), UP)), And(eq(ds, -1), eq(H.get(v, "s0"), UP), eq(H.get(v, "s1"), DOWN)))
                c.prove("worm-ends-on-one-line-can-move", Not(And(cn(dS, I), cn(simp(-dS) if not isinstance(dS, int) else -dS, M))))

    # ---------------------------------------------------------------- C08
    def affected(self):
        """lines whose weight arguments (or cached weight) may differ before and after"""
        H = self.H
        self.touched()
        L = []

        def add(x):
            if isinstance(x, Obj) and x not in L:
                L.append(x)
        for x in list(H.V):
            if not x.live:
                continue
            rt = H.mod(x, "Rs", "Rx", "Ry", "Tau")
            for i in (0, 1):
                if rt or H.mod(x, "s%d" % i):
                    add(H.get(x, "nG%d" % i))
                    add(H.pre(x, "nG%d" % i))
            if rt or H.mod(x, "s0", "s1"):
                add(H.get(x, "nW"))
                add(H.pre(x, "nW"))
        for x in H.G + H.W:
            if not x.live or H.mod(x, "v0", "v1", "meas", "gam", "delta", "worm", "Re", "Im"):
                add(x)
        for x in H.added:
            if x.kind != "V":
                add(x)
        we = self.we_post()
        old = [H.Ira, H.Masha] if H.we else [None, None]
        new = [H.dget("Ira"), H.dget("Masha")] if we else [None, None]
        for a, b in zip(old, new):
            if a is not b:
                for v in (a, b):
                    if isinstance(v, Obj) and v.live:
                        add(H.get(v, "nW"))
        if H.dwrote("uT", "uRs", "uRx", "uRy", "uS") and H.memo.get("gamma") is not None:
            add(H.memo["gamma"])
        return L

    def parity(self):
        """does the number of fermion loops change by an odd number?"""
        H = self.H

        def count(cur):
            if cur:
                vs, gs = H.objs("V"), H.objs("G")
                nx = {id(v): self.ptr(v, "nG1") for v in vs}
                nx.update({id(g): self.ptr(g, "v1") for g in gs})
                pv = {id(v): self.ptr(v, "nG0") for v in vs}
                pv.update({id(g): self.ptr(g, "v0") for g in gs})
            else:
                vs, gs = list(H.V), list(H.G)
                nx = {id(v): v.f.get("nG1") for v in vs}
                nx.update({id(g): g.f.get("v1") for g in gs})
                pv = {id(v): v.f.get("nG0") for v in vs}
                pv.update({id(g): g.f.get("v0") for g in gs})
            ns = vs + gs
            outs = [x for x in ns if nx[id(x)] is None]
            ins = [x for x in ns if pv[id(x)] is None]
            key = lambda x: x.name
            outs.sort(key=key), ins.sort(key=key)
            if len(outs) != len(ins):
                return None
            for a, b in zip(outs, ins):
                nx[id(a)] = b
            ids = {id(x) for x in ns}
            if any(not isinstance(y, Obj) or id(y) not in ids for y in nx.values()):
                return None
            seen, n = set(), 0
            for x in ns:
                if id(x) in seen:
                    continue
                n += 1
                y = x
                while id(y) not in seen:
                    seen.add(id(y))
                    y = nx[id(y)]
                if y is not x:
                    return None
            return n, [x.name for x in outs], [x.name for x in ins]
        a, b = count(False), count(True)
        if a is None or b is None or a[1:] != b[1:]:
            return None
        return (a[0] - b[0]) % 2

    def c_eq(self, name, got, want):
        c = self.c
        if any(isinstance(g, Opaque) for g in got):
            c.prove(name, False, "value built from undefined data")
            return
        c.prove(name, And(eq(zr(got[0]), zr(want[0])) if is_sym(got[0]) or is_sym(want[0]) else got[0] == want[0],
                          eq(zr(got[1]), zr(want[1])) if is_sym(got[1]) or is_sym(want[1]) else got[1] == want[1]))

    def weight_change(self):
        """(affected live lines with their post-state look-up, total-weight factor) ; None when the order drops to zero"""
        c, H = self.c, self.H
        L = self.affected()
        one = (Fraction(1), (), ())
        f = one
        post = []
        for x in L:
            if x.pre_live:
                m = mono.cof(c, *self.prew(x))
                f = mono.cmul(c, f, mono.cinv(c, m))
            if x.live:
                w = H.line_weight(x, True)
                post.append((x, w))
                f = mono.cmul(c, f, mono.cof(c, *w))
        return post, f

    def prew(self, x):
        H = self.H
        return H.pre(x, "Re"), H.pre(x, "Im")

    def new_weight(self):
        """the specified total weight after the update"""
        c, H = self.c, self.H
        o = self.o_post()
        pre = mono.cof(c, H.dpre("Re"), H.dpre("Im"))
        post, f = self.weight_change()
        par = self.parity()
        if par is None:
            return post, None, None
        if H.dwrote("Order") and c.branch(zi(o) == 0):
            return post, (Fraction(1), mono.of(c, H.norm())[1], ()), par
        d = simp(zi(o) - H.o)
        if not isinstance(d, int):
            d = c.concretize(d)
        if c.must(H.o == 0) and H.dwrote("Order"):
            # out of order zero: the full product over the bubble (its lines are all rewritten)
            full = (Fraction(1), (), ())
            n = 0
            for x in H.objs("G") + H.objs("W"):
                w = H.line_weight(x, True)
                if not any(x is y for y, _ in post):
                    post.append((x, w))
                full = mono.cmul(c, full, mono.cof(c, *w))
                n += 1
            c.prove("order-one-is-the-bubble", n == 3 and d == 1)
            return post, mono.cmul(c, (Fraction(-1), (), ()), full), par
        sg = -1 if (d + par) % 2 else 1
        return post, mono.cmul(c, mono.cmul(c, (Fraction(sg), (), ()), pre), f), par

    def c08(self):
        c, H = self.c, self.H
        if not self.changed():
            return
        post, want, par = self.new_weight()
        c.prove("fermion-loops-well-formed", want is not None)
        if want is None:
            return
        o = self.o_post()
        zero = H.dwrote("Order") and c.must(zi(o) == 0)
        if not zero:
            for x, w in post:
                self.c_eq("fermion-line-weight-cached" if x.kind == "G" else "interaction-line-weight-cached", (H.get(x, "Re"), H.get(x, "Im")), w)
        self.c_eq("order-zero-weight" if zero else "total-weight", (H.dget("Re"), H.dget("Im")), mono.cval(c, want))
        self.c_eq("phase-of-the-weight", (H.dget("PhRe"), H.dget("PhIm")), mono.cval(c, mono.cphase(c, want)))
        s0, s1 = H.dpre("sfl"), H.dget("sfl")
        c.prove("fermion-loop-sign", eq(zr(s1), zr(s0) if par == 0 else -zr(s0)))
        if self.we_post():
            I, M = H.dget("Ira"), H.dget("Masha")
            if self.live(I, "V") and self.live(M, "V"):
                if H.dwrote("we", "Ira", "Masha", "wW") or any(H.mod(v, "Rs", "Rx", "Ry", "Tau") for v in (I, M)):
                    c.prove("worm-weight-cached", eq(zr(H.dget("wW")), zr(H.worm_weight(H.vargs(I, True), H.vargs(M, True)))))

    # ---------------------------------------------------------------- C09
    LEDGER = {CREATE: ["pick", "irn", "bit"], DELETE: [], MOVEG: ["bit"], MOVEW: [], RECON: ["bit"], ADD: ["irn", "bit", "bit", "urn", "urn"],
              DEL: ["bit"], ADDD: ["irn", "bit", "bit", "urn"], DELD: ["bit"], CTAU: ["pick", "urn"], G2W: ["pick"], W2G: ["pick"],
              D2C: ["pick", "urn"], C2D: ["pick"], TO0: [], BACK: ["irn", "irn", "irn", "urn", "urn", "bit", "bit"], TOGG: ["pick", "urn"], FROMGG: [],
              TOWW: ["pick", "urn", "irn", "irn", "irn"], FROMWW: [], RLOOP: ["pick", "irn", "irn", "irn"]}

    def kinds(self):
        return ["bit" if k == "irn" and i == (0, 1) else k for k, v, i in self.H.draws]

    def accept_draw(self):
        """the acceptance number, if it was drawn"""
        n = len(self.LEDGER[self.op])
        d = self.H.draws
        return d[n][1] if len(d) == n + 1 and d[n][0] == "urn" else None

    def ledger(self, full):
        c, H, op = self.c, self.H, self.op
        want, got = self.LEDGER[op], self.kinds()
        n = len(want)
        if full:
            c.prove("draws-of-the-proposal", got == want or got == want + ["urn"])
        else:
            c.prove("draws-of-the-proposal", got == want[:len(got)])
        pk = "V" if op in (CTAU, RLOOP) else "G" if op in (W2G, TOGG) else "W"
        site = [(0, simp(H.size[0] - 1)), (0, simp(H.size[1] - 1)), (0, simp(H.subvol - 1))]
        j = 0
        for w, (k, v, i) in zip(want, H.draws):
            if k == "pick":
                c.prove("uniform-choice-of-the-object", i[0] == pk)
            elif k == "irn" and w == "irn":
                r = (-MAX_K, MAX_K) if op in (CREATE, ADD, ADDD) else site[j]
                j += 1
                c.prove("range-of-the-drawn-number", And(eq(i[0], r[0]), eq(i[1], r[1])))

    def dr(self, i):
        d = self.H.draws
        if i >= len(d) or i >= len(self.LEDGER[self.op]):
            raise Missing()
        v = d[i][1]
        return self.H.by_region.get(id(v.region)) if isinstance(v, Ptr) else v if not isinstance(v, Region) else self.H.by_region[id(v)]

    def guards(self):
        """the conditions under which the update does not apply, in evaluation order"""
        H, op, c = self.H, self.op, self.c
        pv, dp = H.pre, H.dpre
        o, N = H.o, H.N
        we = H.we

        def wocc(k):
            k = self.norm(k)
            return Or(eq(k, 0), eq(H.lw0(z3.If(zi(k) < 0, -zi(k), zi(k))), 1))

        def gocc(k):
            return eq(H.lg0(zi(self.norm(k)) + MAX_K), 1)

        def cnm(ds, a, b):
            return Or(And(eq(ds, 1), eq(a, DOWN), eq(b, UP)), And(eq(ds, -1), eq(a, UP), eq(b, DOWN)))
        sameR = lambda a, b: And(*[eq(pv(a, r), pv(b, r)) for r in ("Rs", "Rx", "Ry")])
        I, M = H.Ira, H.Masha
        ng = lambda v, d: pv(v, "nG%d" % d)
        vv = lambda x, d: pv(x, "v%d" % d)
        oth = lambda v: vv(pv(v, "nW"), 1 - pv(v, "Dir"))
        fl = lambda x, n: bit(pv(x, n))
        z = [lambda: o == 0]
        if op in (ADD, ADDD, DEL, DELD):
            z.append(lambda: not we)
        elif op in (DELETE, MOVEG, MOVEW, RECON):
            z.append(lambda: not we)
        elif op not in (BACK,):
            z.append(lambda: we)
        if op == CREATE:
            w = lambda: self.dr(0)
            z += [lambda: wocc(pv(w(), "K") - self.dr(1)),
                  lambda: And(cnm(2 * self.dr(2) - 1, pv(vv(w(), 0), "s0"), pv(vv(w(), 0), "s1")), cnm(1 - 2 * self.dr(2), pv(vv(w(), 1), "s0"), pv(vv(w(), 1), "s1")))]
        elif op == DELETE:
            z += [lambda: pv(I, "nW") is not pv(M, "nW"), lambda: wocc(pv(pv(I, "nW"), "K") + SIGN(pv(I, "Dir")) * H.wK)]
        elif op == MOVEG:
            d = lambda: self.dr(0)
            g = lambda: ng(I, d())
            z += [lambda: vv(g(), d()) is I or vv(g(), d()) is M,
                  lambda: self.cnm_g(d(), pv(vv(g(), 0), "s1")), lambda: gocc(pv(g(), "K") - SIGN(d()) * H.wK)]
        elif op == MOVEW:
            z += [lambda: oth(I) is M, lambda: wocc(pv(pv(I, "nW"), "K") + SIGN(pv(I, "Dir")) * H.wK)]
        elif op == RECON:
            z += [lambda: Not(sameR(I, M)), lambda: Not(eq(pv(I, "s%d" % self.dr(0)), pv(M, "s%d" % self.dr(0))))]
        elif op in (ADD, ADDD):
            kW, d, dw = (lambda: self.dr(0)), (lambda: self.dr(1)), (lambda: self.dr(2))
            kia = lambda: pv(ng(I, d()), "K") - SIGN(d()) * SIGN(dw()) * kW()
            kmb = lambda: pv(ng(M, d()), "K") + SIGN(d()) * SIGN(dw()) * kW()
            z += [lambda: zi(o) >= N, lambda: wocc(kW()), lambda: gocc(kia()), lambda: gocc(kmb()), lambda: eq(self.norm(kia()), self.norm(kmb()))]
        elif op in (DEL, DELD):
            d = lambda: self.dr(0)
            GI, GM = (lambda: ng(I, d())), (lambda: ng(M, d()))
            A, B = (lambda: vv(GI(), d())), (lambda: vv(GM(), d()))
            w = lambda: pv(A(), "nW")
            nxt = lambda v: vv(ng(v, d()), d())
            z += [lambda: zi(o) <= 1, lambda: Or(fl(GI(), "meas"), fl(GI(), "gam")), lambda: Or(fl(GM(), "meas"), fl(GM(), "gam")),
                  lambda: Not(eq(pv(A(), "s0"), pv(A(), "s1"))), lambda: Not(eq(pv(B(), "s0"), pv(B(), "s1"))),
                  lambda: pv(A(), "nW") is not pv(B(), "nW"), lambda: Or(fl(w(), "meas"), fl(w(), "worm"), fl(w(), "gam")),
                  (lambda: fl(w(), "delta")) if op == DEL else (lambda: Not(fl(w(), "delta"))),
                  lambda: Not(sameR(A(), nxt(A()))), lambda: Not(sameR(B(), nxt(B())))]
        elif op == CTAU:
            z += [lambda: fl(pv(self.dr(0), "nW"), "delta")]
        elif op == G2W:
            z += [lambda: Not(H.mgb), lambda: H.hg() != 0, lambda: fl(self.dr(0), "delta")]
        elif op == W2G:
            z += [lambda: H.mgb, lambda: H.hg() != 0]
        elif op == D2C:
            z += [lambda: zi(o) < 2, lambda: Not(fl(self.dr(0), "delta")), lambda: Or(fl(self.dr(0), "meas"), fl(self.dr(0), "gam"))]
        elif op == C2D:
            z += [lambda: zi(o) < 2, lambda: fl(self.dr(0), "delta"), lambda: Or(fl(self.dr(0), "meas"), fl(self.dr(0), "gam"))]
        elif op == TO0:
            v = lambda i: self.ver(i)
            z += [lambda: o != 1, lambda: H.hg() != 0, lambda: Not(sameR(v(0), v(1))), lambda: fl(pv(v(0), "nW"), "delta")]
        elif op == BACK:
            z = [lambda: we, lambda: o != 0, lambda: H.hg() != 0]
        elif op == TOGG:
            z += [lambda: H.hg() != 0, lambda: fl(self.dr(0), "meas")]
        elif op == FROMGG:
            A = lambda: vv(H.gammaline(), 0)
            z += [lambda: H.hg() != 1, lambda: Not(sameR(A(), vv(H.gammaline(), 1))), lambda: Not(eq(dp("uS"), UP)),
                  lambda: Not(And(*[eq(pv(A(), r), dp("u" + r)) for r in ("Rs", "Rx", "Ry")]))]
        elif op == TOWW:
            z += [lambda: H.hg() != 0, lambda: fl(self.dr(0), "meas"), lambda: fl(self.dr(0), "delta")]
        elif op == FROMWW:
            z += [lambda: H.hg() != 2, lambda: Not(eq(dp("uS"), UP))]
        return z

    def cnm_g(self, d, sg):
        """the spin dS cannot run along a fermion line of spin sg in direction d"""
        up = DOWN if d == IN else UP
        return Or(And(eq(self.H.wS, 1), eq(sg, up)), And(eq(self.H.wS, -1), eq(sg, 1 - up)))

    def ver(self, i):
        """the vertex at position i of the pool (order one or zero: there are two)"""
        H = self.H
        for x in H.V:
            if "Name" in x.f and H.ctx.must(eq(x.f["Name"], i)):
                return x
        x = H.pick_obj("V", list(H.V))
        H.ctx.assume(eq(H.pre(x, "Name"), i))
        H.ctx.check_alive()
        return x

    def norm(self, s):
        """the momentum a sum stands for"""
        s = simp(s)
        if isinstance(s, int):
            return (s + MAX_K) % PER - MAX_K
        c, H = self.c, self.H
        for e, r in H.memo.setdefault("mom", []):
            if e.eq(s):
                return r
        r, t = c.fresh("mom"), c.fresh("sh")
        c.assume(z3.And(r >= -MAX_K, r <= MAX_K, r == s - PER * t))
        H.memo["mom"].append((s, r))
        return r

    def effect(self):
        """(fields, diagram members) with their specified new values; everything else stays"""
        H, op = self.H, self.op
        pv, dp, get = H.pre, H.dpre, H.get
        I, M = H.Ira, H.Masha
        ng = lambda v, d: pv(v, "nG%d" % d)
        vv = lambda x, d: pv(x, "v%d" % d)
        F, Dg = {}, {}

        def put(x, n, v):
            F[id(x), n] = (x, v)
        if op == CREATE:
            w, k, b = self.dr(0), self.dr(1), self.dr(2)
            put(w, "K", pv(w, "K") - k), put(w, "worm", 1)
            Dg.update(we=1, Ira=vv(w, 0), Masha=vv(w, 1), wK=k, wS=2 * b - 1)
        elif op == DELETE:
            w = pv(I, "nW")
            put(w, "K", pv(w, "K") + SIGN(pv(I, "Dir")) * H.wK), put(w, "worm", 0)
            Dg.update(we=0)
        elif op == MOVEG:
            d = self.dr(0)
            g = ng(I, d)
            v2 = vv(g, d)
            put(g, "K", pv(g, "K") - SIGN(d) * H.wK)
            put(I, "s%d" % d, 1 - pv(I, "s%d" % d)), put(v2, "s%d" % (1 - d), 1 - pv(v2, "s%d" % (1 - d)))
            w1, w2 = pv(I, "nW"), pv(v2, "nW")
            put(w1, "worm", int(w1 is w2 or vv(w1, 1 - pv(I, "Dir")) is M)), put(w2, "worm", 1)
            Dg.update(Ira=v2)
        elif op == MOVEW:
            w = pv(I, "nW")
            put(w, "K", pv(w, "K") + SIGN(pv(I, "Dir")) * H.wK)
            Dg.update(Ira=vv(w, 1 - pv(I, "Dir")))
        elif op == RECON:
            d = self.dr(0)
            a, b = ng(I, d), ng(M, d)
            put(I, "nG%d" % d, b), put(M, "nG%d" % d, a), put(a, "v%d" % (1 - d), M), put(b, "v%d" % (1 - d), I)
            Dg.update(wK=H.wK + SIGN(d) * (pv(b, "K") - pv(a, "K")))
        elif op in (ADD, ADDD):
            k, d, dw = self.dr(0), self.dr(1), self.dr(2)
            tA = self.tau(3)
            tB = self.tau(4) if op == ADD else tA
            ic, md = ng(I, d), ng(M, d)
            C, Dd = vv(ic, d), vv(md, d)
            gi, gm = get(I, "nG%d" % d), get(M, "nG%d" % d)
            A, B = get(gi, "v%d" % d) if isinstance(gi, Obj) else None, get(gm, "v%d" % d) if isinstance(gm, Obj) else None
            w = get(A, "nW") if isinstance(A, Obj) else None
            new = [gi, gm, A, B, w]
            self.c.prove("objects-added-and-removed", all(isinstance(x, Obj) and not x.pre_live and x.live for x in new) and len({id(x) for x in new}) == 5 and len(H.added) == 5 and
                         not H.removed and [x.kind for x in new] == ["G", "G", "V", "V", "W"])
            if not all(isinstance(x, Obj) and not x.pre_live for x in new):
                return None
            sg = SIGN(d) * SIGN(dw)
            for (v, g, g2, t, R, dr, end, sp) in ((A, gi, ic, tA, C, dw, I, pv(vv(ic, 0), "s1")), (B, gm, md, tB, Dd, 1 - dw, M, pv(vv(md, 0), "s1"))):
                put(v, "nG%d" % d, g2), put(v, "nG%d" % (1 - d), g), put(v, "nW", w), put(v, "Tau", t), put(v, "Dir", dr)
                for r in ("Rs", "Rx", "Ry"):
                    put(v, r, pv(R, r))
                put(v, "s0", sp), put(v, "s1", sp)
                put(g, "v%d" % (1 - d), end), put(g, "v%d" % d, v), put(g, "meas", 0), put(g, "gam", 0)
                put(g2, "v%d" % (1 - d), v)
                put(end, "nG%d" % d, g)
            put(gi, "K", pv(ic, "K") - sg * k), put(gm, "K", pv(md, "K") + sg * k)
            put(w, "v%d" % dw, A), put(w, "v%d" % (1 - dw), B), put(w, "K", k)
            for n in ("worm", "meas", "gam"):
                put(w, n, 0)
            put(w, "delta", int(op == ADDD))
            Dg.update(Order=H.o + 1, wK=H.wK - SIGN(dw) * k)
        elif op in (DEL, DELD):
            d = self.dr(0)
            gi, gm = ng(I, d), ng(M, d)
            A, B = vv(gi, d), vv(gm, d)
            w, ac, bd = pv(A, "nW"), ng(A, d), ng(B, d)
            self.c.prove("objects-added-and-removed", {id(x) for x in H.removed} == {id(x) for x in (gi, gm, A, B, w)} and not H.added)
            put(I, "nG%d" % d, ac), put(M, "nG%d" % d, bd), put(ac, "v%d" % (1 - d), I), put(bd, "v%d" % (1 - d), M)
            Dg.update(Order=H.o - 1, wK=H.wK + SIGN(pv(A, "Dir")) * pv(w, "K"))
        elif op == CTAU:
            put(self.dr(0), "Tau", self.tau(1))
        elif op == RLOOP:
            v = v0 = self.dr(0)
            while True:
                for i, r in enumerate(("Rx", "Ry", "Rs")):
                    put(v, r, self.dr(1 + i))
                v = vv(ng(v, OUT), OUT)
                if v is v0:
                    break
        elif op in (G2W, W2G):
            x, m = self.dr(0), H.measured()
            put(m, "meas", 0), put(x, "meas", 1)
            Dg.update(MG=int(op == W2G))
            Dg["WM" if op == G2W else "GM"] = x
        elif op == D2C:
            w = self.dr(0)
            put(w, "delta", 0), put(vv(w, 1), "Tau", self.tau(1))
        elif op == C2D:
            w = self.dr(0)
            put(w, "delta", 1), put(vv(w, 1), "Tau", pv(vv(w, 0), "Tau"))
        elif op == TO0:
            Dg.update(Order=0)
        elif op == BACK:
            a, b = self.ver(0), self.ver(1)
            s1, s2 = self.dr(5), self.dr(6)
            for v, t, p, q in ((a, 3, s2, s1), (b, 4, s1, s2)):
                put(v, "Tau", self.tau(t)), put(v, "s0", p), put(v, "s1", q)
                for i, r in enumerate(("Rx", "Ry", "Rs")):
                    put(v, r, self.dr(i))
            Dg.update(Order=1)
        elif op in (TOGG, TOWW):
            x = self.dr(0)
            put(x, "gam", 1)
            Dg.update(HG=1 if op == TOGG else 2, uT=self.tau(1), uS=UP)
            for i, r in enumerate(("Rx", "Ry", "Rs")):
                Dg["u" + r] = pv(vv(x, 0), r) if op == TOGG else self.dr(2 + i)
        elif op in (FROMGG, FROMWW):
            put(H.gammaline(), "gam", 0)
            Dg.update(HG=0)
        return F, Dg

    def tau(self, i):
        return mono.fmuldiv(self.c, "fmul", self.dr(i), self.H.beta)

    def same(self, name, n, got, want):
        c = self.c
        if isinstance(got, (Obj, Ptr)) or isinstance(want, (Obj, Ptr)):
            c.prove(name, got is want)
        elif isinstance(got, Opaque):
            c.prove(name, False, "undefined value in %s" % n)
        elif n in ("K", "wK"):
            d = simp(zi(got) - zi(want))
            c.prove(name, Or(*[eq(d, PER * t) for t in range(-2, 3)]))
        elif n in ("worm", "meas", "gam", "delta", "we", "MG"):
            c.prove(name, iff(got, want))
        elif n in ("Tau", "uT"):
            c.prove(name, eq(zr(got), zr(want)))
        else:
            c.prove(name, eq(got, want))

    WHAT = {"K": "momentum", "Tau": "time", "Rs": "site", "Rx": "site", "Ry": "site", "s0": "spin", "s1": "spin", "nG0": "connection", "nG1": "connection",
            "nW": "connection", "v0": "connection", "v1": "connection", "Dir": "direction", "meas": "measuring-flag", "gam": "vertex-function-flag",
            "delta": "locality", "worm": "worm-flag"}

    def effects(self):
        c, H = self.c, self.H
        e = self.effect()
        if e is None:
            return
        F, Dg = e
        if self.op not in (ADD, ADDD, DEL, DELD):
            c.prove("objects-added-and-removed", not H.added and not H.removed)
        for (_, n), (x, v) in F.items():
            if x.live:
                self.same("effect-on-%s" % self.WHAT[n], n, H.get(x, n), v)
        for x in H.V + H.G + H.W:
            if not x.live:
                continue
            for n in self.WHAT:
                if n in H.off[x.kind] and (id(x), n) not in F and H.mod(x, n):
                    self.same("%s-kept" % self.WHAT[n], n, H.get(x, n), H.pre(x, n))
        mg = None
        for n in ("Order", "we", "Ira", "Masha", "wK", "wS", "MG", "GM", "WM", "HG", "uT", "uRs", "uRx", "uRy", "uS"):
            if n in Dg:
                self.same("effect-on-%s" % n, n, H.dget(n), Dg[n])
            elif H.dwrote(n):
                if n in ("GM", "WM") and Dg.get("MG") == int(n == "WM"):
                    continue
                if n in ("Ira", "Masha", "wK", "wS") and self.op == DELETE:
                    continue
                self.same("%s-kept" % n, n, H.dget(n), H.dpre(n))

    DENSITY = {CREATE: [("o", 1), (2, 1)], DELETE: [("o", -1), (2, -1)], ADD: [("b", 2)], ADDD: [("b", 1)], DEL: [("b", -2)], DELD: [("b", -1)],
               G2W: [(2, -1)], W2G: [(2, 1)], D2C: [("b", 1)], C2D: [("b", -1)], TO0: [(2, -2), ("b", -2), ("v", -1)], BACK: [(2, 2), ("b", 2), ("v", 1)],
               TOGG: [(2, 1), ("o", 1), ("b", 1)], FROMGG: [(2, -1), ("o", -1), ("b", -1)], TOWW: [("o", 1), ("b", 1), ("v", 1)], FROMWW: [("o", -1), ("b", -1), ("v", -1)]}

    def ratio(self):
        """the specified acceptance ratio: target(y)/target(x) times reverse over forward proposal density; None if the state is malformed"""
        c, H, op = self.c, self.H, self.op
        post, want, par = self.new_weight()
        if want is None:
            return None
        pre = mono.cof(c, H.dpre("Re"), H.dpre("Im"))
        p = mono.cmod(c, mono.cmul(c, want, mono.cinv(c, pre)))

        def times(v, n):
            nonlocal p
            for _ in range(abs(n)):
                p = mono.fmuldiv(c, "fmul" if n > 0 else "fdiv", p, v)
        for v, n in self.DENSITY.get(op, ()):
            if v == "o":
                times(z3.ToReal(H.o), n)
            elif v == "b":
                times(H.beta, n)
            elif v == "v":
                times(mono.atom(c, "vol"), n), times(mono.atom(c, "subvol"), n)
            else:
                times(Fraction(v), n)
        times(H.pc(REV[op]), 1), times(H.pc(op), -1)
        if H.dwrote("Order"):
            times(H.orw(self.o_post()), 1), times(H.orw(H.o), -1)
        ext = lambda n: mono.atom(c, n)
        we = self.we_post()
        if we != H.we:
            times(ext("WormSpaceReweight"), 1 if we else -1)
        if we:
            times(H.worm_weight(H.vargs(H.dget("Ira"), True), H.vargs(H.dget("Masha"), True)), 1)
        if H.we:
            times(H.worm_weight(H.vargs(H.Ira), H.vargs(H.Masha)), -1)
        if H.dwrote("MG", "HG"):
            for cur, n in ((True, 1), (False, -1)):
                mg, hg = (H.dget if cur else H.dpre)("MG"), (H.dget if cur else H.dpre)("HG")
                mg = H.flag(bit(mg))
                if not mg:
                    times(ext("PolarReweight"), n)
                if H.flag(simp(Not(eq(hg, 0)))):
                    times(ext("GammaGReweight" if mg else "GammaWReweight"), n)
        return p

    def c09(self):
        c, H, op = self.c, self.H, self.op
        acc, u = self.changed(), self.accept_draw()
        if not acc and u is None:
            self.ledger(False)
            conds = []
            for f in self.guards():
                try:
                    v = f()
                except Missing:
                    continue
                conds.append(v)
                if c.must(Or(*conds)):
                    break
            c.prove("refused-only-when-not-applicable", Or(*conds))
            c.cover("refused")
            return
        self.ledger(True)
        for f in self.guards():
            if not c.prove("not-applicable-is-refused", Not(f())):
                return
        if not acc:
            # replay the same proposal with the acceptance number zero
            c.cover("rejected")
            H.restore_initial()
            H.replay = list(H.draws[:-1]) + [("urn", Fraction(0), None)]
            H.draws = []
            ok = self.call() and not H.replay and self.changed()
            c.prove("accepted-at-zero-draw", ok)
            if not ok:
                return
            self.effects()
            p = self.ratio()
            if p is not None:
                c.prove("rejected-only-above-the-ratio", zr(u) >= zr(p))
            return
        c.cover("accepted")
        self.effects()
        p = self.ratio()
        c.prove("fermion-loops-well-formed", p is not None)
        if p is None:
            return
        if u is None:
            c.prove("accepted-without-a-draw-only-at-ratio-one", zr(p) >= 1)
        else:
            c.prove("accepted-only-below-the-ratio", Or(zr(u) < zr(p), zr(p) >= 1))

    # ---------------------------------------------------------------- C10
    def c10(self):
        c, H, op = self.c, self.H, self.op
        acc, u = self.changed(), self.accept_draw()
        if op not in (TOGG, TOWW) or self.H.dpre("HG") is None:
            ext = ("uT", "uRs", "uRx", "uRy", "uS")
            if not acc:
                c.prove("refused-or-rejected-changes-nothing", not H.dwrote(*ext))
        for r in list(H.regs.values()) + [H.ORW, H.LAT]:
            c.prove("parameters-are-not-written", not r.cells)
        ok = True
        for (a, s, off) in H.M.cells:
            ok = ok and a in (H.aacc, H.aprop)
        c.prove("parameters-are-not-written", ok)
        k = z3.Int("sk:stat")
        c.assume(z3.And(k >= 0, k < H.nup * H.cols))
        here = zi(op * H.cols) + H.o
        for arr, f0, inc, nm in ((H.aprop, H.prop0, acc or u is not None, "attempt-counter"), (H.aacc, H.acc0, acc, "acceptance-counter")):
            v = f0(k)
            for (a, s, off), (size, w) in H.M.cells.items():
                if a is arr and off == 0:
                    v = z3.If(eq(k, H.M.slots[a][s]), zr(w), v)
            want = z3.If(k == here, f0(k) + 1, f0(k)) if inc else f0(k)
            c.prove(nm, v == want)
        c.cover("accepted" if acc else "rejected" if u is not None else "refused")


class Missing(Exception):
    pass


def ops_tasks(prog, lay, pid, ops, native, opts=None, maxloop=3):
    C = mkheap.contracts(lay, pid != "C04")
    out = []
    for op in ops:
        def fn(ctx, op=op):
            p = int(pid[1:])
            r = Run(ctx, lay, op, "mono" if p in (8, 9) else "abstract", p == 6, maxloop)
            ok = r.call()
            if p == 4:
                ctx.prove("no-update-aborts", ok, "the update aborts: %s" % r.aborted)
            if not ok:
                return
            if p < 9 and r.changed():
                ctx.cover("accepted")
            {4: r.c04, 5: r.c05, 6: r.c06, 7: r.c07, 8: r.c08, 9: r.c09, 10: r.c10}[p]()
        o = {"fpmul": "mono", "max_s": 700, "weight": 200 if op == RLOOP else 100 if op in (ADD, ADDD) else 50 if op in (MOVEG, DEL, DELD, BACK) else 1}
        o.update(opts or {})
        out.append(Task(NAMES[op], fn, C, o, native=native, covers=["accepted", "rejected", "refused"] if pid in ("C09", "C10") else ["accepted"],
                        bounded="fermion loops of at most %d vertices" % maxloop if op == RLOOP else None,
                        unless="ChangeRLoop (any length)" if op == RLOOP else None))
    if RLOOP in ops:
        from . import rloop
        out.append(rloop.task(lay, pid, native))
    if pid in ("C04", "C05", "C07", "C08") and len(ops) > 3:
        from . import fix
        out += fix.tasks(lay, pid, native)
    return out
