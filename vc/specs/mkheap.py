"""Lazy heap of an arbitrary well-formed Feynman diagram and the callee contracts of the updates.

The pre-state of every update is *any* diagram that satisfies the global invariants: objects, links and
field values are materialised only when the code or a postcondition reads them, a pointer read chooses
(all choices are explored) between every already materialised object that may stand there and one not
seen before, and the instances of the invariants that involve materialised objects are assumed.
"""
from fractions import Fraction

import z3

from .. import mono
from ..exec import (NULL, And, Array, Implies, Infeasible, Not, Opaque, Or, Ptr, Thrown, ZeroInit, eq, is_sym, simp, zi, zr)
from ..ir import DOUBLE, PTR, IntT, Unsupported

I8, I32, I64 = IntT(8), IntT(32), IntT(64)
IN, OUT = 0, 1
DOWN, UP = 0, 1
MAX_K = 10000
PER = 2 * MAX_K + 1
MAXN = 9           # the statistics arrays have MAX_ORDER=10 columns


class Obj:
    def __init__(self, H, kind, name, pre):
        self.H, self.kind, self.name, self.pre_live, self.live = H, kind, name, pre, pre
        self.f = {}           # materialised pre-state fields
        self.axioms = set()

    def __repr__(self):
        return self.name


def bit(v):
    """a stored bool/flag as a python bool or z3 bool"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v & 1)
    if is_sym(v) and z3.is_bool(v):
        return v
    return simp(v != 0)


class Heap:
    def __init__(self, ctx, lay, weights="abstract", conserve=False):
        self.ctx, self.lay, self.weights, self.conserve = ctx, lay, weights, conserve
        self.V, self.G, self.W = [], [], []       # pre-live, materialised
        self.added, self.removed = [], []
        self.draws = []            # (kind, value, info)
        self.replay = None
        self.urn_accept = None     # None: free; "zero": the acceptance draw is 0
        self.accept_draws = []
        self.by_region = {}
        self.maxloop, self.nloop = None, 0      # bound on the fermion loop that is walked (ChangeRLoop only)
        self.wkeys = []            # (tag, key tuple, atom)
        self.memo = {}
        self.lg0, self.lw0 = ctx.uf("ghash0", "int", "int"), ctx.uf("whash0", "int", "int")
        L = lay
        self.fields = {
            "V": {L("diag::Vertex", "Name"): ("Name", 4), L("diag::Vertex", "nG"): ("nG0", 8), L("diag::Vertex", "nG") + 8: ("nG1", 8),
                  L("diag::Vertex", "nW"): ("nW", 8), L("diag::Vertex", "R"): ("Rs", 4), L("diag::Vertex", "R") + 4: ("Rx", 4),
                  L("diag::Vertex", "R") + 8: ("Ry", 4), L("diag::Vertex", "_spin"): ("s0", 4), L("diag::Vertex", "_spin") + 4: ("s1", 4),
                  L("diag::Vertex", "Tau"): ("Tau", 8), L("diag::Vertex", "Dir"): ("Dir", 4)},
            "G": {L("diag::GLine", "Name"): ("Name", 4), L("diag::GLine", "IsMeasure"): ("meas", 1), L("diag::GLine", "IsGGGammaG"): ("gam", 1),
                  L("diag::GLine", "nVer"): ("v0", 8), L("diag::GLine", "nVer") + 8: ("v1", 8), L("diag::GLine", "K"): ("K", 4),
                  L("diag::GLine", "Weight"): ("Re", 8), L("diag::GLine", "Weight") + 8: ("Im", 8)},
            "W": {L("diag::WLine", "Name"): ("Name", 4), L("diag::WLine", "IsWorm"): ("worm", 1), L("diag::WLine", "IsDelta"): ("delta", 1),
                  L("diag::WLine", "IsMeasure"): ("meas", 1), L("diag::WLine", "IsWWGammaW"): ("gam", 1), L("diag::WLine", "nVer"): ("v0", 8),
                  L("diag::WLine", "nVer") + 8: ("v1", 8), L("diag::WLine", "K"): ("K", 4), L("diag::WLine", "Weight"): ("Re", 8),
                  L("diag::WLine", "Weight") + 8: ("Im", 8)}}
        self.off = {k: {n: o for o, (n, s) in d.items()} for k, d in self.fields.items()}
        self.tyof = {}
        for k, d in self.fields.items():
            for o, (n, s) in d.items():
                self.tyof[k, n] = PTR if n in ("nG0", "nG1", "nW", "v0", "v1") else DOUBLE if n in ("Tau", "Re", "Im") else I8 if s == 1 else I32
        self.setup()

    # ------------------------------------------------------------ regions
    def setup(self):
        c, L = self.ctx, self.lay
        self.N = z3.Int("in:N")
        self.o = z3.Int("in:o")
        c.assume(z3.And(self.N >= 1, self.N <= MAXN, self.o >= 0, self.o <= self.N))
        self.beta = mono.atom(c, "beta")
        S = lambda k, n: L(k, n)
        D = "diag::Diagram"
        self.dG, self.dW, self.dV = S(D, "G"), S(D, "W"), S(D, "Ver")
        self.o_gh, self.o_wh = S(D, "GHash"), S(D, "WHash")
        self.aG, self.aW = Array(self.o_gh, 1, PER, "GHash"), Array(self.o_wh, 1, MAX_K + 1, "WHash")
        self.o_worm, self.o_ext = S(D, "Worm"), S(D, "UExt")
        WC, EP = "diag::WormClass", "weight::ExtPoint"
        self.dfields = {S(D, "Order"): ("Order", 4), S(D, "Phase"): ("PhRe", 8), S(D, "Phase") + 8: ("PhIm", 8), S(D, "Weight"): ("Re", 8),
                        S(D, "Weight") + 8: ("Im", 8), S(D, "SignFermiLoop"): ("sfl", lay_size(L, D, "SignFermiLoop")), S(D, "MeasureGLine"): ("MG", 1), S(D, "GMeasure"): ("GM", 8),
                        S(D, "WMeasure"): ("WM", 8), S(D, "HasGammaGW"): ("HG", 4), S(D, "Vin"): ("Vin", 8), S(D, "Vout"): ("Vout", 8),
                        S(D, "Lat"): ("Lat", 8),
                        self.o_worm + S(WC, "Exist"): ("we", 1), self.o_worm + S(WC, "Ira"): ("Ira", 8), self.o_worm + S(WC, "Masha"): ("Masha", 8),
                        self.o_worm + S(WC, "K"): ("wK", 4), self.o_worm + S(WC, "dSpin"): ("wS", 4), self.o_worm + S(WC, "Weight"): ("wW", 8),
                        self.o_ext + S(EP, "Tau"): ("uT", 8), self.o_ext + S(EP, "R"): ("uRs", 4), self.o_ext + S(EP, "R") + 4: ("uRx", 4),
                        self.o_ext + S(EP, "R") + 8: ("uRy", 4), self.o_ext + S(EP, "Spin"): ("uS", 4)}
        self.doff = {n: o for o, (n, s) in self.dfields.items()}
        self.dty = {n: (PTR if n in ("GM", "WM", "Vin", "Vout", "Ira", "Masha", "Lat") else DOUBLE if n in ("PhRe", "PhIm", "Re", "Im", "wW", "uT") else
                        I8 if s == 1 else I32) for o, (n, s) in self.dfields.items()}
        if self.dfields[S(D, "SignFermiLoop")][1] == 8:
            self.dty["sfl"] = DOUBLE
        self.D = c.alloc("diagram", size=L.size(D), arrays=[self.aG, self.aW], init=Init(self, self.init_d, self.unit_d))
        self.d = {}
        # order as a real factor
        self.e = z3.If(self.o > 0, self.o, z3.IntVal(1))
        self.mgb = z3.Bool("in:measureG")
        # Markov
        M = "mc::Markov"
        self.nup = 23
        self.o_pc, self.o_acc, self.o_prop = S(M, "ProbofCall"), S(M, "Accepted"), S(M, "Proposed")
        self.cols = (self.o_prop - self.o_acc) // 8 // self.nup
        self.apc = Array(self.o_pc, 8, self.nup, "ProbofCall")
        self.asum = Array(S(M, "SumofProbofCall"), 8, self.nup, "SumofProbofCall")
        self.aacc = Array(self.o_acc, 8, self.nup * self.cols, "Accepted")
        self.aprop = Array(self.o_prop, 8, self.nup * self.cols, "Proposed")
        self.M = c.alloc("markov", size=L.size(M), arrays=[self.apc, self.asum, self.aacc, self.aprop], init=Init(self, self.init_m, None))
        self.acc0, self.prop0 = c.uf("acc0", "int", "real"), c.uf("prop0", "int", "real")
        self.mfields = {S(M, n): n for n in ("Counter", "Beta", "Order", "Lat", "runGamma3", "OrderReWeight", "WormSpaceReweight", "PolarReweight",
                                             "GammaGReweight", "GammaWReweight", "Diag", "Worm", "UExt", "Sigma", "Polar", "GammaG", "GammaW", "G", "W", "RNG")}
        self.regs = {}
        for n in ("Counter", "WormSpaceReweight", "PolarReweight", "GammaGReweight", "GammaWReweight", "G", "W", "RNG", "Sigma", "Polar", "GammaG", "GammaW"):
            self.regs[n] = c.alloc(n, init=lambda ctx, r, key, size, ty, n=n: self.init_x(n, key, size, ty))
        self.aorw = Array(0, 8, None, "OrderReWeight")
        self.aorw.limit = self.N + 1
        self.ORW = c.alloc("OrderReWeight", arrays=[self.aorw], init=self.init_orw)
        LT = "Lattice"
        self.vol, self.subvol = z3.Int("in:Vol"), z3.Int("in:SublatVol")
        self.size = [z3.Int("in:Lx"), z3.Int("in:Ly")]
        c.assume(z3.And(self.vol >= 1, self.subvol >= 1, self.size[0] >= 1, self.size[1] >= 1))
        lf = {S(LT, "Vol"): self.vol, S(LT, "SublatVol"): self.subvol, S(LT, "Size"): self.size[0], S(LT, "Size") + 4: self.size[1], S(LT, "Dimension"): 2}
        self.LAT = c.alloc("lattice", init=lambda ctx, r, key, size, ty: lf.get(key[2], Opaque("lattice")) if size == 4 else None)
        mono.atom(c, "vol", z3.ToReal(self.vol))
        mono.atom(c, "subvol", z3.ToReal(self.subvol))
        self.norm_atom = None
        # the worm
        self.we = c.branch(z3.Bool("in:worm"))
        if self.we:
            c.assume(self.o > 0)
        self.Ira = self.Masha = None
        if self.we:
            self.wK = z3.Int("in:wK")
            self.wS = z3.Int("in:wS")
            c.assume(z3.And(self.wK >= -MAX_K, self.wK <= MAX_K, z3.Or(self.wS == 1, self.wS == -1)))
            self.Ira = self.fresh_obj("V")
            self.Masha = self.fresh_obj("V")

    def init_x(self, n, key, size, ty):
        if n == "Counter" and size == 8:
            return z3.Int("counter0")
        if n.endswith("eweight") and size == 8 and key[2] == 0:
            return mono.atom(self.ctx, n)
        return Opaque(n)

    def init_orw(self, ctx, r, key, size, ty):
        if key[0] is None:
            raise Unsupported("access to OrderReWeight")
        return self.orw(r.slots[key[0]][key[1]])

    def orw(self, idx):
        """the reweighting factor of an order (positive)"""
        idx = simp(idx)
        lst = self.memo.setdefault("orw", [])
        for i, a in lst:
            if (not is_sym(i) and not is_sym(idx) and i == idx) or (is_sym(i) and is_sym(idx) and i.eq(idx)):
                return a
        for i, a in lst:
            if self.ctx.must(eq(i, idx)):
                return a
        a = mono.atom(self.ctx, ("orw", len(lst)))
        lst.append((idx, a))
        return a

    def pc(self, op):
        return mono.atom(self.ctx, ("pc", op))

    def init_m(self, r, key, size, ty):
        a, s, off = key
        if a is self.apc:
            i = r.slots[a][s]
            if is_sym(i):
                i = self.ctx.concretize(i)
            return self.pc(i)
        if a is self.asum:
            i = r.slots[a][s]
            if is_sym(i):
                i = self.ctx.concretize(i)
            return z3.Real("sum!%d" % i)
        if a is self.aacc:
            return self.acc0(zi(r.slots[a][s]))
        if a is self.aprop:
            return self.prop0(zi(r.slots[a][s]))
        n = self.mfields.get(off)
        if n is None:
            return Opaque("markov+%d" % off)
        if n in self.regs:
            return Ptr(self.regs[n])
        if n == "Beta":
            return self.beta
        if n == "Order":
            return self.N
        if n == "Lat":
            return Ptr(self.LAT)
        if n == "OrderReWeight":
            return Ptr(self.ORW)
        if n == "Diag":
            return Ptr(self.D)
        if n == "Worm":
            return Ptr(self.D, self.o_worm)
        if n == "UExt":
            return Ptr(self.D, self.o_ext)
        if n == "runGamma3":
            b = z3.Int("in:runGamma3")
            self.ctx.assume(z3.Or(b == 0, b == 1))
            return b
        raise Unsupported(n)

    # ------------------------------------------------------------- diagram
    def unit_d(self, key):
        if key[0] is not None:
            return 1
        f = self.dfields.get(key[2])
        return f[1] if f else 1

    def init_d(self, r, key, size, ty):
        a, s, off = key
        c = self.ctx
        if a is self.aG or a is self.aW:
            u = (self.lg0 if a is self.aG else self.lw0)(zi(r.slots[a][s]))
            c.assume(z3.Or(u == 0, u == 1))
            if a is self.aW and False:
                pass
            return u
        f = self.dfields.get(off)
        if f is None or f[1] != size:
            if f is None and size <= 8:
                return Opaque("diagram+%d" % off)
            return None
        return self.dpre(f[0])

    def dpre(self, n):
        """pre-state value of a member of the diagram"""
        if n in self.d:
            return self.d[n]
        v = self._dpre(n)
        self.d[n] = v
        return v

    def _dpre(self, n):
        c = self.ctx
        if n == "Order":
            return self.o
        if n == "Lat":
            return Ptr(self.LAT)
        if n == "we":
            return int(self.we)
        if n in ("Ira", "Masha"):
            return Ptr(getattr(self, n).region) if self.we else Opaque("stale worm end")
        if n in ("wK", "wS"):
            return getattr(self, n) if self.we else c.fresh(n)
        if n == "wW":
            return self.worm_weight(self.vargs(self.Ira), self.vargs(self.Masha)) if self.we else c.fresh(n, "real")
        if n in ("Re", "Im", "PhRe", "PhIm"):
            m = mono.catom(c, "Wd")
            if c.branch(self.o == 0):
                m = (Fraction(1), mono.of(c, self.norm())[1], ())
            ph = mono.cphase(c, m)
            if self.weights == "abstract" and n[:2] == "Ph":
                ph = mono.catom(c, "Ph0")
            self.d["Re"], self.d["Im"] = mono.cval(c, m)
            self.d["PhRe"], self.d["PhIm"] = mono.cval(c, ph)
            return self.d[n]
        if n == "sfl":
            v = z3.Real("in:signFermiLoop")
            c.assume(z3.And(z3.Or(v == 1, v == -1), z3.Implies(self.o == 0, v == 1)))
            mono.atom(c, "sfl", v, "n")
            return v
        if n == "MG":
            return z3.If(self.mgb, z3.IntVal(1), z3.IntVal(0))
        if n == "GM":
            return Ptr(self.measured().region) if c.branch(self.mgb) else Opaque("GMeasure unused")
        if n == "WM":
            return Opaque("WMeasure unused") if c.branch(self.mgb) else Ptr(self.measured().region)
        if n == "HG":
            return self.hg()
        if n in ("Vin", "Vout"):
            if c.branch(self.hg() == 0):
                return Opaque("stale vertex-function handle")
            x = self.gammaline()
            return Ptr(x.region, self.off[x.kind]["v0" if n == "Vin" else "v1"])
        if n == "uT":
            t = z3.Real("in:uT")
            c.assume(z3.And(t >= 0, t < self.beta))
            return t
        if n in ("uRs", "uRx", "uRy"):
            return self.site_comp(n[1:], "u")
        if n == "uS":
            s = z3.Int("in:uS")
            c.assume(z3.And(z3.Or(s == 0, s == 1), z3.Implies(self.hg() != 0, s == UP)))
            return s
        raise Unsupported("diagram member " + n)

    def hg(self):
        h = z3.Int("in:HasGammaGW")
        if "hg" not in self.memo:
            self.memo["hg"] = h
            self.ctx.assume(z3.And(h >= 0, h <= 2, z3.Implies(self.o == 0, h == 0)))
        return h

    def norm(self):
        return mono.atom(self.ctx, "NORM")

    def site_comp(self, comp, who):
        c = self.ctx
        v = z3.Int("in:%s.%s" % (who, comp))
        hi = {"Rs": self.subvol, "Rx": self.size[0], "Ry": self.size[1]}[comp]
        c.assume(z3.And(v >= 0, v < hi))
        return v

    def measured(self):
        """the measuring line"""
        m = self.memo.get("measured")
        if m is None:
            k = "G" if self.ctx.branch(self.mgb) else "W"
            m = self.pick_obj(k, [x for x in getattr(self, k) if not self.known(x, "meas", 0)])
            self.memo["measured"] = m
            self.setf(m, "meas", 1)
            for x in self.G + self.W:
                if x is not m and "meas" in x.f:
                    self.setf(x, "meas", 0)
            self.flags(m)
        return m

    def known(self, x, n, v):
        return n in x.f and not is_sym(x.f[n]) and x.f[n] == v

    def gammaline(self):
        m = self.memo.get("gamma")
        if m is None:
            k = "G" if self.ctx.branch(self.hg() == 1) else "W"
            if k == "W":
                self.ctx.assume(self.hg() == 2)
            m = self.pick_obj(k, [x for x in getattr(self, k) if not self.known(x, "gam", 0)])
            self.memo["gamma"] = m
            self.setf(m, "gam", 1)
            for x in self.G + self.W:
                if x is not m and "gam" in x.f:
                    self.setf(x, "gam", 0)
            self.flags(m)
        return m

    def flags(self, x):
        """the flags of one line exclude each other"""
        f = [x.f[n] for n in ("meas", "gam", "delta") if n in x.f]
        if len(f) > 1:
            self.ctx.assume(simp(sum(f) <= 1) if any(is_sym(v) for v in f) else sum(f) <= 1)

    def setf(self, x, n, v):
        if n in x.f:
            e = eq(x.f[n], v)
            if e is not True:
                self.ctx.assume(e)
                self.ctx.check_alive()
        x.f[n] = v

    # -------------------------------------------------------------- objects
    def fresh_obj(self, kind, pre=True):
        c = self.ctx
        lst = getattr(self, kind)
        n = "%s%d" % (kind.lower(), len(lst)) if pre else "new%s%d" % (kind, len(self.added))
        x = Obj(self, kind, n, pre)
        x.region = c.alloc(n, size=self.lay.size({"V": "diag::Vertex", "G": "diag::GLine", "W": "diag::WLine"}[kind]),
                           init=Init(self, self.init_obj, self.unit_obj))
        x.region.obj = x
        self.by_region[id(x.region)] = x
        if pre:
            lst.append(x)
            cap = self.e if kind == "W" else 2 * self.e
            if len(lst) > (1 if kind == "W" else 2):
                c.assume(cap >= len(lst))
                c.check_alive()
            if kind == "V" and self.conserve:
                self.conservation(x)
        return x

    def pick_obj(self, kind, cands):
        k = self.ctx.choose(len(cands) + 1, "object")
        return cands[k] if k < len(cands) else self.fresh_obj(kind)

    def unit_obj(self, r, key):
        f = self.fields[r.obj.kind].get(key[2])
        return f[1] if f else 1

    def init_obj(self, r, key, size, ty):
        x = r.obj
        f = self.fields[x.kind].get(key[2])
        if f is None or f[1] != size:
            return None if f is not None or size > 8 else Opaque("%s+%d" % (x.name, key[2]))
        if not x.pre_live:
            # recycled storage: arbitrary contents
            ty = self.tyof[x.kind, f[0]]
            if ty is PTR:
                return Opaque("recycled pointer")
            return self.ctx.fresh("junk", "real" if ty is DOUBLE else "int")
        v = self.pre(x, f[0])
        return Ptr(v.region) if isinstance(v, Obj) else v

    # value of a field before the update
    def pre(self, x, n):
        if n in x.f:
            return x.f[n]
        assert x.pre_live
        v = self._pre(x, n)
        if n in x.f:
            return x.f[n]
        x.f[n] = v
        self.settled(x, n)
        return x.f[n]

    def _pre(self, x, n):
        c = self.ctx
        k = x.kind
        if n == "Name":
            v = z3.Int("in:%s.Name" % x.name)
            cap = self.e if k == "W" else 2 * self.e
            c.assume(z3.And(v >= 0, v < cap))
            for y in getattr(self, k):
                if y is not x and "Name" in y.f:
                    c.assume(v != y.f["Name"])
            return v
        if k == "V":
            if n in ("nG0", "nG1"):
                d = int(n[2])
                g = self.pick_obj("G", [g for g in self.G if "v%d" % (1 - d) not in g.f])
                self.link_g(g, 1 - d, x)
                return g
            if n == "nW":
                d = self.pre(x, "Dir")
                w = self.pick_obj("W", [w for w in self.W if "v%d" % d not in w.f])
                self.link_w(w, d, x)
                return w
            if n == "Dir":
                d = c.choose(2, "Dir")
                if "pDir" in x.f:
                    c.assume(x.f["pDir"] == d)
                return d
            if n in ("Rs", "Rx", "Ry"):
                return self.site_comp(n, x.name)
            if n in ("s0", "s1"):
                v = z3.Int("in:%s.%s" % (x.name, n))
                c.assume(z3.Or(v == 0, v == 1))
                return v
            if n == "Tau":
                t = z3.Real("in:%s.Tau" % x.name)
                c.assume(Implies(self.o > 0, z3.And(t >= 0, t < self.beta)))
                return t
        if n in ("v0", "v1"):
            d = int(n[1])
            if k == "G":
                if self.maxloop:
                    self.nloop += 1
                    cands = [v for v in self.V if "nG%d" % (1 - d) not in v.f]
                    if self.nloop >= self.maxloop:
                        self.bounded = True
                        k = c.choose(len(cands), "object") if cands else c.assume(False)
                        v = cands[k]
                    else:
                        v = self.pick_obj("V", cands)
                else:
                    v = self.pick_obj("V", [v for v in self.V if "nG%d" % (1 - d) not in v.f])
                self.link_g(x, d, v)
            else:
                v = self.pick_obj("V", [v for v in self.V if "nW" not in v.f and v.f.get("Dir", d) == d])
                self.link_w(x, d, v)
            return v
        if n == "K":
            v = z3.Int("in:%s.K" % x.name)
            c.assume(z3.And(v >= -MAX_K, v <= MAX_K))
            if k == "G":
                c.assume(self.lg0(v + MAX_K) == 1)
                for y in self.G:
                    if y is not x and "K" in y.f:
                        c.assume(v != y.f["K"])
            else:
                c.assume(z3.And(v != 0, self.lw0(z3.If(v < 0, -v, v)) == 1))
                for y in self.W:
                    if y is not x and "K" in y.f:
                        c.assume(z3.And(v != y.f["K"], v != -y.f["K"]))
            return v
        if n in ("meas", "gam"):
            m = self.memo.get("measured" if n == "meas" else "gamma")
            if m is not None:
                x.f[n] = int(m is x)
            else:
                v = x.f[n] = z3.Int("in:%s.%s" % (x.name, n))
                if n == "meas":
                    w = self.mgb if k == "G" else z3.Not(self.mgb)
                else:
                    w = self.hg() == (1 if k == "G" else 2)
                c.assume(z3.And(v >= 0, v <= 1, z3.Implies(v == 1, w)))
                for y in self.G + self.W:
                    if y is not x and n in y.f:
                        c.assume(simp(v + y.f[n] <= 1))
            self.flags(x)
            return x.f[n]
        if n == "delta":
            v = x.f[n] = z3.Int("in:%s.delta" % x.name)
            c.assume(z3.And(v >= 0, v <= 1, z3.Implies(v == 1, self.o > 0)))
            self.flags(x)
            self.settled(x, "v0")
            return v
        if n == "worm":
            if not self.we:
                return 0
            e = [t.f.get("nW") for t in (self.Ira, self.Masha)]
            if any(y is x for y in e):
                return 1
            if all(y is not None for y in e):
                return 0
            v = x.f[n] = z3.Int("in:%s.worm" % x.name)
            c.assume(z3.And(v >= 0, v <= 1))
            return v
        if n in ("Re", "Im"):
            re, im = self.line_weight_pre(x)
            x.f["Re"], x.f["Im"] = re, im
            return x.f[n]
        raise Unsupported("field %s of %s" % (n, k))

    def link_g(self, g, d, v):
        g.f["v%d" % d] = v
        v.f["nG%d" % (1 - d)] = g
        self.settled(g, "v%d" % d)
        self.port_eq(v, 1 - d, g)

    def link_w(self, w, d, v):
        w.f["v%d" % d] = v
        v.f["nW"] = w
        if "Dir" not in v.f:
            v.f["Dir"] = d
            if "pDir" in v.f:
                self.ctx.assume(v.f["pDir"] == d)
        if self.we and (v is self.Ira or v is self.Masha):
            self.setf(w, "worm", 1) if "worm" in w.f else None
            if all("nW" in t.f for t in (self.Ira, self.Masha)):
                for y in self.W:
                    if "worm" in y.f and not any(t.f["nW"] is y for t in (self.Ira, self.Masha)):
                        self.setf(y, "worm", 0)
        self.settled(w, "v%d" % d)
        self.port_eq(v, "W", w)

    # instances of the invariants over materialised objects
    def settled(self, x, n):
        c = self.ctx
        if x.kind == "G" and n in ("v0", "v1") and "v0" in x.f and "v1" in x.f and "ends" not in x.axioms:
            x.axioms.add("ends")
            a, b = x.f["v0"], x.f["v1"]
            c.assume(eq(self.pre(a, "s1"), self.pre(b, "s0")))
            if a is not b:
                for r in ("Rs", "Rx", "Ry"):
                    c.assume(eq(self.pre(a, r), self.pre(b, r)))
        if x.kind == "W" and "v0" in x.f and "v1" in x.f:
            a, b = x.f["v0"], x.f["v1"]
            if "spin" not in x.axioms:
                x.axioms.add("spin")
                s = self.pre(a, "s0") - self.pre(a, "s1") + self.pre(b, "s0") - self.pre(b, "s1")
                k = 0
                if self.we:
                    k = sum(1 for v in (a, b) if v is self.Ira) - sum(1 for v in (a, b) if v is self.Masha)
                c.assume(eq(s, k * self.wS if k else 0))
                if self.we and {id(a), id(b)} == {id(self.Ira), id(self.Masha)}:
                    # both ends on one line: at least one of them can move
                    I, M = self.Ira, self.Masha
                    c.assume(Not(And(self.cnm(self.wS, I), self.cnm(-self.wS, M))))
            if "delta" in x.f and "delta" not in x.axioms and not self.known(x, "delta", 0):
                x.axioms.add("delta")
                c.assume(Implies(eq(x.f["delta"], 1), eq(self.pre(a, "Tau"), self.pre(b, "Tau"))))

    def cnm(self, ds, v):
        s0, s1 = self.pre(v, "s0"), self.pre(v, "s1")
        return Or(And(eq(ds, 1), eq(s0, DOWN), eq(s1, UP)), And(eq(ds, -1), eq(s0, UP), eq(s1, DOWN)))

    # momentum at the three ports of a vertex, before the identity of the line is known
    def portK(self, v, p):
        x = v.f.get("nW" if p == "W" else "nG%d" % p)
        if x is not None:
            return self.pre(x, "K")
        k = v.f.get("pK%s" % p)
        if k is None:
            k = z3.Int("in:%s.pK%s" % (v.name, p))
            self.ctx.assume(z3.And(k >= -MAX_K, k <= MAX_K))
            v.f["pK%s" % p] = k
        return k

    def port_eq(self, v, p, x):
        k = v.f.get("pK%s" % p)
        if k is not None:
            self.ctx.assume(eq(self.pre(x, "K"), k))

    def conservation(self, v):
        c = self.ctx
        s = self.portK(v, IN) - self.portK(v, OUT)
        kw = self.portK(v, "W")
        d = v.f.get("Dir")
        if d is None:
            d = v.f["pDir"] = z3.Int("in:%s.Dir" % v.name)
            c.assume(z3.And(d >= 0, d <= 1))
            s = s - z3.If(d == IN, kw, -kw)
        else:
            s = s - kw if d == IN else s + kw
        if self.we and (self.Ira is None or v is self.Ira):
            s = s - self.wk()
        elif self.we and (self.Masha is None or v is self.Masha):
            s = s + self.wk()
        t = c.fresh("per")
        c.assume(z3.And(t >= -2, t <= 2, s == PER * t))

    def wk(self):
        return z3.Int("in:wK")

    # -------------------------------------------------------------- current
    def get(self, x, n):
        v = self.ctx.load(Ptr(x.region, self.off[x.kind][n]), self.tyof[x.kind, n])
        if isinstance(v, Ptr) and v.region is not None:
            y = self.by_region.get(id(v.region))
            if y is None or v.off != 0:
                return v
            return y
        return v

    def dget(self, n):
        v = self.ctx.load(Ptr(self.D, self.doff[n]), self.dty[n])
        if isinstance(v, Ptr) and v.region is not None and v.off == 0 and id(v.region) in self.by_region:
            return self.by_region[id(v.region)]
        return v

    def wrote(self, x, *names):
        """was one of these fields of a pre-live object written?"""
        for n in names:
            o, sz = self.off[x.kind][n], self.fields[x.kind][self.off[x.kind][n]][1]
            for (a, s, off), (size, v) in x.region.cells.items():
                if off < o + sz and o < off + size:
                    return True
        return False

    def table(self, kind, k):
        """current entry of an occupation table"""
        a, u = (self.aG, self.lg0) if kind == "G" else (self.aW, self.lw0)
        v = u(zi(k))
        for (ar, s, off), (size, w) in self.D.cells.items():
            if ar is a and off == 0:
                b = w if (is_sym(w) and z3.is_int(w)) or isinstance(w, int) and not isinstance(w, bool) else z3.If(w, z3.IntVal(1), z3.IntVal(0)) if is_sym(w) else int(w)
                v = z3.If(eq(k, self.D.slots[a][s]), zi(b), v)
        return v

    def mod(self, x, *names):
        """written with a value that is not syntactically the old one (or the object is new)"""
        if not x.pre_live:
            return True
        for n in names:
            if n in self.off[x.kind] and self.wrote(x, n):
                if n not in x.f or x.f[n] is None:
                    return True
                a, b = self.get(x, n), x.f[n]
                if isinstance(a, Obj) or isinstance(b, Obj):
                    if a is not b:
                        return True
                elif isinstance(a, (Ptr, Opaque)) or simp(eq(a, b)) is not True:
                    return True
        return False

    def dwrote(self, *names):
        for n in names:
            o = self.doff[n]
            sz = self.dfields[o][1]
            for (a, s, off), (size, v) in self.D.cells.items():
                if a is None and off < o + sz and o < off + size:
                    return True
        return False

    def objs(self, kind=None):
        """all materialised live objects after the update (pre-live ones and added ones)"""
        out = []
        for k in ("V", "G", "W"):
            if kind in (None, k):
                out += [x for x in getattr(self, k) if x.live] + [x for x in self.added if x.kind == k and x.live]
        return out

    # -------------------------------------------------------------- weights
    def vargs(self, v, cur=False):
        f = self.get if cur else self.pre
        return tuple(f(v, n) for n in ("Rs", "Rx", "Ry")), f(v, "Tau"), f(v, "s0"), f(v, "s1")

    def ext(self, cur):
        f = self.dget if cur else self.dpre
        return tuple(f(n) for n in ("uRs", "uRx", "uRy")) + (f("uT"), f("uS"))

    def sflag(self, v):
        """a flag as a python bool or a z3 bool, without branching"""
        v = bit(v)
        return bool(v) if isinstance(v, int) else v

    @staticmethod
    def sel(f, a, b):
        if isinstance(f, bool):
            return a if f else b
        if (a is b) or (is_sym(a) and is_sym(b) and a.eq(b)):
            return a
        real = isinstance(a, Fraction) or isinstance(b, Fraction) or (is_sym(a) and z3.is_real(a)) or (is_sym(b) and z3.is_real(b))
        cv = zr if real else zi
        return z3.If(f, cv(a), cv(b))

    def extkey(self, used, ext):
        if used is False:
            return (0, 0, 0, Fraction(0), 0)
        e = ext()
        return tuple(self.sel(used, x, z) for x, z in zip(e, (0, 0, 0, Fraction(0), 0)))

    def gkey(self, meas, gam, R1, R2, t1, t2, s1, s2, ext):
        """which table and which entry of it a fermion line's weight is read from"""
        gam = simp(And(gam, Not(meas)))
        return "G", (self.sel(meas, 1, self.sel(gam, 2, 0)),) + R1 + R2 + (t1, t2, s1, s2) + self.extkey(gam, ext)

    def wkey(self, worm, meas, delta, gam, R1, R2, t1, t2, sp1, sp2, ext):
        u = lambda s: self.sel(worm, UP, s)
        meas = simp(And(meas, Not(delta)))
        gam = simp(And(gam, Not(meas), Not(delta)))
        tt = lambda t: self.sel(delta, Fraction(0), t)
        return "W", (self.sel(delta, 1, self.sel(meas, 2, self.sel(gam, 3, 0))),) + R1 + R2 + (tt(t1), tt(t2), u(sp1[0]), u(sp1[1]), u(sp2[0]), u(sp2[1])) + \
            self.extkey(gam, ext)

    def lookup(self, tag, key):
        """the complex value of a table look-up: equal arguments give equal values"""
        c = self.ctx
        if self.weights == "abstract":
            return c.fresh("wRe", "real"), c.fresh("wIm", "real")
        key = tuple(simp(k) for k in key)
        same = [(k, a) for t, k, a in self.wkeys if t == tag]
        for k, a in same:
            if all(eq(x, y) is True for x, y in zip(k, key)):
                return mono.cval(c, a)
        for k, a in same:
            if c.must(And(*[eq(x, y) for x, y in zip(k, key)])):
                return mono.cval(c, a)
        a = mono.catom(c, "%s%d" % (tag, len(self.wkeys)))
        self.wkeys.append((tag, key, a))
        return mono.cval(c, a)

    def worm_weight(self, a, b):
        c = self.ctx
        key = tuple(simp(k) for k in a[0] + b[0] + (a[1], b[1]))
        lst = self.memo.setdefault("ww", [])
        for k, v in lst:
            if all(eq(x, y) is True for x, y in zip(k, key)):
                return v
        for k, v in lst:
            if c.must(And(*[eq(x, y) for x, y in zip(k, key)])):
                return v
        v = mono.atom(c, ("wormw", len(lst)))
        lst.append((key, v))
        return v

    def flag(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if is_sym(v) and z3.is_bool(v):
            return self.ctx.branch(v)
        return self.ctx.branch(v != 0)

    def line_weight(self, x, cur):
        f = self.get if cur else self.pre
        a, b = f(x, "v0"), f(x, "v1")
        A, B = self.vargs(a, cur), self.vargs(b, cur)
        e = lambda: self.ext(cur)
        if x.kind == "G":
            t, k = self.gkey(self.sflag(f(x, "meas")), self.sflag(f(x, "gam")), A[0], B[0], A[1], B[1], A[3], B[2], e)
        else:
            t, k = self.wkey(self.sflag(f(x, "worm")), self.sflag(f(x, "meas")), self.sflag(f(x, "delta")), self.sflag(f(x, "gam")),
                             A[0], B[0], A[1], B[1], (A[2], A[3]), (B[2], B[3]), e)
        return self.lookup(t, k)

    def line_weight_pre(self, x):
        c = self.ctx
        if self.weights == "abstract":
            return c.fresh("lineRe", "real"), c.fresh("lineIm", "real")
        if c.branch(self.o == 0):
            m = mono.catom(c, "stale:" + x.name)
            return mono.cval(c, m)
        return self.line_weight(x, False)

    # -------------------------------------------------------------- two runs
    def snapshot(self):
        return {"cells": [(r, dict(r.cells), list(r.written)) for r in self.ctx.allocs],
                "live": [(x, x.live) for x in self.by_region.values()], "added": list(self.added), "removed": list(self.removed)}

    def restore_initial(self):
        """forget everything the update wrote"""
        for r in list(self.ctx.allocs):
            if r.kind == "obj" and r.name not in ("exception",):
                r.cells = {}
                r.written = []
        for x in self.by_region.values():
            x.live = x.pre_live
        self.added, self.removed = [], []


def lay_size(L, rec, m):
    t = L.rec[rec][m][1]
    return 8 if t in ("double", "real") else 4


class Init:
    def __init__(self, H, f, u):
        self.f, self.u = f, u

    def __call__(self, ctx, r, key, size, ty):
        return self.f(r, key, size, ty)

    def unit(self, r, key):
        if self.u is None:
            return 8
        try:
            return self.u(r, key)
        except TypeError:
            return self.u(key)


# ------------------------------------------------------------------ contracts
def site_at(ctx, p):
    return tuple(ctx.load(p.add(4 * i), I32) for i in range(3))


def put_c(ctx, p, v):
    ctx.store(p, v[0], DOUBLE)
    ctx.store(p.add(8), v[1], DOUBLE)


def get_c(ctx, p):
    return ctx.load(p, DOUBLE), ctx.load(p.add(8), DOUBLE)


def contracts(lay, tables=True):
    C = {}

    def H(ctx):
        return ctx.heap

    def kind_of(ctx, p):
        h = H(ctx)
        if p.region is not h.D:
            raise Unsupported("pool outside the diagram")
        return {h.dG: "G", h.dW: "W", h.dV: "V"}[p.off]

    def count(h, kind):
        n = h.e if kind == "W" else 2 * h.e
        d = sum(1 for x in h.added if x.kind == kind and x.live) - sum(1 for x in h.removed if x.kind == kind and x.pre_live)
        return n + d if d else n

    def draw(ctx, kind, mk, info=None):
        h = H(ctx)
        if h.replay is not None:
            if not h.replay:
                raise Unsupported("the second run draws more numbers than the first")
            k, v, i = h.replay.pop(0)
            if k != kind:
                raise Unsupported("the second run draws a different kind of number")
            h.draws.append((k, v, i))
            return v
        v = mk()
        h.draws.append((kind, v, info))
        return v

    def howmany(ctx, a, dem):
        return simp(count(H(ctx), kind_of(ctx, a[0])))

    def pick(ctx, a, dem):
        h = H(ctx)
        k = kind_of(ctx, a[0])

        def mk():
            return h.pick_obj(k, h.objs(k))
        return Ptr(draw(ctx, "pick", mk, (k, simp(count(h, k)))).region)

    def index(ctx, a, dem):
        h = H(ctx)
        k = kind_of(ctx, a[0])
        i = simp(a[1])
        ctx.prove("pool/index-names-a-live-object", And(zi(i) >= 0, zi(i) < count(h, k)) if is_sym(i) or is_sym(count(h, k)) else 0 <= i < count(h, k))
        if h.added or h.removed:
            raise Unsupported("positional access after the pool changed")
        for x in getattr(h, k):
            if "Name" in x.f and ctx.must(eq(x.f["Name"], i)):
                return Ptr(x.region)
        x = h.pick_obj(k, [x for x in getattr(h, k)])
        ctx.assume(eq(h.pre(x, "Name"), i))
        ctx.check_alive()
        x.f["Name"] = i
        return Ptr(x.region)

    def exist(ctx, a, dem):
        h = H(ctx)
        kind_of(ctx, a[0])
        if not isinstance(a[1], Ptr):
            return ctx.fresh("exist", "bool")
        x = h.by_region.get(id(a[1].region))
        return bool(x is not None and x.live)

    def add(ctx, a, dem):
        h = H(ctx)
        k = kind_of(ctx, a[0])
        n = simp(count(h, k))
        ctx.prove("pool/has-room", n < 2 * (MAXN + 1))
        if h.memo.get("recycled") is None and h.removed:
            raise Unsupported("object added after a removal")
        x = h.fresh_obj(k, False)
        x.live = True
        h.added.append(x)
        ctx.store(Ptr(x.region, h.off[k]["Name"]), n, I32)
        return Ptr(x.region)

    def remove(ctx, a, dem):
        h = H(ctx)
        k = kind_of(ctx, a[0])
        x = h.by_region.get(id(a[1].region)) if isinstance(a[1], Ptr) and a[1].region is not None else None
        ok = x is not None and x.kind == k and x.live
        ctx.prove("pool/removed-object-is-live", bool(ok))
        if not ok:
            raise Thrown("removing an object that is not live", True)
        x.live = False
        h.removed.append(x)

    for t in ("GLine", "WLine", "Vertex"):
        p = "diag::Bundle<diag::%s>::" % t
        C[p + "HowMany()"] = howmany
        C[p + "RandomPick(RandomFactory&)"] = pick
        C[p + "operator[](int)"] = index
        C[p + "operator()(int)"] = index
        C[p + "Exist(diag::%s*)" % t] = exist
        C[p + "Add()"] = add
        C[p + "Remove(diag::%s*)" % t] = remove

    # --- random numbers (C16)
    def urn(ctx, a, dem):
        def mk():
            u = ctx.fresh("in:urn", "real")
            ctx.assume(z3.And(u >= 0, u < 1))
            mono.urn(ctx, u)
            return u
        return draw(ctx, "urn", mk)

    def irn(ctx, a, dem):
        lo, hi = simp(a[1]), simp(a[2])

        def mk():
            if (lo, hi) == (0, 1):
                return ctx.choose(2, "bit")
            v = ctx.fresh("in:irn")
            ctx.assume(z3.And(v >= lo, v <= hi))
            return v
        return draw(ctx, "irn", mk, (lo, hi))
    C["RandomFactory::urn()"] = urn
    C["RandomFactory::irn(int, int)"] = irn

    # --- weights (C13)
    def gweight(ctx, a, dem, dirform):
        h = H(ctx)
        a = list(a)
        sret = a.pop(0)
        a.pop(0)
        d = IN
        if dirform:
            d = ctx.concretize(a.pop(0)) if is_sym(a[0]) else a.pop(0)
        R1, R2 = site_at(ctx, a[0]), site_at(ctx, a[1])
        t1, t2, s1, s2 = a[2:6]
        if d != IN:
            R1, R2, t1, t2, s1, s2 = R2, R1, t2, t1, s2, s1
        if h.weights == "abstract":
            put_c(ctx, sret, (ctx.fresh("gRe", "real"), ctx.fresh("gIm", "real")))
            return None
        me, ga = h.sflag(a[6]), h.sflag(a[7])
        t, k = h.gkey(me, ga, R1, R2, t1, t2, s1, s2, lambda: ext_at(ctx, a[8]))
        put_c(ctx, sret, h.lookup(t, k))

    def ext_at(ctx, p):
        h = H(ctx)
        L = lay
        b = "weight::ExtPoint"
        return site_at(ctx, p.add(L(b, "R"))) + (ctx.load(p.add(L(b, "Tau")), DOUBLE), ctx.load(p.add(L(b, "Spin")), I32))

    def wweight(ctx, a, dem, dirform):
        h = H(ctx)
        a = list(a)
        sret = a.pop(0)
        a.pop(0)
        d = IN
        if dirform:
            d = ctx.concretize(a.pop(0)) if is_sym(a[0]) else a.pop(0)
        R1, R2 = site_at(ctx, a[0]), site_at(ctx, a[1])
        t1, t2 = a[2:4]
        if h.weights == "abstract":
            put_c(ctx, sret, (ctx.fresh("wRe", "real"), ctx.fresh("wIm", "real")))
            return None
        sp1 = tuple(ctx.load(a[4].add(4 * i), I32) for i in range(2))
        sp2 = tuple(ctx.load(a[5].add(4 * i), I32) for i in range(2))
        if d != IN:
            R1, R2, t1, t2, sp1, sp2 = R2, R1, t2, t1, sp2, sp1
        wo, me, de, ga = (h.sflag(x) for x in a[6:10])
        t, k = h.wkey(wo, me, de, ga, R1, R2, t1, t2, sp1, sp2, lambda: ext_at(ctx, a[10]))
        put_c(ctx, sret, h.lookup(t, k))

    # --- occupation tables of the momenta (contracts proved by C04 on the bodies)
    if tables:
        def occupied(ctx, kind, p):
            h = H(ctx)
            k = ctx.load(p, I32) if isinstance(p, Ptr) else p
            if h.memo.get("table" + kind):
                return ctx.fresh("occ", "bool")
            if kind == "G":
                return simp(h.lg0(zi(k) + MAX_K) == 1)
            return simp(Or(eq(k, 0), h.lw0(z3.If(zi(k) < 0, -zi(k), zi(k))) == 1))

        def modify(kind):
            def f(ctx, a, dem):
                H(ctx).memo["table" + kind] = True
            return f
        for kind in "GW":
            C["diag::Diagram::%sHashCheck(Momentum)" % kind] = lambda c, a, d, kind=kind: occupied(c, kind, a[1])
            C["diag::Diagram::Add%sHash(Momentum)" % kind] = modify(kind)
            C["diag::Diagram::Remove%sHash(Momentum)" % kind] = modify(kind)
            C["diag::Diagram::Replace%sHash(Momentum, Momentum)" % kind] = modify(kind)

    S = "Site const&, Site const&, double, double, "
    C["weight::GClass::Weight(%sspin, spin, bool, bool, weight::ExtPoint*) const" % S] = lambda c, a, d: gweight(c, a, d, False)
    C["weight::GClass::Weight(int, %sspin, spin, bool, bool, weight::ExtPoint*) const" % S] = lambda c, a, d: gweight(c, a, d, True)
    C["weight::WClass::Weight(%sspin*, spin*, bool, bool, bool, bool, weight::ExtPoint*) const" % S] = lambda c, a, d: wweight(c, a, d, False)
    C["weight::WClass::Weight(int, %sspin*, spin*, bool, bool, bool, bool, weight::ExtPoint*) const" % S] = lambda c, a, d: wweight(c, a, d, True)
    C["weight::Norm::Weight()"] = lambda ctx, a, d: H(ctx).norm()

    def wormw(ctx, a, dem):
        return H(ctx).worm_weight((site_at(ctx, a[0]), a[2]), (site_at(ctx, a[1]), a[3]))
    C["weight::Worm::Weight(Site const&, Site const&, double, double)"] = wormw

    # --- complex arithmetic (C02)
    def ld(ctx, p):
        return mono.cof(ctx, *get_c(ctx, p)) if isinstance(p, Ptr) else rl(ctx, p)

    def rl(ctx, v):
        c, e = mono.of(ctx, v)
        return (c, e, ()) if c != 0 else mono.CZERO

    def out(ctx, p, m):
        if mono.isop(m):
            put_c(ctx, p, (Opaque("complex"), Opaque("complex")))
        else:
            put_c(ctx, p, mono.cval(ctx, m))

    def abstract(ctx):
        return H(ctx).weights == "abstract"

    def fresh_c(ctx, p):
        put_c(ctx, p, (ctx.fresh("cRe", "real"), ctx.fresh("cIm", "real")))

    def bin_(inv):
        def h(ctx, a, dem):
            if abstract(ctx):
                return fresh_c(ctx, a[0])
            x, y = ld(ctx, a[1]), ld(ctx, a[2])
            out(ctx, a[0], mono.cmul(ctx, x, mono.cinv(ctx, y) if inv else y))
        return h

    def asg(inv):
        def h(ctx, a, dem):
            if abstract(ctx):
                fresh_c(ctx, a[0])
                return a[0]
            x = ld(ctx, a[0])
            y = rl(ctx, ctx.load(a[1], DOUBLE)) if "double const&" in dem else ld(ctx, a[1])
            out(ctx, a[0], mono.cmul(ctx, x, mono.cinv(ctx, y) if inv else y))
            return a[0]
        return h
    for op, inv in (("*", False), ("/", True)):
        for t in ("Complex const&, Complex const&", "double, Complex const&", "Complex const&, double"):
            C["operator%s(%s)" % (op, t)] = bin_(inv)
        for t in ("Complex const&", "double const&"):
            C["Complex::operator%s=(%s)" % (op, t)] = asg(inv)

    def neg(ctx, a, dem):
        if abstract(ctx):
            return fresh_c(ctx, a[0])
        out(ctx, a[0], mono.cmul(ctx, (Fraction(-1), (), ()), ld(ctx, a[1])))
    C["operator-(Complex const&)"] = neg

    def mod(ctx, a, dem):
        if abstract(ctx):
            h = H(ctx)
            n = h.memo["nmod"] = h.memo.get("nmod", 0) + 1
            return mono.atom(ctx, ("mod", n))
        return mono.cmod(ctx, ld(ctx, a[0]))

    def phase(ctx, a, dem):
        if abstract(ctx):
            return fresh_c(ctx, a[0])
        out(ctx, a[0], mono.cphase(ctx, ld(ctx, a[1])))
    C["mod(Complex const&)"] = mod
    C["phase(Complex const&)"] = phase

    # --- momenta (C01)
    def mom(ctx, p):
        return ctx.load(p, I32)

    def shifted(ctx, s):
        h = H(ctx)
        s = simp(s)
        if isinstance(s, int):
            return (s + MAX_K) % PER - MAX_K
        for e, r in h.memo.setdefault("mom", []):
            if e.eq(s):
                return r
        r = ctx.fresh("mom")
        t = ctx.fresh("sh")
        ctx.assume(z3.And(r >= -MAX_K, r <= MAX_K, r == s - PER * t, t >= -1, t <= 1))
        h.memo["mom"].append((s, r))
        return r

    def mbin(sg):
        def h(ctx, a, dem):
            x = mom(ctx, a[1]) if isinstance(a[1], Ptr) else a[1]
            y = mom(ctx, a[2]) if isinstance(a[2], Ptr) else a[2]
            ctx.store(a[0], shifted(ctx, x + sg * y), I32)
        return h

    def masg(sg):
        def h(ctx, a, dem):
            x = mom(ctx, a[0])
            y = mom(ctx, a[1]) if isinstance(a[1], Ptr) else a[1]
            ctx.store(a[0], shifted(ctx, x + sg * y), I32)
            return a[0]
        return h
    m = "Momentum const&"
    for op, sg in (("+", 1), ("-", -1)):
        for t in ("%s, %s" % (m, m), m + ", int", "int, " + m):
            C["operator%s(%s)" % (op, t)] = mbin(sg)
        for t in (m, "int"):
            C["Momentum::operator%s=(%s)" % (op, t)] = masg(sg)

    def mmul(ctx, a, dem):
        f = a[1]
        if is_sym(f):
            f = ctx.concretize(f)
        if abs(f) > 1:
            raise Unsupported("momentum multiple")
        ctx.store(a[0], simp(f * mom(ctx, a[2])), I32)
    C["operator*(int, %s)" % m] = mmul

    def meq(neg):
        def h(ctx, a, dem):
            x = mom(ctx, a[0]) if isinstance(a[0], Ptr) else a[0]
            y = mom(ctx, a[1]) if isinstance(a[1], Ptr) else a[1]
            r = simp(eq(x, y))
            return simp(Not(r)) if neg else r
        return h
    for t in ("%s, %s" % (m, m), m + ", int", "int, " + m):
        C["operator==(%s)" % t] = meq(False)
        C["operator!=(%s)" % t] = meq(True)

    # --- sites (C11)
    def seq(neg):
        def h(ctx, a, dem):
            x, y = site_at(ctx, a[0]), site_at(ctx, a[1])
            r = simp(And(*[eq(p, q) for p, q in zip(x, y)]))
            return simp(Not(r)) if neg else r
        return h
    C["operator==(Site const&, Site const&)"] = seq(False)
    C["operator!=(Site const&, Site const&)"] = seq(True)
    return C
