"""Rebuilding a diagram after the tables were exchanged or a configuration was read: Diagram::Reset and FixDiagram.

Start: any diagram of any size whose lines know their end points and whose vertices know their site, time
and spins; every link from a vertex to its lines, every cached weight, the worm and vertex-function flags of
lines, the order, total weight and phase are arbitrary.  The three loops are cut:

  lines:   after k rounds the total weight is the product of the weights of the first k fermion
           (interaction) lines times what it was before the loop; a round writes only the line it deals
           with and the links of its two vertices.

Every line is dealt with once, and each end of a vertex belongs to one line, so no round undoes another."""
import re
from fractions import Fraction

import z3

from .. import mono
from ..check import Task
from ..exec import And, Opaque, Or, PathEnd, Ptr, Thrown, eq, is_sym, simp, zi
from ..ir import DOUBLE, PTR, IntT, Unsupported
from ..loops import body, headers
from . import markov, mkheap
from .mkheap import Heap

FN = "diag::Diagram::FixDiagram()"
RESET = "diag::Diagram::Reset(Lattice&, weight::GClass&, weight::WClass&)"
STALE = {"V": ("nG0", "nG1", "nW", "Dir"), "G": ("gam", "Re", "Im"), "W": ("worm", "gam", "Re", "Im")}
OUTS = ("Order", "wW", "Re", "Im", "PhRe", "PhIm")


class FixHeap(Heap):
    def setup(self):
        super().setup()
        self.ctx.assume(self.hg() == 0)
        self.want = {"GWeight": self.regs["G"], "WWeight": self.regs["W"]}
        L = self.lay
        for n in ("GWeight", "WWeight"):
            self.dfields[L("diag::Diagram", n)] = (n, 8)
            self.doff[n] = L("diag::Diagram", n)
            self.dty[n] = PTR

    def _dpre(self, n):
        if n in OUTS:
            return self.ctx.fresh("stale " + n, "int" if n == "Order" else "real")
        if n in ("GWeight", "WWeight"):
            return Ptr(self.regs[n[0]])
        if n == "Lat":
            return Ptr(self.LAT)
        if n == "sfl":
            neg = self.ctx.choose(2, "sign of the fermion loops")
            if neg:
                self.ctx.assume(self.o > 0)
                self.ctx.check_alive()
            return Fraction(1 - 2 * neg) if self.dty["sfl"] is DOUBLE else 1 - 2 * neg
        return super()._dpre(n)

    def init_obj(self, r, key, size, ty):
        x = r.obj
        f = self.fields[x.kind].get(key[2])
        if x.pre_live and f is not None and f[1] == size and f[0] in STALE[x.kind]:
            if self.tyof[x.kind, f[0]] is PTR:
                return Opaque("stale link")
            return self.ctx.fresh("stale " + f[0], "real" if f[0] in ("Re", "Im") else "int")
        return super().init_obj(r, key, size, ty)


class FixRun(markov.Run):
    def __init__(self, ctx, lay, pid, bounded=None):
        self.c, self.lay, self.pid = ctx, lay, pid
        self.H = ctx.heap = FixHeap(ctx, lay, "mono")
        if bounded is None:
            f = ctx.prog.func(ctx.prog.find(FN))
            for lab in headers(f):
                ctx.loop_cuts[(f.name, lab)] = self.cut
        else:
            ctx.assume(self.H.e <= bounded)
        self.labs, self.seen = [], {}
        self.reset = False

    def on(self, pids, name, cond):
        if self.pid in pids:
            self.c.prove(name, cond)

    # ---------------------------------------------------------------- the loops
    def cut(self, ctx, f, lab, prev, env):
        c, H = self.c, self.H
        if lab not in self.labs:
            self.labs.append(lab)
        i = self.labs.index(lab)
        if i != len(self.labs) - 1 or i > 2:
            raise Unsupported("loop structure of FixDiagram")
        self.seen[lab] = n = self.seen.get(lab, 0) + 1
        it = [p for p in f.blocks[lab] if p.op == "phi"]
        if len(it) != 1 or it[0].ty.kind != "int":
            raise Unsupported("loop variables of FixDiagram")
        ph = it[0].dst
        cnt = H.e if i == 1 else 2 * H.e
        if n == 1:
            if is_sym(env[ph]) or env[ph] != 0:
                raise Unsupported("loop counter of FixDiagram does not start at zero")
            self.left_loop(i)
            self.k = k = z3.Int("k%d" % (i + 1))
            c.assume(z3.And(k >= 0, k <= cnt))
            for x in H.by_region.values():
                if x.region.cells:
                    raise Unsupported("lines are changed before the loops")
            if i < 2:
                if i == 0:
                    self.c_eq("rebuild/total-weight-starts-at-one", (H.dget("Re"), H.dget("Im")), (Fraction(1), Fraction(0)))
                self.P = mono.catom(c, "weight of the lines so far, loop %d" % i)
                v = mono.cval(c, self.P)
                for m, z in zip(("Re", "Im"), v):
                    c.store(Ptr(H.D, H.doff[m]), z, H.dty[m])
            self.dcells = dict(H.D.cells)
            env[ph] = k
            return
        if not c.must(eq(env[ph], self.k + 1)):
            raise Unsupported("loop counter of FixDiagram")
        if not c.must(self.k < cnt):
            raise Unsupported("loop bounds of FixDiagram")
        self.step(i, self.k)
        c.cover("round")
        raise PathEnd()

    def left_loop(self, i):
        """the loop before loop i ran to its end"""
        if i:
            n = self.H.e if i == 2 else 2 * self.H.e
            if not self.c.must(self.k == n):
                raise Unsupported("loop bounds of FixDiagram")

    def step(self, i, k):
        c, H = self.c, self.H
        for (key, v) in H.D.cells.items():
            o = self.dcells.get(key)
            if key[0] is None and key[2] in (H.doff["Re"], H.doff["Im"]) and i < 2:
                continue
            self.c.prove("rebuild/a-round-changes-only-the-total-weight", o is not None and o[0] == v[0] and eq(o[1], v[1]) is True)
        if i == 2:
            c.prove("rebuild/vertices-stay", not any(x.region.cells for x in H.by_region.values()))
            return
        kind = "GW"[i]
        xs = [x for x in getattr(H, kind) if "Name" in x.f and c.must(eq(x.f["Name"], k))]
        if not xs:
            raise Unsupported("a round of FixDiagram deals with no line")
        x = xs[0]
        self.line(x)
        a, b = H.pre(x, "v0"), H.pre(x, "v1")
        mine = {x: STALE[kind]}
        for v, d in ((a, 1), (b, 0)):
            mine[v] = mine.get(v, ()) + (("nG%d" % d,) if kind == "G" else ("nW", "Dir"))
        for y in H.by_region.values():
            offs = [(H.off[y.kind][n], H.fields[y.kind][H.off[y.kind][n]][1]) for n in mine.get(y, ())]
            c.prove("rebuild/a-round-changes-only-its-line-and-links", all(any(o == key[2] and sz == z for o, z in offs) for key, (sz, _) in y.region.cells.items()))
        want = mono.cmul(c, self.P, mono.cof(c, *self.weight(x)))
        if self.pid == 8:
            self.c_eq("rebuild/total-weight-takes-each-line-once", (H.dget("Re"), H.dget("Im")), mono.cval(c, want))

    # ---------------------------------------------------------------- one line
    def touches(self, x):
        H = self.H
        return int(H.we and any(v is t for v in (H.pre(x, "v0"), H.pre(x, "v1")) for t in (H.Ira, H.Masha)))

    def weight(self, x):
        """the look-up of the line as it stands, with the flags it must have"""
        H = self.H
        a, b = H.pre(x, "v0"), H.pre(x, "v1")
        A, B = H.vargs(a), H.vargs(b)
        ext = lambda: None
        if x.kind == "G":
            t, k = H.gkey(H.sflag(H.pre(x, "meas")), False, A[0], B[0], A[1], B[1], A[3], B[2], ext)
        else:
            t, k = H.wkey(bool(self.touches(x)), H.sflag(H.pre(x, "meas")), H.sflag(H.pre(x, "delta")), False, A[0], B[0], A[1], B[1], (A[2], A[3]), (B[2], B[3]), ext)
        return H.lookup(t, k)

    def line(self, x):
        c, H = self.c, self.H
        a, b = H.pre(x, "v0"), H.pre(x, "v1")
        if x.kind == "G":
            self.on((5,), "rebuild/vertices-know-their-fermion-lines", H.get(a, "nG1") is x and H.get(b, "nG0") is x)
        else:
            self.on((5,), "rebuild/vertices-know-their-interaction-line", H.get(a, "nW") is x and H.get(b, "nW") is x)
            self.on((5,), "rebuild/vertices-know-their-direction", And(eq(H.get(a, "Dir"), 0), eq(H.get(b, "Dir"), 1)))
            self.on((7,), "rebuild/worm-flag", eq(H.get(x, "worm"), self.touches(x)))
        self.on((5,), "rebuild/no-vertex-function-line", eq(H.get(x, "gam"), 0))
        if self.pid == 8:
            self.c_eq("rebuild/%s-line-weight-cached" % ("fermion" if x.kind == "G" else "interaction"), (H.get(x, "Re"), H.get(x, "Im")), self.weight(x))

    # ---------------------------------------------------------------- results
    def call(self):
        c, H = self.c, self.H
        try:
            if c.choose(2, "entry"):
                self.reset = True
                self.new = {n: c.alloc("new " + n, init=lambda *a: Opaque("table")) for n in ("Lat", "GWeight", "WWeight")}
                H.want = self.new
                c.call_dem(RESET, [Ptr(H.D)] + [Ptr(self.new[n]) for n in ("Lat", "GWeight", "WWeight")])
            else:
                c.call_dem(FN, [Ptr(H.D)])
        except Thrown as e:
            c.prove("no-update-aborts", False, "FixDiagram aborts: %s" % e.what)
            return False
        return True

    def post(self, P=None):
        c, H = self.c, self.H
        allowed = [H.doff[n] for n in OUTS]
        if self.reset:
            c.cover("reset")
            for n in self.new:
                c.prove("rebuild/uses-the-given-tables", Or(*[False]) if not isinstance(H.dget(n), Ptr) else H.dget(n).region is self.new[n] and H.dget(n).off == 0)
            allowed += [H.doff[n] for n in self.new]
        else:
            c.cover("fix")
        c.prove("rebuild/changes-nothing-else", all(a is None and off in allowed for (a, s, off) in H.D.cells) and not H.added and not H.removed and
                not H.M.cells and not H.draws)
        self.on((5, 8), "rebuild/order-is-the-number-of-interaction-lines", eq(H.dget("Order"), H.e))
        if self.pid != 8:
            return
        c.prove("rebuild/worm-weight", eq(H.dget("wW"), H.worm_weight(H.vargs(H.Ira), H.vargs(H.Masha)) if H.we else Fraction(1)))
        s = mono.cof(c, H.dpre("sfl"), Fraction(0))
        odd = c.branch(simp(H.e % 2 == 1))
        want = mono.cmul(c, mono.cmul(c, P, s), (Fraction(-1 if odd else 1), (), ()))
        self.c_eq("rebuild/total-weight", (H.dget("Re"), H.dget("Im")), mono.cval(c, want))
        self.c_eq("rebuild/phase-of-the-weight", (H.dget("PhRe"), H.dget("PhIm")), mono.cval(c, mono.cphase(c, want)))


def table_contracts(lay):
    """look-ups must go to the tables the diagram was given"""
    C = dict(mkheap.contracts(lay))
    for n in [n for n in C if n.startswith("weight::GClass::Weight(") or n.startswith("weight::WClass::Weight(")]:
        def call(c, a, d, f=C[n], k=n[8] + "Weight"):
            t = c.heap.want[k]
            c.prove("rebuild/uses-the-given-tables", isinstance(a[1], Ptr) and a[1].region is t and a[1].off == 0)
            return f(c, a, d)
        C[n] = call
    return C


def clear(lay, native):
    """ClearDiagram: afterwards no momentum is recorded and no line or vertex is live, whatever the diagram was"""
    C = dict(mkheap.contracts(lay))

    def kind(c, p):
        h = c.heap
        if not isinstance(p, Ptr) or p.region is not h.D or p.off not in (h.dG, h.dW, h.dV):
            raise Unsupported("pool outside the diagram")
        return {h.dG: "G", h.dW: "W", h.dV: "V"}[p.off]

    def howmany(c, a, d):
        return c.count[kind(c, a[0])]

    def remove(c, a, d):
        k = kind(c, a[0])
        c.prove("pool/removed-object-is-live", And(zi(a[1]) >= 0, zi(a[1]) < c.count[k]))
        c.count[k] = simp(c.count[k] - 1)

    def other(c, a, d):
        raise Unsupported("pool operation in ClearDiagram")
    for t in ("GLine", "WLine", "Vertex"):
        b = "diag::Bundle<diag::%s>::" % t
        for n in [n for n in C if n.startswith(b)]:
            C[n] = other
        C[b + "HowMany()"] = howmany
        C[b + "Remove(int)"] = remove
    m = "diag::Diagram::ClearDiagram()"

    def run(c, bound):
        H = c.heap = Heap(c, lay)
        if bound is None:
            c.count = {k: z3.Int("in:live" + k) for k in "GWV"}
            for v in c.count.values():
                c.assume(z3.And(v >= 0, v <= 2 * (mkheap.MAXN + 1)))
        else:
            c.count = {k: c.choose(bound + 1, "number of objects") for k in "GWV"}
        st, mine = {}, {}

        def step(f, lab, ph):
            """the constant a loop variable advances by"""
            back = [v for v, b in ph.a if b in headers(f)[lab]]
            d = [i.text for blk in f.blocks.values() for i in blk if i.dst is not None and any(v == ("l", i.dst) for v in back)]
            m = re.search(r"= (add|sub) (?:nsw |nuw )*i\d+ %\S+, (-?\d+)", d[0]) if len(d) == 1 else None
            return None if m is None else int(m.group(2)) * (1 if m.group(1) == "add" else -1)

        def cut(ctx, f, lab, prev, env):
            n = st.get(lab)
            ph = [i for i in f.blocks[lab] if i.op == "phi"]
            if len(ph) > 1 or any(i.ty.kind != "int" for i in ph):
                raise Unsupported("loop variables of ClearDiagram")
            if n is None:
                st[lab] = new = {}
                # a counter that runs along with the pool the loop empties: invariant counter -+ count = constant
                if ph:
                    k, v = mine[lab], env[ph[0].dst]
                    sg = next((t for t in (1, -1) if step(f, lab, ph[0]) == t), None)
                    if len(k) != 1 or sg is None:
                        raise Unsupported("loop variables of ClearDiagram")
                    k, = k
                    st[lab, "inv"] = (k, sg, simp(zi(v) + sg * zi(c.count[k])))
                for k in "GWV":
                    if c.must(eq(c.count[k], 0)):
                        new[k] = 0
                    else:
                        v = new[k] = c.fresh("left" + k)
                        c.assume(z3.And(v >= 0, v <= c.count[k]))
                c.count = dict(new)
                if ph:
                    k, sg, s = st[lab, "inv"]
                    env[ph[0].dst] = simp(s - sg * zi(new[k]))
                return
            if ph:
                k, sg, s = st[lab, "inv"]
                if not c.must(eq(zi(env[ph[0].dst]) + sg * zi(c.count[k]), s)):
                    raise Unsupported("loop counter of ClearDiagram")
            for k in "GWV":
                c.prove("clear/pools-only-shrink", And(zi(c.count[k]) >= 0, zi(c.count[k]) <= n[k]))
            c.prove("clear/each-round-removes-something", sum(zi(v) for v in c.count.values()) < sum(zi(v) for v in n.values()))
            raise PathEnd()
        if bound is None:
            f = c.prog.func(c.prog.find(m))
            rm = {"_ZN4diag6BundleINS_%d%sEE6RemoveEi" % (len(t), t): t[0] for t in ("GLine", "WLine", "Vertex")}
            for lab in headers(f):
                mine[lab] = {rm[i.a[0][1]] for b in body(f, lab) for i in f.blocks[b] if i.op in ("call", "invoke") and i.a[0][0] == "g" and i.a[0][1] in rm}
                if mine[lab]:
                    c.loop_cuts[(f.name, lab)] = cut
        c.call_dem(m, [Ptr(H.D)])
        c.cover("cleared")
        for k in "GWV":
            c.prove("clear/no-object-is-left", eq(c.count[k], 0))
        for a, hi in ((H.aG, mkheap.PER), (H.aW, mkheap.MAX_K + 1)):
            i = c.fresh("entry")
            c.assume(z3.And(i >= 0, i < hi))
            v = c.load(Ptr(H.D, a.off, ((1, i),)), IntT(8))
            c.prove("clear/no-momentum-is-recorded", eq(v, 0))
        c.prove("clear/changes-nothing-else", all(x is H.aG or x is H.aW for (x, s, off) in H.D.cells))
    opts = {"max_s": 120, "weight": 10, "auto_loops": True, "max_steps": 4000000}
    return [Task("ClearDiagram", lambda c: run(c, None), C, opts, native=native, covers=["cleared"]),
            Task("ClearDiagram (small)", lambda c: run(c, 2), C, opts, native=native, covers=["cleared"], bounded="at most two objects of each kind", unless="ClearDiagram")]


def tasks(lay, pid, native):
    if pid == "C04":
        return clear(lay, native)
    C = table_contracts(lay)
    p = int(pid[1:])

    def fn(c):
        r = FixRun(c, lay, p)
        if not r.call():
            return
        n = len(r.labs)
        if n < 2:
            raise Unsupported("loop structure of FixDiagram")
        r.left_loop(n)
        r.post(r.P)

    def small(c):
        r = FixRun(c, lay, p, 1)
        H = r.H
        if not r.call():
            return
        P = (Fraction(1), (), ())
        for i, kind in ((0, "G"), (1, "G"), (0, "W")):
            x = next((x for x in getattr(H, kind) if "Name" in x.f and c.must(eq(x.f["Name"], i))), None)
            c.prove("rebuild/deals-with-each-line", x is not None)
            if x is None:
                return
            r.line(x)
            P = mono.cmul(c, P, mono.cof(c, *r.weight(x)))
        r.post(P)
    opts = {"fpmul": "mono", "max_s": 120, "weight": 20}
    return [Task("FixDiagram", fn, C, opts, native=native, covers=["round", "fix", "reset"]),
            Task("FixDiagram (small)", small, C, opts, native=native, covers=["fix", "reset"], bounded="diagrams of one interaction line", unless="FixDiagram")]
