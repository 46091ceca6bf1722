"""ChangeRLoop for fermion loops of any length: loop invariants over the arrays the update fills.

Ghost state: the fermion loop through the chosen vertex has L vertices; pos(x) is the number of fermion
lines from the chosen vertex to x (-1 off the loop).  Following the outgoing line adds one to the
position, modulo L; different vertices of the loop have different positions.  (That the outgoing lines of
a finite diagram close into loops is the only fact taken from outside: a permutation of a finite set.)

Invariants after k rounds
  collecting:  v[j] stands at position j (j <= k), a vertex is marked iff its position is in [0, k), an
               interaction line's counter is the number of its ends with position in [0, k), and all
               positions up to k are on one site;
  weighing:    GWeight[j], WWeight[j] (j < k) are the new weights of the lines of v[j]; the products are
               those of the new and old weights of all fermion lines leaving positions < k and of all
               interaction lines touching them, each once;
  moving:      vertices at positions < k are on the new site and their lines carry the new weights,
               everything else is untouched."""
from fractions import Fraction

import z3

from .. import mono
from ..check import Task
from ..exec import NULL, And, Implies, Not, Opaque, Or, PathEnd, Ptr, Thrown, ZeroInit, eq, is_sym, simp, zi, zr
from ..ir import DOUBLE, PTR, IntT, Unsupported
from ..loops import body, headers, succ
from . import markov, mkheap
from .markov import iff
from .mkheap import Heap, Obj

I8, I32 = IntT(8), IntT(32)
R3 = ("Rs", "Rx", "Ry")
FN = "mc::Markov::ChangeRLoop()"
TEMPS = ("ref.tmp", "agg.tmp", "tmp", "coerce")


class LoopHeap(Heap):
    def setup(self):
        super().setup()
        self.L = z3.Int("in:loop")
        self.ctx.assume(z3.And(self.L >= 1, self.L <= 2 * self.e))
        self.start = None
        self.lim = None          # positions up to here are known to be on the start's site
        self.k3 = None           # rounds of the moving loop, once it runs
        self.newR = None
        self.exact = False

    def pos(self, v):
        c = self.ctx
        if "pos" in v.f:
            return v.f["pos"]
        p = v.f["pos"] = z3.Int("pos:" + v.name)
        c.assume(z3.And(p >= -1, p < self.L))
        for y in self.V:
            if y is not v and "pos" in y.f:
                c.assume(z3.Or(p < 0, p != y.f["pos"]))
        if self.lim is not None:
            self.onsite(v)
        self.elsewhere(v)
        return p

    def elsewhere(self, v):
        """a vertex is no end of a line other than its own"""
        if "pos" in v.f and "nW" in v.f:
            for w in self.W:
                for d in (0, 1):
                    q = w.f.get("q%d" % d)
                    if q is not None and w is not v.f["nW"] and "v%d" % d not in w.f:
                        self.ctx.assume(z3.Or(q < 0, q != v.f["pos"]))

    def onsite(self, v):
        p = v.f["pos"]
        self.ctx.assume(Implies(And(zi(p) >= 0, zi(p) <= self.lim), And(*[eq(self.pre(v, r), self.pre(self.start, r)) for r in R3])))

    def settled(self, x, n):
        super().settled(x, n)
        if x.kind == "G" and n in ("v0", "v1") and "v0" in x.f and "v1" in x.f and "ring" not in x.axioms:
            x.axioms.add("ring")
            a, b = self.pos(x.f["v0"]), self.pos(x.f["v1"])
            self.ctx.assume(zi(b) == z3.If(zi(a) < 0, z3.IntVal(-1), z3.If(zi(a) == self.L - 1, z3.IntVal(0), zi(a) + 1)))

    def at(self, j):
        """the vertex at a position in [0, L]"""
        c = self.ctx
        if self.start is None:
            raise Unsupported("loop position before a vertex was chosen")
        if not c.must(zi(j) < self.L) and c.branch(eq(j, self.L)):
            return self.start
        for x in list(self.V):
            if c.branch(eq(self.pos(x), j)):
                return x
        x = self.fresh_obj("V")
        c.assume(eq(self.pos(x), j))
        c.check_alive()
        return x

    def endpos(self, w, d):
        """position of an end of an interaction line, known before the vertex is"""
        v = w.f.get("v%d" % d)
        if v is not None:
            return zi(self.pos(v))
        q = w.f.get("q%d" % d)
        if q is None:
            q = w.f["q%d" % d] = z3.Int("pos:%s.%d" % (w.name, d))
            self.ctx.assume(z3.And(q >= -1, q < self.L))
            o = w.f.get("q%d" % (1 - d))
            if o is not None:
                self.ctx.assume(z3.Or(q < 0, q != o))
            for y in self.V:
                if "pos" in y.f and "nW" in y.f:      # the vertex of another line, or this line's other end
                    self.ctx.assume(z3.Or(q < 0, q != y.f["pos"]))
        return q

    def link_w(self, w, d, v):
        super().link_w(w, d, v)
        q = w.f.get("q%d" % d)
        if q is not None:
            self.ctx.assume(eq(self.pos(v), q))
            self.ctx.check_alive()
        self.elsewhere(v)

    # ------------------------------------------------------------ new weights
    def site(self, v):
        return tuple(self.sel(simp(zi(self.pos(v)) >= 0), a, self.pre(v, r)) for a, r in zip(self.newR, R3))

    def neww(self, x):
        f = self.pre
        a, b = f(x, "v0"), f(x, "v1")
        A, B = self.vargs(a), self.vargs(b)
        e = lambda: self.ext(False)
        ra, rb = self.site(a), self.site(b)
        if x.kind == "G":
            t, k = self.gkey(self.sflag(f(x, "meas")), self.sflag(f(x, "gam")), ra, rb, A[1], B[1], A[3], B[2], e)
        else:
            t, k = self.wkey(self.sflag(f(x, "worm")), self.sflag(f(x, "meas")), self.sflag(f(x, "delta")), self.sflag(f(x, "gam")),
                             ra, rb, A[1], B[1], (A[2], A[3]), (B[2], B[3]), e)
        return self.lookup(t, k)

    # --------------------------------------------- the diagram while it is moved
    def reached(self, x, k):
        """did the first k rounds of the moving loop deal with it?"""
        if x.kind == "V":
            ps = [zi(self.pos(x))]
        elif x.kind == "G":
            ps = [zi(self.pos(self.pre(x, "v0")))]
        else:
            ps = [self.endpos(x, 0), self.endpos(x, 1)]
        return simp(Or(*[z3.And(p >= 0, p < k) for p in ps]))

    def moved(self, x, n, k):
        """value of a site or weight after k rounds of the moving loop"""
        if x.kind == "V":
            return self.sel(self.reached(x, k), self.newR[R3.index(n)], self.pre(x, n))
        if self.ctx.branch(self.reached(x, k)):
            return self.neww(x)[n == "Im"]
        return self.pre(x, n)

    def line_weight_pre(self, x):
        if not self.exact:        # any nonzero number will do
            return mono.cval(self.ctx, mono.catom(self.ctx, "weight of " + x.name))
        return super().line_weight_pre(x)

    def init_obj(self, r, key, size, ty):
        x = r.obj
        f = self.fields[x.kind].get(key[2])
        if self.k3 is not None and f is not None and f[1] == size and f[0] in R3 + ("Re", "Im") and x.pre_live:
            return self.moved(x, f[0], self.k3)
        return super().init_obj(r, key, size, ty)


class LoopRun(markov.Run):
    def __init__(self, ctx, lay):
        self.c, self.lay, self.op = ctx, lay, markov.RLOOP
        self.H = ctx.heap = LoopHeap(ctx, lay, "mono")
        self.o = self.H.o
        self.labs, self.seen = [], {}
        self.snap = None
        self.at, self.first = 0, True
        f = ctx.prog.func(ctx.prog.find(FN))
        mod = next(m for m in ctx.prog.modules if f.name in m.funcs)
        for g in list(mod.funcs.values()):
            if g.name.startswith("_ZN2mc6Markov") and "RandomPick" not in g.name and (g.lines or g.blocks):
                for lab in headers(g.parse()):
                    if not lab.startswith("arrayinit"):
                        ctx.loop_cuts[(g.name, lab)] = self.cut

    # ---------------------------------------------------------------- pieces
    def local(self, env, n):
        for k in (n, "%" + n):
            if k in env and isinstance(env[k], Ptr) and env[k].region is not None and env[k].off == 0:
                return env[k].region
        raise Unsupported("no local %s in ChangeRLoop" % n)

    def counter(self, f, lab, env):
        it = []
        for i in f.blocks[lab]:
            if i.op != "phi":
                break
            if i.ty.kind == "int" and i.ty.n >= 32:
                it.append(i.dst)
            elif i.ty.kind == "ptr":
                env[i.dst] = Opaque("line handle of an earlier round")
            else:
                raise Unsupported("loop variable of ChangeRLoop")
        if len(it) != 1:
            raise Unsupported("loop counters of ChangeRLoop")
        return it[0]

    def array(self, r, get):
        """give a local array its contents under the invariant"""
        if len(r.arrays) != 1:
            raise Unsupported("layout of a local array")
        a = r.arrays[0]
        r.cells, r.init, r.written = {}, {}, []
        r.slots[a] = []

        def init(ctx, reg, key, size, ty):
            if key[0] is None:
                raise Unsupported("access to a local array")
            return get(reg.slots[a][key[1]], key[2], size)
        r.initf = init

    def zeroed(self, r):
        return isinstance(r.initf, ZeroInit) and not r.cells or bool(r.cells) and all(v == 0 for (_, v) in r.cells.values() if not is_sym(v)) and \
            not any(is_sym(v) for (_, v) in r.cells.values())

    def elem(self, r, idx, ty, off=0):
        return self.c.load(Ptr(r, off, ((r.arrays[0].stride, zi(idx)),)), ty)

    def by_name(self, kind, idx):
        for x in getattr(self.H, kind):
            if "Name" in x.f and is_sym(idx) and zi(x.f["Name"]).eq(idx):
                return x
        for x in getattr(self.H, kind):
            if "Name" in x.f and self.c.must(eq(x.f["Name"], idx)):
                return x
        raise Unsupported("element that belongs to no object")

    def inv_v(self, idx, off, size):
        H, c = self.H, self.c
        if off or size != 8:
            raise Unsupported("access to v")
        return Ptr(H.at(idx).region) if c.branch(And(zi(idx) >= 0, zi(idx) <= H.lim)) else NULL

    def marked(self, x, k):
        p = zi(self.H.pos(x))
        return z3.If(z3.And(p >= 0, p < k), z3.IntVal(1), z3.IntVal(0))

    def touches(self, w, k):
        return simp(sum(z3.If(z3.And(p >= 0, p < k), z3.IntVal(1), z3.IntVal(0)) for p in (self.H.endpos(w, 0), self.H.endpos(w, 1))))

    def left(self, w, k):
        p, q = self.H.endpos(w, 0), self.H.endpos(w, 1)
        b = z3.And(p >= 0, q >= 0)
        return z3.If(z3.And(b, z3.Or(p < k, q < k)), z3.IntVal(0), z3.If(b, z3.IntVal(2), z3.If(z3.Or(p >= 0, q >= 0), z3.IntVal(1), z3.IntVal(0))))

    def new_of(self, kind, k):
        def get(idx, off, size):
            c, H = self.c, self.H
            if off not in (0, 8) or size != 8:
                raise Unsupported("access to a weight array")
            if not c.branch(And(zi(idx) >= 0, zi(idx) < k)):
                return Opaque("weight not computed yet")
            v = H.at(idx)
            return H.neww(H.pre(v, "nG1" if kind == "G" else "nW"))[off // 8]
        return get

    def freeze(self, keep):
        """remember everything a round must leave alone"""
        for r in self.c.allocs:
            if r.kind == "local" and r not in keep and r.name.split(":")[-1].lstrip("%").startswith(TEMPS):
                r.cells, r.init, r.initf = {}, {}, None
        self.snap = [(r, dict(r.cells)) for r in self.c.allocs if r not in keep]
        self.ndraws = len(self.H.draws)

    def frozen(self, after=False):
        """nothing outside the invariant changed (after: looked at once the loop is left and its locals may be in use again)"""
        ok = (after or len(self.H.draws) == self.ndraws) and not self.H.added and not self.H.removed
        for r, cells in self.snap:
            if r.kind == "local" and after or r.kind == "local" and r.name.split(":")[-1].lstrip("%").startswith(TEMPS):
                continue
            for k in set(cells) | set(r.cells):
                a, b = cells.get(k), r.cells.get(k)
                if a == b if not (a and b) else (a[0] == b[0] and (a[1] is b[1] or (not isinstance(a[1], (Ptr, Opaque)) and not isinstance(b[1], (Ptr, Opaque)) and
                                                                                  simp(eq(a[1], b[1])) is True))):
                    continue
                ok = False
        return ok

    def still(self, name, env):
        ok = self.frozen(env is None)
        if env is None and not ok:
            raise Unsupported("what follows a loop of ChangeRLoop changes the state before its last round is looked at")
        self.c.prove(name, ok)

    def any(self, kind):
        """an arbitrary object: one of the materialised ones or another"""
        return self.H.pick_obj(kind, list(getattr(self.H, kind)))

    # ------------------------------------------------------------------ cuts
    def cut(self, ctx, f, lab, prev, env):
        if lab not in self.labs:
            self.labs.append(lab)
        i = self.labs.index(lab)
        if i != len(self.labs) - 1 or i > 2:
            raise Unsupported("loop structure of ChangeRLoop")
        n = self.seen[lab] = self.seen.get(lab, 0) + 1
        ph = self.counter(f, lab, env)
        if n == 1:
            if env[ph] != 0 or is_sym(env[ph]):
                raise Unsupported("loop counter of ChangeRLoop does not start at zero")
            k = z3.Int("k%d" % (i + 1))
            self.leave(i)
            (self.begin1, self.begin2, self.begin3)[i](env, k)
            self.first = self.tested_first(f, lab)
            ctx.assume(z3.And(k >= 0, k <= self.H.L if self.first else k < self.H.L))
            env[ph] = k
            self.k = k
            self.at = i + 1
        else:
            ctx.prove("loop/rounds-are-counted", eq(env[ph], self.k + 1))
            ctx.prove("loop/no-more-rounds-than-vertices", self.k + 1 <= self.H.L if self.first else self.k + 1 < self.H.L)
            (self.step1, self.step2, self.step3)[i](env, self.k)
            raise PathEnd()

    def tested_first(self, f, lab):
        """is the loop left from its head, before the body of a round?"""
        B = body(f, lab)
        heads = [l for l in headers(f) if not l.startswith("arrayinit") and l not in B]

        def onward(l):      # leads on to another loop (an early return does not)
            seen, todo = set(), [l]
            while todo:
                x = todo.pop()
                if x in heads:
                    return True
                if x not in seen:
                    seen.add(x)
                    todo += succ(f.blocks[x][-1])
            return False
        exits = {(l, t) for l in B for t in succ(f.blocks[l][-1]) if t not in B}
        frm = {l for l, t in exits if onward(t)} or {l for l, t in exits}
        if frm <= headers(f)[lab]:
            return False
        if frm == {lab}:
            return True
        raise Unsupported("loop of ChangeRLoop without a test at its head or end")

    def leave(self, i):
        """a loop tested at its end is left after the body of its last round: check that round here"""
        if self.at != i or self.at == 0 or self.first:
            return
        c = self.c
        c.prove("loop/left-after-the-last-round", eq(self.k + 1, self.H.L))
        if c.choose(2, "last round"):
            (self.step1, self.step2, self.step3)[i - 1](None, self.k)
            raise PathEnd()
        self.at = 0
        self.k = self.H.L
        if i == 1:
            for r in (self.rv, self.rw, self.rf):
                r.cells = {}
        elif i == 2:
            get = lambda r: mono.cof(c, c.load(Ptr(r), DOUBLE), c.load(Ptr(r, 8), DOUBLE))
            self.Nw, self.Ow = get(self.rn), get(self.ro)
            for r in (self.rv, self.rG, self.rW):
                r.cells = {}
        else:
            for x in self.H.by_region.values():
                x.region.cells = {}
                for key in list(x.region.init):
                    if self.H.fields[x.kind].get(key[2], ("",))[0] in R3 + ("Re", "Im"):
                        del x.region.init[key]
            self.H.k3 = self.H.L

    def begin1(self, env, k):
        c, H = self.c, self.H
        self.rv, self.rf, self.rw = (self.local(env, n) for n in ("v", "flagVer", "flagW"))
        p = c.load(Ptr(self.rv), PTR)
        if H.start is None or not isinstance(p, Ptr) or p.region is not H.start.region or not (self.zeroed(self.rf) and self.zeroed(self.rw)) or self.changed() or H.M.cells:
            raise Unsupported("what ChangeRLoop does before its first loop")
        H.lim = k
        for x in H.V:
            if "pos" in x.f:
                H.onsite(x)
        self.array(self.rv, self.inv_v)
        self.array(self.rf, lambda idx, off, size: self.marked(self.by_name("V", idx), k))
        self.array(self.rw, lambda idx, off, size: self.touches(self.by_name("W", idx), k))
        self.freeze([self.rv, self.rf, self.rw])

    def step1(self, env, k):
        c, H = self.c, self.H
        self.still("loop/collecting-changes-nothing", env)
        case = c.choose(3, "invariant")
        if case == 1:
            v = self.any("V")
            c.prove("loop/visited-vertices-are-marked", eq(self.elem(self.rf, H.pre(v, "Name"), I8), self.marked(v, k + 1)))
            return
        if case == 2:
            w = self.any("W")
            c.prove("loop/ends-of-lines-are-counted", eq(self.elem(self.rw, H.pre(w, "Name"), I32), self.touches(w, k + 1)))
            return
        a = self.rv.arrays[0]
        for (ar, s, off) in list(self.rv.cells):
            c.prove("loop/only-the-next-vertex-is-stored", eq(self.rv.slots[a][s], k + 1))
        p = self.elem(self.rv, k + 1, PTR)
        y = H.by_region.get(id(p.region)) if isinstance(p, Ptr) and p.region is not None else None
        c.prove("loop/next-vertex-follows-the-line", isinstance(y, Obj) and y.kind == "V" and y.pre_live)
        if not isinstance(y, Obj) or y.kind != "V":
            return
        c.prove("loop/next-vertex-follows-the-line", eq(H.pos(y), z3.If(k + 1 == H.L, z3.IntVal(0), k + 1)))
        c.prove("loop/on-one-site", And(*[eq(H.pre(y, r), H.pre(H.start, r)) for r in R3]))

    def begin2(self, env, k):
        c, H = self.c, self.H
        c.prove("loop/all-vertices-are-collected", eq(self.k, H.L))
        H.lim = H.L
        for x in H.V:
            if "pos" in x.f:
                H.onsite(x)
        if self.rv.cells or self.rw.cells or self.rf.cells:
            raise Unsupported("the arrays change between the loops")
        nr = self.local(env, "newR")
        S = lambda n: self.lay("Site", n)
        g = lambda o: c.load(Ptr(nr, o), I32)
        self.newoff = (S("Sublattice"), S("Coordinate"), S("Coordinate") + 4)
        H.newR = tuple(g(o) for o in self.newoff)
        self.rG, self.rW = self.local(env, "GWeight"), self.local(env, "WWeight")
        self.rn, self.ro = self.local(env, "newWeight"), self.local(env, "oldWeight")
        one = (Fraction(1), Fraction(0))
        for r in (self.rn, self.ro):
            self.c_eq("loop/products-start-at-one", (c.load(Ptr(r), DOUBLE), c.load(Ptr(r, 8), DOUBLE)), one)
        c.prove("loop/nothing-changed-yet", not self.changed() and not H.M.cells)
        self.array(self.rv, self.inv_v)
        self.array(self.rw, lambda idx, off, size: self.left(self.by_name("W", idx), k))
        self.array(self.rG, self.new_of("G", k))
        self.array(self.rW, self.new_of("W", k))
        self.Nw, self.Ow = mono.catom(c, "product of the new weights"), mono.catom(c, "product of the old weights")
        for r, m in ((self.rn, self.Nw), (self.ro, self.Ow)):
            r.cells, r.init, r.written = {}, {}, []
            v = mono.cval(c, m)
            c.store(Ptr(r), v[0], DOUBLE), c.store(Ptr(r, 8), v[1], DOUBLE)
        self.freeze([self.rw, self.rG, self.rW, self.rn, self.ro])

    def step2(self, env, k):
        c, H = self.c, self.H
        self.still("loop/weighing-changes-nothing", env)
        if c.choose(2, "invariant"):
            y = self.any("W")
            c.prove("loop/each-interaction-line-is-counted-once", eq(self.elem(self.rw, H.pre(y, "Name"), I32), self.left(y, k + 1)))
            return
        x = H.at(k)
        g, w = H.pre(x, "nG1"), H.pre(x, "nW")
        n, o = self.Nw, self.Ow
        new = {y: mono.cof(c, *H.neww(y)) for y in (g, w)}
        old = {y: mono.cof(c, *self.prew(y)) for y in (g, w)}
        n, o = mono.cmul(c, n, new[g]), mono.cmul(c, o, old[g])
        first = And(*[Or(zi(H.pos(v)) < 0, zi(H.pos(v)) >= k) for v in (H.pre(w, "v0"), H.pre(w, "v1"))])
        if c.branch(first):
            n, o = mono.cmul(c, n, new[w]), mono.cmul(c, o, old[w])
        for r, m, nm in ((self.rn, n, "new"), (self.ro, o, "old")):
            self.c_eq("loop/each-line-once-in-the-%s-product" % nm, (c.load(Ptr(r), DOUBLE), c.load(Ptr(r, 8), DOUBLE)), mono.cval(c, m))
        for r, y, nm in ((self.rG, g, "fermion"), (self.rW, w, "interaction")):
            for (ar, s, off) in list(r.cells):
                c.prove("loop/only-the-weight-of-this-round-is-stored", eq(r.slots[ar][s], k))
            self.c_eq("loop/new-%s-line-weight" % nm, (self.elem(r, k, DOUBLE), self.elem(r, k, DOUBLE, 8)), mono.cval(c, new[y]))

    def begin3(self, env, k):
        c, H = self.c, self.H
        c.prove("loop/all-lines-are-weighed", eq(self.k, H.L))
        if any(r.cells for r in (self.rv, self.rG, self.rW)):
            raise Unsupported("the arrays change between the loops")
        nr = self.local(env, "newR")
        c.prove("loop/the-new-site-stays", And(*[eq(c.load(Ptr(nr, o), I32), v) for o, v in zip(self.newoff, H.newR)]))
        c.prove("loop/no-vertex-moved-yet", not any(x.region.cells for x in H.by_region.values()) and not H.added and not H.removed)
        self.array(self.rv, self.inv_v)
        self.array(self.rG, self.new_of("G", H.L))
        self.array(self.rW, self.new_of("W", H.L))
        for x in H.by_region.values():
            for key in list(x.region.init):
                if H.fields[x.kind].get(key[2], ("",))[0] in R3 + ("Re", "Im"):
                    del x.region.init[key]
        self.objs3 = [x.region for x in H.by_region.values()]
        H.k3 = k
        self.freeze(self.objs3)

    def step3(self, env, k):
        c, H = self.c, self.H
        self.still("loop/moving-changes-only-the-vertices-and-their-lines", env)
        for x in list(H.by_region.values()):
            fs = {"V": R3, "G": ("Re", "Im"), "W": ("Re", "Im")}[x.kind]
            offs = [(H.off[x.kind][n], H.fields[x.kind][H.off[x.kind][n]][1]) for n in fs]
            c.prove("loop/moving-changes-only-sites-and-weights", x.pre_live and all(any(o <= key[2] and key[2] + sz <= o + z for o, z in offs)
                                                                                     for key, (sz, _) in x.region.cells.items()))
        c.prove("loop/moving-changes-only-sites-and-weights", not H.added and not H.removed)
        kind = "VGW"[c.choose(3, "invariant")]
        x = self.any(kind)
        nm = "loop/%s" % ("vertices-move-to-the-new-site" if kind == "V" else "lines-get-their-new-weight")
        for n in (R3 if kind == "V" else ("Re", "Im")):
            if H.wrote(x, n):
                got = H.get(x, n)
                want = H.newR[R3.index(n)] if kind == "V" else H.neww(x)[n == "Im"]
                c.prove(nm, And(False if isinstance(got, Opaque) else eq(got, want), H.reached(x, k + 1)))
            else:
                c.prove(nm, iff(H.reached(x, k), H.reached(x, k + 1)))

    # ---------------------------------------------------------------- results
    def post(self, pid):
        c, H = self.c, self.H
        n = len(self.labs)
        if n > 1:
            self.leave(n)
        if n == 0:
            c.cover("refused")
            c.prove("refused-only-when-not-applicable", Or(H.o == 0, H.we))
            c.prove("refused-changes-nothing", not self.changed() and not H.draws and not H.M.cells)
            return
        c.prove("refused-only-when-not-applicable", n >= 2)
        if n < 2:
            return
        c.prove("not-applicable-is-refused", Not(Or(H.o == 0, H.we)))
        acc = n == 3
        c.cover("accepted" if acc else "rejected")
        if acc:
            c.prove("all-vertices-move", eq(self.k, H.L))
        if pid == 10:
            if not acc:
                c.prove("rejected-changes-nothing", not self.changed())
            return self.c10()
        if pid == 9:
            self.ledger(True)
            d = [v for kd, v, i in H.draws if kd == "irn"]
            c.prove("the-new-site-is-the-drawn-one", len(d) == 3 and And(*[eq(a, b) for a, b in zip(H.newR, (d[2], d[0], d[1]))]))
            p = mono.cmod(c, mono.cmul(c, self.Nw, mono.cinv(c, self.Ow)))
            u = self.accept_draw()
            if not acc:
                c.prove("rejected-only-above-the-ratio", u is not None and zr(u) >= zr(p))
            elif u is None:
                c.prove("accepted-without-a-draw-only-at-ratio-one", zr(p) >= 1)
            else:
                c.prove("accepted-only-below-the-ratio", Or(zr(u) < zr(p), zr(p) >= 1))
        if not acc:
            c.prove("rejected-changes-nothing", not self.changed())
            return
        allowed = [(H.doff[m], 8) for m in ("Re", "Im", "PhRe", "PhIm")]
        c.prove("only-weight-and-phase-of-the-diagram-change", all(a is None and any(o == off for o, _ in allowed) for (a, s, off) in H.D.cells))
        for x in H.by_region.values():
            c.prove("only-sites-and-weights-change", x.pre_live and x.live and not x.region.cells)
        H.exact = True
        if pid == 5:
            for v, hi in zip(H.newR, (H.subvol, H.size[0], H.size[1])):
                c.prove("site-in-lattice", And(zi(v) >= 0, zi(v) < hi))
            g = H.fresh_obj("G")
            a, b = H.get(g, "v0"), H.get(g, "v1")
            c.prove("fermion-line-on-one-site", And(*[eq(H.get(a, r), H.get(b, r)) for r in R3]))
        if pid == 8:
            for kind in "GW":
                x = H.fresh_obj(kind)
                self.c_eq("%s-line-weight-cached" % ("fermion" if kind == "G" else "interaction"), (H.get(x, "Re"), H.get(x, "Im")), H.line_weight(x, True))
            want = mono.cmul(c, mono.cmul(c, mono.cof(c, H.dpre("Re"), H.dpre("Im")), self.Nw), mono.cinv(c, self.Ow))
            self.c_eq("total-weight", (H.dget("Re"), H.dget("Im")), mono.cval(c, want))
            self.c_eq("phase-of-the-weight", (H.dget("PhRe"), H.dget("PhIm")), mono.cval(c, mono.cphase(c, want)))


def task(lay, pid, native):
    C = dict(mkheap.contracts(lay))
    n = "diag::Bundle<diag::Vertex>::RandomPick(RandomFactory&)"
    pick = C[n]

    def pick0(ctx, a, dem):
        h = ctx.heap
        p = pick(ctx, a, dem)
        if h.start is not None:
            raise Unsupported("two vertices are chosen")
        x = h.start = h.by_region[id(p.region)]
        if "pos" in x.f:
            ctx.assume(eq(x.f["pos"], 0))
            ctx.check_alive()
        else:
            for y in h.V:
                if y is not x and "pos" in y.f:
                    ctx.assume(zi(y.f["pos"]) != 0)
        x.f["pos"] = 0
        return p
    C[n] = pick0

    def fn(c):
        r = LoopRun(c, lay)
        if r.call():
            r.post(int(pid[1:]))
        else:
            c.prove("no-update-aborts", False, "the update aborts: %s" % r.aborted)
    return Task("ChangeRLoop (any length)", fn, C, {"fpmul": "mono", "max_s": 200, "weight": 300}, native=native, covers=["accepted", "rejected", "refused"])
