"""C03: pool (Bundle) contracts.

Abstract view of a pool of N objects: order : [0,N) -> objects and the live count n.
Representation invariant (assumed of the arbitrary pre-state, proved of the post-state):
    0 <= n <= N  and  for every position i in [0,N): order(i) is a pool object and order(i).Name == i.
The invariant makes order injective (names are a left inverse), hence a permutation of the N objects,
with inverse Name:  order(Name(o)) == o.  An object is live iff Name(o) < n.
The pre-state is lazily instantiated: only the positions and objects the code touches
(and the arbitrary ones of the postcondition) are ever constrained, so the proof is for
every permutation, every n and every object.
"""
import re

import z3

from .. import native as _n
from ..check import Task
from ..exec import (NULL, And, Array, Implies, Infeasible, Not, Opaque, Ptr, Thrown, eq, is_sym, simp, zi)
from ..ir import Unsupported

HARNESS = ["c03.cpp"]
SOURCES = ["module/diagram/component_bundle.cpp", "utility/rng.cpp", "utility/momentum.cpp", "utility/complex.cpp"]
NATIVE = _n.allsrc()
NEED_LAYOUT = True
NATIVE_SECS = 10
TYPES = {"GLine": "diag::GLine", "WLine": "diag::WLine", "Vertex": "diag::Vertex"}
OPS = ["add", "readd", "remove", "remove_dead", "remove_int", "recover", "lookup", "exist", "pick", "ctor"]
NATIVE_ONLY = [o + "_" + t for t in TYPES for o in OPS + ["history"]]
TRUSTED = ["finite pigeonhole: an injective map of [0,N) into N objects is a bijection"]
ASSUME = ["Add(T*) is called with the object most recently removed (position n), Remove(int) and lookup with a non-negative position"]


class PoolState:
    def __init__(self, ctx, lay, short, empty=False):
        self.ctx = ctx
        self.T = TYPES[short]
        rec = "diag::Bundle<class %s>" % self.T
        self.o_name = lay(rec, "_component_name")
        self.o_pool = lay(rec, "_component_bundle")
        self.o_n = lay(rec, "_available_space")
        self.o_str = lay(rec, "_bundle_name")
        self.size = lay.size(self.T)
        self.o_Name = lay(self.T, "Name")
        self.N = (self.o_str - self.o_pool) // self.size
        self.aname = Array(self.o_name, 8, self.N, "order")
        self.apool = Array(self.o_pool, self.size, self.N, "pool")
        self.ord0 = ctx.uf("order0", "int", "int")
        self.name0 = ctx.uf("name0", "int", "int")
        self.n0 = z3.Int("in:n")
        ctx.assume(z3.And(self.n0 >= 0, self.n0 <= self.N))
        self.r = ctx.alloc("bundle", size=lay.size(rec), arrays=[self.aname, self.apool], init=self.init)
        self.r.nbytes = lay.size(rec)
        self.p = Ptr(self.r)
        self.reading = False

    # axioms of the invariant, instantiated at every touched position / object
    def at(self, i):
        o = self.ord0(zi(i))
        self.ctx.assume(z3.And(o >= 0, o < self.N, self.name0(o) == zi(i)))
        return o

    def nm(self, o):
        n = self.name0(zi(o))
        self.ctx.assume(z3.And(n >= 0, n < self.N, self.ord0(n) == zi(o)))
        return n

    def init(self, ctx, r, key, size, ty):
        a, s, off = key
        if a is self.aname:
            if off == 0 and size == 8:
                return self.obj(self.at(r.slots[a][s]))
            raise Unsupported("partial order entry")
        if a is self.apool:
            o = r.slots[a][s]
            if off == self.o_Name and size == 4:
                return self.nm(o)
            return Opaque("payload")
        if off == self.o_n and size == 4:
            return self.n0
        return Opaque("bundle+%d" % off)

    def obj(self, o):
        if isinstance(o, int):
            return Ptr(self.r, self.o_pool + o * self.size)
        return Ptr(self.r, self.o_pool, ((self.size, o),))

    def index(self, p):
        """object number of a pointer into the pool"""
        if not (isinstance(p, Ptr) and p.region is self.r):
            return None
        d = p.off - self.o_pool
        if d % self.size:
            return None
        v = d // self.size
        for s, t in p.terms:
            if s != self.size:
                return None
            v = v + t
        return v

    # current contents
    def rd(self, p, ty):
        return self.ctx.load(p, ty)

    def name1(self, o):
        from ..ir import IntT
        return self.ctx.load(self.obj(o).add(self.o_Name), IntT(32))

    def ord1(self, i):
        from ..ir import PTR
        p = Ptr(self.r, self.o_name).add(i * 8) if isinstance(i, int) else Ptr(self.r, self.o_name, ((8, i),))
        return self.ctx.load(p, PTR)

    def n1(self):
        from ..ir import IntT
        return self.ctx.load(Ptr(self.r, self.o_n), IntT(32))

    def sko(self, nm):
        v = z3.Int(nm)
        self.ctx.assume(z3.And(v >= 0, v < self.N))
        return v

    def post_inv(self):
        c = self.ctx
        n = self.n1()
        c.prove("count-in-range", And(zi(n) >= 0, zi(n) <= self.N))
        i = self.sko("any_position")
        q = self.ord1(i)
        o = self.index(q)
        c.prove("order-holds-pool-objects", False if o is None else And(zi(o) >= 0, zi(o) < self.N))
        if o is not None:
            c.prove("object-carries-its-position", eq(self.name1(o), i))
        # frame: nothing but order entries, names and the count is written
        ok = True
        for (a, s, off) in self.r.written:
            if a is self.aname or (a is self.apool and off == self.o_Name) or (a is None and off == self.o_n):
                continue
            ok = False
        c.prove("frame-only-order-names-count", ok)

    def live0(self, o):
        return self.nm(o) < self.n0

    def live1(self, o):
        return zi(self.name1(o)) < zi(self.n1())


def bundle_fn(prog, T, sig):
    return prog.find("diag::Bundle<%s>::%s" % (T, sig))


def call(ctx, name, args):
    try:
        return ctx.call(name, args), False
    except Thrown as e:
        if e.fatal:
            raise
        return None, True


def mk(prog, lay, op, short):
    T = TYPES[short]
    f = lambda s: bundle_fn(prog, T, s)

    def begin(ctx, lo=0, hi=None):
        S = PoolState(ctx, lay, short)
        ctx.assume(And(S.n0 >= lo, S.n0 <= (S.N if hi is None else S.N + hi)))
        return S

    def t_add(ctx):
        S = begin(ctx)
        r, thrown = call(ctx, f("Add()"), [S.p])
        if ctx.branch(S.n0 == S.N):
            ctx.cover("full")
            ctx.prove("over-capacity-refused", thrown)
            S.post_inv()
            ctx.prove("count-unchanged", eq(S.n1(), S.n0))
            return
        ctx.cover("room")
        ctx.prove("accepted-within-capacity", not thrown)
        if thrown:
            return
        o = S.index(r)
        ctx.prove("handed-out-is-a-pool-object", False if o is None else And(zi(o) >= 0, zi(o) < S.N))
        if o is None:
            return
        ctx.prove("handed-out-was-not-live", Not(S.live0(o)))
        ctx.prove("handed-out-is-live", S.live1(o))
        ctx.prove("count-plus-one", eq(S.n1(), S.n0 + 1))
        S.post_inv()
        x = S.sko("any_object")
        ctx.prove("others-keep-liveness", Implies(x != zi(o), S.live1(x) == S.live0(x)))

    def t_readd(ctx):
        S = begin(ctx)
        full = ctx.branch(S.n0 == S.N)
        t = S.at(S.n0) if not full else S.at(0)
        r, thrown = call(ctx, f("Add(%s*)" % T), [S.p, S.obj(t)])
        if full:
            ctx.cover("full")
            ctx.prove("over-capacity-refused", thrown)
            S.post_inv()
            ctx.prove("count-unchanged", eq(S.n1(), S.n0))
            return
        ctx.cover("room")
        ctx.prove("accepted-within-capacity", not thrown)
        ctx.prove("count-plus-one", eq(S.n1(), S.n0 + 1))
        S.post_inv()
        x = S.sko("any_object")
        ctx.prove("liveness-after-readd", S.live1(x) == z3.Or(S.live0(x), x == t))

    def removed(ctx, S, t):
        ctx.prove("count-minus-one", eq(S.n1(), S.n0 - 1))
        S.post_inv()
        x = S.sko("any_object")
        ctx.prove("exactly-the-named-object-removed", S.live1(x) == z3.And(S.live0(x), x != t))

    def t_remove(ctx):
        S = begin(ctx, 1)
        k = z3.Int("in:pos")
        ctx.assume(z3.And(k >= 0, k < S.n0))
        t = S.at(k)
        r, thrown = call(ctx, f("Remove(%s*)" % T), [S.p, S.obj(t)])
        ctx.prove("accepted-when-live", not thrown)
        if not thrown:
            removed(ctx, S, t)
            ctx.cover("removed")

    def t_remove_dead(ctx):
        S = begin(ctx, 0, -1)
        w = ctx.choose(3)
        if w == 0:
            p = NULL
        elif w == 1:
            fr = ctx.alloc("foreign", size=S.size, init=lambda c, r, k, s, ty: c.fresh("foreign_name"))
            fr.nbytes = S.size
            p = Ptr(fr)
        else:
            k = z3.Int("in:pos")
            ctx.assume(z3.And(k >= S.n0, k < S.N))
            p = S.obj(S.at(k))
        r, thrown = call(ctx, f("Remove(%s*)" % T), [S.p, p])
        ctx.prove("not-live-refused", thrown)
        ctx.prove("unchanged", len(S.r.written) == 0 or eq(S.n1(), S.n0))
        ctx.cover("refused %d" % w)
        S.post_inv()

    def t_remove_int(ctx):
        S = begin(ctx)
        if ctx.branch(S.n0 == 0):
            r, thrown = call(ctx, f("Remove(int)"), [S.p, 0])
            ctx.cover("empty")
            ctx.prove("empty-refused", thrown)
            ctx.prove("count-unchanged", eq(S.n1(), S.n0))
            S.post_inv()
            return
        k = z3.Int("in:pos")
        ctx.assume(z3.And(k >= 0, k < S.n0))
        t = S.at(k)
        r, thrown = call(ctx, f("Remove(int)"), [S.p, k])
        ctx.prove("accepted-when-live", not thrown)
        if not thrown:
            removed(ctx, S, t)
            ctx.cover("removed")

    def t_recover(ctx):
        S = begin(ctx)
        k = z3.Int("in:step")
        ctx.assume(z3.And(k >= -S.n0, k <= S.N - S.n0))
        call(ctx, f("Recover(int)"), [S.p, k])
        ctx.prove("count-plus-step", eq(S.n1(), S.n0 + k))
        S.post_inv()
        x = S.sko("any_object")
        ctx.prove("names-unchanged", eq(S.name1(x), S.nm(x)))
        ctx.cover("done")

    def t_lookup(ctx):
        S = begin(ctx)
        k = z3.Int("in:pos")
        ctx.assume(z3.And(k >= 0, k < S.N))
        for s in ("operator[](int)", "operator()(int)"):
            r, thrown = call(ctx, f(s), [S.p, k])
            if ctx.branch(k < S.n0):
                ctx.cover("live")
                ctx.prove("refused-iff-not-live", not thrown)
                o = None if thrown else S.index(r)
                ctx.prove("live-object-at-position", False if o is None else eq(o, S.at(k)))
            else:
                ctx.cover("dead")
                ctx.prove("refused-iff-not-live", thrown)
        ctx.prove("nothing-written", len(S.r.written) == 0)

    def t_exist(ctx):
        S = begin(ctx)
        w = ctx.choose(3)
        g = f("Exist(%s*)" % T)
        if w == 0:
            r, _ = call(ctx, g, [S.p, NULL])
            ctx.prove("null-does-not-exist", Not(r))
        elif w == 1:
            fr = ctx.alloc("foreign", size=S.size, init=lambda c, r, k, s, ty: c.fresh("foreign_name"))
            fr.nbytes = S.size
            r, _ = call(ctx, g, [S.p, Ptr(fr)])
            ctx.prove("foreign-does-not-exist", Not(r))
        else:
            o = S.sko("in:object")
            r, _ = call(ctx, g, [S.p, S.obj(o)])
            ctx.prove("exists-iff-live", eq(r, S.live0(o)))
        ctx.cover("case %d" % w)
        ctx.prove("nothing-written", len(S.r.written) == 0)

    def t_pick(ctx):
        S = begin(ctx, 1)
        rng = ctx.alloc("rng")
        r, thrown = call(ctx, f("RandomPick(RandomFactory&)"), [S.p, Ptr(rng)])
        ctx.prove("accepted", not thrown)
        o = S.index(r)
        ctx.prove("picked-is-pool-object", False if o is None else And(zi(o) >= 0, zi(o) < S.N))
        ctx.prove("picked-is-live", False if o is None else S.live0(o))
        d = ctx.__dict__.get("vc_draws", [])
        ctx.prove("one-draw", len(d) == 1)
        ctx.prove("fair-share", False if o is None or len(d) != 1 else eq(S.nm(o), d[0] % S.n0))
        ctx.prove("nothing-written", len(S.r.written) == 0)
        ctx.cover("picked")

    def t_ctor(ctx):
        S = PoolState(ctx, lay, short)
        S.r.initf = lambda c, r, k, s, ty: Opaque("uninitialised")
        nm = ctx.alloc("string")
        cs = [n for n in prog.where if prog.demangled[n].startswith("diag::Bundle<%s>::Bundle(" % T)]
        cs.sort(key=lambda n: "C2E" in n)
        r, thrown = call(ctx, cs[0], [S.p, Ptr(nm)])
        ctx.prove("constructed", not thrown)
        ctx.prove("starts-empty", eq(S.n1(), 0))
        for i in range(S.N):
            o = S.index(S.ord1(i))
            ctx.prove("order-holds-pool-objects", o is not None and And(zi(o) >= 0, zi(o) < S.N))
            if o is not None:
                n = S.name1(o)
                ctx.prove("object-carries-its-position", False if isinstance(n, Opaque) else eq(n, i))
        ctx.cover("done")

    return locals()["t_" + op]


COV = {"add": ["full", "room"], "readd": ["full", "room"], "remove": ["removed"], "remove_dead": ["refused 0", "refused 1", "refused 2"],
       "remove_int": ["empty", "removed"], "recover": ["done"], "lookup": ["live", "dead"], "exist": ["case 0", "case 1", "case 2"],
       "pick": ["picked"], "ctor": ["done"]}


def tasks(prog, lay, tier):
    from ..hcontracts import CONTRACTS
    out = []
    for T in TYPES:
        for op in OPS:
            nm = "%s_%s" % (op, T)
            out.append(Task(nm, mk(prog, lay, op, T), dict(CONTRACTS), {"check_overflow": True}, native=[nm, "history_" + T], covers=COV[op]))
    return out
