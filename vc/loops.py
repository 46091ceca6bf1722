"""proof rules for loops whose trip count is symbolic

A loop header is summarised from one execution of its body at an arbitrary iteration k:

* counters: header values that advance by a constant are v0 + k*step (proved at the back edge);
* map rule: array elements written in iteration k are A[w(k)] := v(k) with w affine.  If no
  iteration reads or writes an element another earlier one wrote (proved for arbitrary k' < k),
  the state after n iterations is A[j] = v(i) where w(i) = j for an i < n, else the old A[j];
* reductions: remaining header values keep the candidate invariants (bounds over the array
  elements the body reads, and that the value is one of them) that hold on entry and are
  preserved by the body at an arbitrary iteration (Houdini);
* other memory the body writes is forgotten (reading it before writing it is rejected).

The body must be free of case splits apart from leaving the loop; anything else is Unsupported
(the loop is then outside the verifier's reach, which the check reports)."""
from fractions import Fraction

import z3

from .exec import (And, Infeasible, Not, Opaque, Or, Ptr, const_of, eq, is_sym, simp, zi, zr)
from .ir import DOUBLE, PTR, IntT, Unsupported


def succ(ins):
    if ins.op == "br":
        return [ins.a[0]]
    if ins.op == "condbr":
        return [ins.a[1], ins.a[2]]
    if ins.op == "switch":
        return [ins.a[1]] + [l for _, l in ins.a[2]]
    if ins.op == "invoke":
        return [ins.a[2], ins.a[3]]
    return []


def headers(f):
    """header label -> set of labels the back edges come from"""
    c = f.__dict__.get("_headers")
    if c is not None:
        return c
    out, state, it, path = {}, {}, {}, []
    S = {l: succ(f.blocks[l][-1]) for l in f.blocks}

    def enter(l):
        state[l] = 1
        path.append(l)
        it[l] = iter(S[l])
    enter(f.entry)
    while path:
        l = path[-1]
        for n in it[l]:
            if state.get(n) == 1:
                out.setdefault(n, set()).add(l)
            elif n not in state:
                enter(n)
                break
        else:
            state[l] = 2
            path.pop()
    f._headers = out
    return out


def body(f, h):
    """labels of the natural loop"""
    memo = f.__dict__.setdefault("_bodies", {})
    if h in memo:
        return memo[h]
    pred = {}
    for l in f.blocks:
        for n in succ(f.blocks[l][-1]):
            pred.setdefault(n, set()).add(l)
    seen, todo = {h}, list(headers(f)[h])
    while todo:
        l = todo.pop()
        if l not in seen:
            seen.add(l)
            todo += list(pred.get(l, ()))
    memo[h] = seen
    return seen


def consts(e, acc=None):
    """names of the uninterpreted constants of an expression"""
    acc = set() if acc is None else acc
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        else:
            todo += x.children()
    return acc


class Snapshot:
    def __init__(self, ctx):
        self.ctx = ctx
        self.regs = [(r, dict(r.cells), dict(r.init), {a: list(s) for a, s in r.slots.items()}, len(r.written), r.initf) for r in ctx.allocs]
        self.nall, self.nf = len(ctx.allocs), len(ctx.facts)
        self.attrs = {k: dict(getattr(ctx, k)) for k in ("globals", "globals_init", "zext_src", "monos", "monovars", "addrs")}
        self.seen = set(ctx.uf_seen)
        ctx.solver.push()

    def cell(self, r, key):
        for x, c, i, *_ in self.regs:
            if x is r:
                return c.get(key) or i.get(key)

    def restore(self):
        ctx = self.ctx
        ctx.solver.pop()
        del ctx.facts[self.nf:]
        del ctx.allocs[self.nall:]
        for r, c, i, s, w, f in self.regs:
            r.cells, r.init, r.slots, r.initf = c, i, s, f
            del r.written[w:]
        for k, v in self.attrs.items():
            setattr(ctx, k, v)
        ctx.uf_seen = self.seen


class Iteration:
    """what one execution of the body at iteration k did"""


def iterate(ctx, mod, f, h, env, trial=False):
    """run the body once from the header; returns the phi values at the back edge"""
    old = (ctx.nofork, ctx.loop_frame, ctx.mayalias)
    ctx.nofork, ctx.loop_frame, ctx.mayalias = True, (f, h, body(f, h)), []
    try:
        r = ctx.flow(mod, f, dict(env), h, None, h)
    finally:
        ctx.nofork, ctx.loop_frame, ctx.mayalias = old
    if r[0] != "back":
        raise Unsupported("loop body leaves the function")
    return r[1]


def phis(f, h):
    out = []
    for ins in f.blocks[h]:
        if ins.op != "phi":
            break
        out.append(ins)
    return out


def symbolic_exit(ctx, mod, f, h, env):
    """is the first loop-exit decision symbolic?"""
    snap = Snapshot(ctx)
    old = (ctx.nofork, ctx.loop_frame, ctx.mayalias, ctx.loop_peek)
    nob = len(ctx.obligations)
    ctx.nofork, ctx.loop_frame, ctx.mayalias, ctx.loop_peek = True, (f, h, body(f, h)), [], True
    try:
        ctx.flow(mod, f, dict(env), h, None, h)
        return False
    except Peek as p:
        return p.symbolic
    finally:
        ctx.nofork, ctx.loop_frame, ctx.mayalias, ctx.loop_peek = old
        del ctx.obligations[nob:]
        snap.restore()


def joins(f, lab, nodes, hd):
    """the first block every run from lab passes (staying inside nodes; None: the function's return)"""
    memo = f.__dict__.setdefault("_joins", {})
    if (lab, hd) in memo:
        return memo[(lab, hd)]
    ns = [l for l in f.blocks if nodes is None or l in nodes]
    END = object()
    S = {}
    for l in ns:
        ins = f.blocks[l][-1]
        if ins.op == "ret":
            S[l] = [END]
        else:
            S[l] = [n for n in succ(ins) if nodes is None or n in nodes]
            if hd is not None:
                S[l] = [END if n == hd else n for n in S[l]]
    alive, chg = set(), True          # blocks from which the end is reachable
    while chg:
        chg = False
        for l in ns:
            if l not in alive and any(n is END or n in alive for n in S[l]):
                alive.add(l)
                chg = True
    full = alive | {END}
    pd = {l: set(full) for l in alive}
    pd[END] = {END}
    chg = True
    while chg:
        chg = False
        for l in alive:
            x = set.intersection(*[pd[n] for n in S[l] if n is END or n in alive]) | {l}
            if x != pd[l]:
                pd[l], chg = x, True
    c = pd[lab] - {lab} if lab in pd else {END}
    # the nearest: the one all others post-dominate
    j = next(x for x in c if len(pd[x]) == len(c))
    j = (hd if j is END else j)
    memo[(lab, hd)] = j
    return j


def merge(ctx, mod, f, lab, c, t1, t2, env, resume, frame):
    """run both sides of an undecided branch up to where they meet, and join the states"""
    J = joins(f, lab, frame[2] if frame else None, frame[1] if frame else None)
    ctx.nmerge = getattr(ctx, "nmerge", 0) + 1
    if ctx.nmerge > 2000:
        raise Unsupported("too many joins")
    sides = []
    for cond, t in ((c, t1), (z3.Not(c), t2)):
        snap = Snapshot(ctx)
        nf = len(ctx.facts)
        wl = {id(r): len(r.written) for r in ctx.allocs}
        try:
            ctx.assume(cond)
            e = dict(env)
            try:
                r = ctx.flow(mod, f, e, t, lab, resume, J if J != resume else None, inner=True)
            except Infeasible:
                sides.append((cond, None, None, None))
                continue
            facts = ctx.facts[nf + 1:]
            ch = []
            for reg in ctx.allocs[:snap.nall]:
                for key in dict.fromkeys(reg.written[wl[id(reg)]:]):
                    if key[0] == "loop":
                        raise Unsupported("loop inside a joined branch")
                    cell = reg.cells.get(key)
                    if cell is not None:
                        ch.append((reg, key, reg.slots[key[0]][key[1]] if key[0] is not None else None, cell[0], cell[1]))
            sides.append((cond, r if isinstance(r, tuple) and r and r[0] in ("at", "back") else ("ret", r), facts, ch))
        finally:
            snap.restore()
    for cond, r, facts, ch in sides:
        if r is None:
            ctx.assume(z3.Not(cond))
        else:
            for x in facts:
                if not isinstance(x, bool):
                    ctx.assume(z3.Implies(cond, x))
    live = [x for x in sides if x[1] is not None]
    if not live:
        raise Infeasible()
    if len(live) == 2 and live[0][1][0] != live[1][1][0]:
        raise Unsupported("sides of a branch end differently")
    # memory
    new = {}
    for i, (cond, r, facts, ch) in enumerate(live):
        for reg, key, idx, sz, v in ch:
            k = (id(reg), id(key[0]), key[2], sz, None if idx is None else (idx if not is_sym(idx) else idx.get_id()))
            new.setdefault(k, (reg, key, idx, sz, {}))[4][i] = v
    for reg, key, idx, sz, vs in new.values():
        p = Ptr(reg, key[2]) if key[0] is None else Ptr(reg, key[0].off + key[2]).add(0, zi(idx), key[0].stride)
        some = next(iter(vs.values()))
        ty = DOUBLE if sz == 8 and (isinstance(some, (float, Fraction)) or is_sym(some) and z3.is_real(some)) else (PTR if isinstance(some, Ptr) else IntT(8 * sz))
        got = [vs[i] if i in vs else ctx.load(p, ty) for i in range(len(live))]
        ctx.store(p, joined(c, live, got), ty)
    rs = [x[1] for x in live]
    kind = rs[0][0]
    if kind == "ret":
        return ("ret", joined(c, live, [x[1] for x in rs]))
    vals = {d: joined(c, live, [x[1][d] for x in rs]) for d in rs[0][1]}
    if kind == "back":
        return ("back", vals)
    return ("at", J, vals)


def joined(c, live, vs):
    if len(vs) == 1:
        return vs[0]
    a, b = vs
    if a is b or (not is_sym(a) and not is_sym(b) and not isinstance(a, (Ptr, Opaque)) and not isinstance(b, (Ptr, Opaque)) and type(a) is type(b) and a == b):
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is b.region and a.off == b.off and a.terms == b.terms:
        return a
    if isinstance(a, (Ptr,)) or isinstance(b, (Ptr,)):
        raise Unsupported("branches join with different pointers")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("joined")
    if isinstance(a, bool) or isinstance(b, bool) or is_sym(a) and z3.is_bool(a) or is_sym(b) and z3.is_bool(b):
        f = lambda x: x if is_sym(x) and z3.is_bool(x) else z3.BoolVal(bool(x))
        return simp(z3.If(c, f(a), f(b)))
    real = any(isinstance(x, (float, Fraction)) or is_sym(x) and z3.is_real(x) for x in vs)
    f = zr if real else zi
    return simp(z3.If(c, f(a), f(b)))


class Peek(Exception):
    def __init__(self, symbolic):
        self.symbolic = symbolic


def isolate(ctx, snap):
    """view the arrays without the elements read so far; arrays with elements written one by
    one keep them, and a loop may read but not write those"""
    for r in ctx.allocs:
        r.dirty = {a for a in r.arrays if any(k[0] is a for k in r.cells)}
        if r.arrays:
            r.slots = {a: (r.slots[a] if a in r.dirty else []) for a in r.arrays}
            r.init = {k: v for k, v in r.init.items() if k[0] is None or k[0] in r.dirty}


def flatten(ctx, r, a):
    """turn the elements of an array written one by one into its symbolic content"""
    got = [(r.slots[a][k[1]], k[2], c[0], c[1]) for k, c in r.cells.items() if k[0] is a]
    prev = r.initf

    def init(ctx, rr, key, size, ty):
        old = prev(ctx, rr, key, size, ty) if prev else Opaque("uninit")
        if key[0] is not a:
            return old
        j = zi(rr.slots[a][key[1]])
        for i, off, sz, v in got:
            if not (off < key[2] + size and key[2] < off + sz):
                continue
            c = simp(zi(i) == j)
            if c is False or ctx.must(Not(c)):
                continue
            if off != key[2] or sz != size:
                raise Unsupported("element read in other pieces than written")
            if c is True or ctx.must(c):
                return v
            if isinstance(v, (Ptr, Opaque)) or isinstance(old, (Ptr, Opaque)):
                old = Opaque("element at an unknown position")
                continue
            f = zr if ty.kind == "double" else zi
            old = simp(z3.If(c, f(v), f(old)))
        return old
    r.cells = {k: c for k, c in r.cells.items() if k[0] is not a}
    r.init = {k: c for k, c in r.init.items() if k[0] is not a}
    r.slots = dict(r.slots)
    r.slots[a] = []
    r.initf = init
    getattr(r, "dirty", set()).discard(a)


def number(v):
    return not isinstance(v, (Ptr, Opaque, bool)) and (isinstance(v, (int, float, Fraction)) or is_sym(v) and (z3.is_int(v) or z3.is_real(v)))


def isreal(v):
    return isinstance(v, (float, Fraction)) or is_sym(v) and z3.is_real(v)


def k_in(v, k):
    return is_sym(v) and str(k) in consts(v)


def simp_step(d):
    d = simp(d)
    return d if isinstance(d, int) else None


def summarise(ctx, mod, f, h, env):
    """called at the first arrival at a header (phis evaluated); changes env and the memory to
    the state after n arbitrary iterations"""
    P = phis(f, h)
    v0 = {p.dst: env[p.dst] for p in P}
    # ---- trial iteration 0: which header values advance by a constant
    snap = Snapshot(ctx)
    nob = len(ctx.obligations)
    try:
        isolate(ctx, snap)
        try:
            nxt = iterate(ctx, mod, f, h, env)
        except Infeasible:
            return False         # the loop is left at once
    finally:
        del ctx.obligations[nob:]
        snap.restore()
    step = {}
    for p in P:
        a, b = v0[p.dst], nxt[p.dst]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is b.region and a.terms == b.terms:
            step[p.dst] = b.off - a.off
        elif (isinstance(a, int) or is_sym(a) and z3.is_int(a)) and not isinstance(a, bool) and not isinstance(b, (Ptr, Opaque)):
            step[p.dst] = simp_step(zi(b) - zi(a))
        else:
            step[p.dst] = None
    ids = [(p.dst, p.ty.kind == "double") for p in P]      # loop-carried values: header phis, then memory
    # ---- an arbitrary iteration k (repeated until the set of forgotten cells and of counters is stable)
    forget, pre, flat, nonneg = {}, None, [], None
    for _ in range(16):
        k = ctx.fresh("k")
        n0 = ctx.fresh_n
        snap = Snapshot(ctx)
        nob = len(ctx.obligations)
        nfacts = len(ctx.facts)
        again = False
        try:
            isolate(ctx, snap)
            for r, a in flat:
                flatten(ctx, r, a)
            ctx.assume(k >= 0)
            for x, k0 in pre or ():
                earlier(ctx, x, k0, k)
            e = dict(env)
            hav = {}
            for p in P:
                s = step[p.dst]
                if s is None:
                    if isinstance(v0[p.dst], (Ptr, Opaque)):
                        raise Unsupported("loop-carried pointer")
                    hav[p.dst] = ctx.fresh("acc", "real" if p.ty.kind == "double" else "int")
                    e[p.dst] = hav[p.dst]
                else:
                    e[p.dst] = at(v0[p.dst], k, s)
            for (r, key), sz in forget.items():
                i = (r, key)
                if i not in v0:
                    v = Opaque("loop")
                elif step[i] is None:
                    v = hav[i] = ctx.fresh("acc", "real" if dict(ids)[i] else "int")
                else:
                    v = at(v0[i], k, step[i])
                r.cells[key] = (sz, v)
            # integer counters that start at 0 or above may never go below 0 (checked at the back edge)
            if nonneg is None:
                nonneg = {p.dst for p in P if step[p.dst] and step[p.dst] < 0 and not isinstance(v0[p.dst], Ptr) and ctx.must(zi(v0[p.dst]) >= 0)}
            for d in sorted(nonneg):
                if step[d] is not None:
                    ctx.assume(zi(e[d]) >= 0)
            reads = ctx.loop_reads = []
            wl = {r: len(r.written) for r in ctx.allocs}
            old = set(id(r) for r in ctx.allocs)
            try:
                nxt = iterate(ctx, mod, f, h, e)
            except Infeasible:
                return False
            # counters advance as claimed
            for p in P:
                s = step[p.dst]
                if s is None:
                    continue
                want = at(v0[p.dst], k + 1, s)
                if s and not same(ctx, nxt[p.dst], want) or not s and not same(ctx, nxt[p.dst], v0[p.dst]):
                    step[p.dst] = None
                    again = True
            for d in sorted(nonneg):
                if step[d] is None or not ctx.must(zi(nxt[d]) >= 0):
                    nonneg = nonneg - {d}
                    again = True
            it = Iteration()
            it.writes = []
            for r in [x for x in ctx.allocs if id(x) in old]:
                for key in dict.fromkeys(r.written[wl[r]:]):
                    c = r.cells.get(key)
                    if c is None:
                        continue
                    if key[0] is None:
                        i = (r, key)
                        if i not in forget:
                            forget[i] = c[0]
                            again = True
                            # a number kept in memory is carried from one iteration to the next
                            b = snap.cell(r, key)
                            if b is not None and b[0] == c[0] and number(b[1]) and number(c[1]):
                                v0[i] = b[1]
                                ids.append((i, c[0] == 8 and (isreal(b[1]) or isreal(c[1]))))
                                step[i] = None if ids[-1][1] else simp_step(zi(c[1]) - zi(b[1]))
                                if k_in(c[1], k) or step[i] == 0:
                                    step[i] = None
                        elif i in v0:
                            if not number(c[1]):
                                raise Unsupported("loop-carried memory of unknown value")
                            nxt[i] = c[1]
                            if step[i] is not None and not same(ctx, c[1], at(v0[i], k + 1, step[i])):
                                step[i] = None
                                again = True
                        continue
                    if key[0] in r.dirty:
                        if (r, key[0]) not in flat:
                            flat.append((r, key[0]))
                        again = True
                        continue
                    it.writes.append((r, key[0], r.slots[key[0]][key[1]], key[2], c[0], c[1]))
            if again:
                continue
            it.reads = [x for x in reads if not any(x[0] is r for r in ctx.allocs[snap.nall:])]
            it.facts = list(ctx.facts[nfacts:])
            for i, _ in ids:
                nxt.setdefault(i, hav.get(i, v0[i]))
            it.nxt, it.hav = nxt, hav
            new = lambda x: {c for c in consts(x) if "!" in c and c.rsplit("!", 1)[1].isdigit() and int(c.rsplit("!", 1)[1]) > n0} | \
                (consts(x) & {str(v) for v in hav.values()})
            clean = [x for x in it.facts if not isinstance(x, bool) and not new(x)]
            if pre is None:
                # once more, knowing that the previous iterations went around
                pre = [(x, k) for x in clean if str(k) in consts(x)]
                again = True
                continue
            inv = reduce_invariants(ctx, it, k, v0, ids, step)
            independent(ctx, it, k)
            # only facts and values that speak of k alone survive
            it.facts = clean
            for w in it.writes:
                for x in [w[2], w[5]]:
                    if is_sym(x) and new(x):
                        raise Unsupported("loop writes a value that is not a function of the iteration")
                    if not is_sym(x) and isinstance(x, Opaque):
                        raise Unsupported("loop writes an unknown value")
            break
        finally:
            if again:
                del ctx.obligations[nob:]
            snap.restore()
    else:
        raise Unsupported("loop summary does not stabilise")
    # ---- the state after n iterations
    n = ctx.fresh("n")
    ctx.assume(n >= 0)
    for x in it.facts:
        earlier(ctx, x, k, n)
    for p in P:
        s = step[p.dst]
        if s is not None:
            env[p.dst] = at(v0[p.dst], n, s)
        else:
            v = ctx.fresh("acc", "real" if p.ty.kind == "double" else "int")
            env[p.dst] = v
    for d in nonneg:
        ctx.assume(zi(env[d]) >= 0)
    fin = {p.dst: env[p.dst] for p in P}
    for (r, key), sz in forget.items():
        i = (r, key)
        v = Opaque("loop")
        if i in v0:
            v = fin[i] = ctx.fresh("acc", "real" if dict(ids)[i] else "int") if step[i] is None else at(v0[i], n, step[i])
        for k2, sz2, _ in ctx_over(ctx, r, key, sz):
            r.cells.pop(k2, None)
        r.cells[key] = (sz, v)
        r.written.append(key)
    ctx.assume(z3.Implies(n == 0, z3.And([z3.BoolVal(True)] + [eq_(fin[i], v0[i]) for i, _ in ids if step[i] is None])))
    assume_invariants(ctx, inv, n, fin, ids, v0)
    for r, a in flat:
        flatten(ctx, r, a)
    install(ctx, it, k, n)
    ctx.cover("loop summarised")
    return True


def earlier(ctx, x, k0, k):
    """fact x(k0) holds for every k0 in [0,k): instances at k-1 and, for x = (k0 + c != 0), at -c"""
    ctx.assume(z3.Implies(k >= 1, z3.substitute(x, (k0, k - 1))))
    e = z3.simplify(x, arith_lhs=True)
    if z3.is_not(e) and z3.is_eq(e.arg(0)) and z3.is_int(e.arg(0).arg(0)):
        d = e.arg(0).arg(0) - e.arg(0).arg(1)
        c0 = z3.substitute(d, (k0, z3.IntVal(0)))
        s = z3.simplify(z3.substitute(d, (k0, k0 + 1)) - d, som=True)
        if z3.is_int_value(s) and abs(s.as_long()) == 1:
            root = -c0 * s.as_long()
            ctx.assume(z3.Not(z3.And(root >= 0, root < k)))


def ctx_over(ctx, r, key, sz):
    return list(ctx._overlaps(r.cells, key, sz))


def at(v, k, s):
    if s == 0:
        return v
    if isinstance(v, Ptr):
        return v.add(0, k, s)
    return simp(zi(v) + k * s)


def eq_(a, b):
    c = eq(a, b)
    return z3.BoolVal(c) if isinstance(c, bool) else c


def same(ctx, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.region is not b.region:
            return False
        d = a.off - b.off
        e = 0
        for s, t in a.terms:
            e = e + s * zi(t)
        for s, t in b.terms:
            e = e - s * zi(t)
        return ctx.must(eq(simp(e + d), 0))
    if isinstance(a, (Ptr, Opaque)) or isinstance(b, (Ptr, Opaque)):
        return False
    return ctx.must(eq(a, b))


def independent(ctx, it, k):
    """no iteration reads or overwrites what an earlier one wrote"""
    kk = ctx.fresh("earlier")
    ctx.assume(z3.And(kk >= 0, kk < k))
    for (r, a, w, off, sz, v) in it.writes:
        we = z3.substitute(zi(w), (k, kk))
        for (r2, a2, w2, off2, sz2, v2) in it.writes:
            if r2 is r and a2 is a and off < off2 + sz2 and off2 < off + sz:
                if not ctx.must(we != zi(w2)) or (w2 is not w and not ctx.must(zi(w) != zi(w2))):
                    raise Unsupported("an element is written twice")
        for (r2, a2, rd, off2, sz2, ty, val) in it.reads:
            if r2 is r and a2 is a and off < off2 + sz2 and off2 < off + sz:
                if not ctx.must(we != zi(rd)):
                    raise Unsupported("an iteration reads an element an earlier one wrote")
        # w is affine in k
        c = simp(z3.substitute(zi(w), (k, k + 1)) - zi(w))
        if not isinstance(c, int):
            c = const_of(z3.simplify(z3.substitute(zi(w), (k, k + 1)) - zi(w), som=True))
        if not isinstance(c, int) or c == 0:
            raise Unsupported("index of a written element is not affine")
    it.aff = [(r, a, zi(z3.simplify(z3.substitute(zi(w), (k, z3.IntVal(0))))), int(str(z3.simplify(z3.substitute(zi(w), (k, k + 1)) - zi(w), som=True))), off, sz, v)
              for (r, a, w, off, sz, v) in it.writes]


def install(ctx, it, k, n):
    groups = {}
    for (r, a, w0, c, off, sz, v) in it.aff:
        groups.setdefault(r, []).append((a, w0, c, off, sz, v))
    for r, ws in groups.items():
        arrs = {w[0] for w in ws}
        prev = r.initf

        def init(ctx, rr, key, size, ty, ws=ws, prev=prev, arrs=arrs):
            a, s, off = key
            if a not in arrs:
                return prev(ctx, rr, key, size, ty) if prev else Opaque("uninit")
            j = zi(rr.slots[a][s])
            hit = [w for w in ws if w[0] is a and w[3] < off + size and off < w[3] + w[4]]
            if not hit:
                return prev(ctx, rr, key, size, ty) if prev else Opaque("uninit")
            if len(hit) != 1 or hit[0][3] != off or hit[0][4] != size:
                raise Unsupported("element of a loop-written array read in other pieces")
            _, w0, c, _, _, v = hit[0]
            q = j - w0
            i = simp(q if c == 1 else (-q if c == -1 else q / c))
            i = zi(i)
            cond = simp(z3.And(i >= 0, i < n, (w0 + c * i == j)))
            nv = z3.substitute(zr(v) if not is_sym(v) and size == 8 and ty.kind == "double" else (v if is_sym(v) else zi(v)), (k, i)) if not isinstance(v, Ptr) else v
            if isinstance(v, Ptr):
                raise Unsupported("pointer written in a loop")
            if cond is True or cond is not False and ctx.must(cond):
                return nv
            oldv = prev(ctx, rr, key, size, ty) if prev else Opaque("uninit")
            if cond is False or isinstance(oldv, Opaque):
                return oldv
            return simp(z3.If(cond, nv, zr(oldv) if z3.is_real(nv) else zi(oldv)))
        for a in arrs:
            r.slots[a] = []
        r.init = {x: y for x, y in r.init.items() if x[0] not in arrs}
        r.initf = init
        r.written.append(("loop", None, 0))


# ------------------------------------------------------------------ reductions
def reduce_invariants(ctx, it, k, v0, ids, step):
    """Houdini over candidate invariants of the header values that are not counters"""
    terms = []
    for (r, a, rd, off, sz, ty, val) in it.reads:
        if is_sym(val) and z3.is_real(val) and not any(t.eq(val) for t in terms) and not (consts(val) & {str(v) for v in it.hav.values()}):
            terms.append(val)
    it.terms = terms
    ctr = [(i, step[i]) for i, _ in ids if step[i] and not isinstance(v0[i], Ptr)]
    cand = []
    star = ctx.fresh("istar")
    ctx.assume(z3.And(star >= 0))
    for d, real in ids:
        if d not in it.hav:
            continue
        x, y = it.hav[d], it.nxt[d]
        if isinstance(y, (Ptr, Opaque)):
            raise Unsupported("accumulator of unknown value")
        y = zr(y) if real else zi(y)
        if real:
            for t in terms:
                ts = z3.substitute(t, (k, star))
                cand.append(("le", d, t, z3.Implies(star < k, x <= ts), z3.Implies(star < k + 1, y <= ts)))
                cand.append(("ge", d, t, z3.Implies(star < k, x >= ts), z3.Implies(star < k + 1, y >= ts)))
                cand.append(("att", d, t, z3.BoolVal(True), z3.Or(y == t, z3.And(k >= 1, y == x))))
        else:
            for c, s in ctr:
                if s > 0:
                    C = zi(at(v0[c], k, s))
                    C1 = zi(at(v0[c], k + 1, s))
                    if ctx.must(And(zi(v0[d]) >= 0, zi(v0[d]) <= zi(v0[c]))):
                        cand.append(("range", d, c, z3.And(x >= 0, x <= C), z3.And(y >= 0, y <= C1)))
    # entry value while nothing was accumulated
    ctx.assume(z3.Implies(k == 0, z3.And([z3.BoolVal(True)] + [it.hav[d] == (zr if real else zi)(v0[d]) for d, real in ids if d in it.hav])))
    # the elements read by the iteration star (same facts as iteration k)
    for x in it.facts:
        if not isinstance(x, bool) and not (consts(x) & {str(v) for v in it.hav.values()}):
            ctx.assume(z3.Implies(star < k, z3.substitute(x, (k, star))))
    while cand:
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*[f for f in ctx.facts if not isinstance(f, bool)])
        s.add(*[c[3] for c in cand])
        keep = []
        for c in cand:
            s.push()
            s.add(z3.Not(c[4]))
            ctx.queries += 1
            if s.check() == z3.unsat:
                keep.append(c)
            s.pop()
        if len(keep) == len(cand):
            break
        cand = keep
    it.k, it.star = k, star
    return [(c[0], c[1], c[2]) for c in cand], it, step


def assume_invariants(ctx, inv, n, env, ids, v0):
    cs, it, step = inv
    for kind, dst, t in cs:
        x = env[dst]
        if kind in ("le", "ge"):
            i = z3.Int("i!q")
            ti = z3.substitute(t, (it.k, i))
            b = z3.Implies(z3.And(i >= 0, i < n), x <= ti if kind == "le" else x >= ti)
            ctx.assume(z3.ForAll([i], b))
        elif kind == "att":
            w = ctx.fresh("witness")
            ctx.assume(z3.Implies(n >= 1, z3.And(w >= 0, w < n, x == z3.substitute(t, (it.k, w)))))
            for y in it.facts:       # what every iteration knows about the elements it read
                ctx.assume(z3.Implies(n >= 1, z3.substitute(y, (it.k, w))))
        else:
            C = zi(at(v0[t], n, step[t]))
            ctx.assume(z3.And(x >= 0, x <= C))
    for kind, dst, t in cs:
        ctx.obligations.append(ok("loop-invariant %s preserved" % kind))


def ok(name):
    from .exec import Obligation
    return Obligation(name, "ok")
