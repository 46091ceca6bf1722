"""contracts of the harness interface (harness/vc.h)"""
import z3

from .exec import (And, Array, Infeasible, Not, Opaque, Or, PathEnd, Ptr, eq, is_sym, simp, zi, zr)
from .ir import Unsupported


def cstring(ctx, p):
    if not isinstance(p, Ptr) or p.region is None:
        raise Unsupported("harness name is not a literal")
    out = bytearray()
    off = p.off
    while True:
        c = p.region.init.get((None, None, off))
        v = c[1] if c else 0
        if v == 0:
            return out.decode()
        out.append(v & 255)
        off += 1


def _key(ctx, a):
    n = cstring(ctx, a[0])
    seen = ctx.__dict__.setdefault("vc_seen", {})
    k = seen.get(n, 0)
    seen[n] = k + 1
    return n if k == 0 else "%s#%d" % (n, k)


def vc_int(ctx, a, dem):
    v = z3.Int("in:" + _key(ctx, a))
    lo, hi = a[1], a[2]
    if isinstance(lo, int) and isinstance(hi, int) and lo == hi:
        ctx.assume(v == lo)
        return lo
    ctx.assume(z3.And(v >= zi(lo), v <= zi(hi)))
    return v


def vc_bool(ctx, a, dem):
    v = z3.Int("in:" + _key(ctx, a))
    ctx.assume(z3.And(v >= 0, v <= 1))
    return v


def vc_real(ctx, a, dem):
    return z3.Real("in:" + _key(ctx, a))


def vc_real_co(ctx, a, dem):
    v = z3.Real("in:" + _key(ctx, a))
    ctx.assume(z3.And(v >= zr(a[1]), v < zr(a[2])))
    return v


def vc_real_oc(ctx, a, dem):
    v = z3.Real("in:" + _key(ctx, a))
    ctx.assume(z3.And(v > zr(a[1]), v <= zr(a[2])))
    return v


def _b(c):
    if isinstance(c, bool):
        return c
    if isinstance(c, Opaque):
        return z3.FreshConst(z3.BoolSort(), "unspecified")   # a value nothing was ever said about
    if isinstance(c, int):
        return c != 0
    return simp(c if z3.is_bool(c) else c != 0)


def vc_assume(ctx, a, dem):
    c = _b(a[0])
    if c is False:
        raise Infeasible()
    ctx.assume(c)
    ctx.check_alive()


def vc_assert(ctx, a, dem):
    c = _b(a[1])
    name = cstring(ctx, a[0])
    ctx.cover("assert " + name)
    if not ctx.prove(name, c):
        # continue under the asserted condition, so that one defect is one report
        try:
            ctx.assume(c)
            ctx.check_alive()
        except Infeasible:
            raise PathEnd()


def vc_fact(ctx, a, dem):
    vc_assert(ctx, a, dem)
    c = _b(a[1])
    if c is not True:
        ctx.assume(c)


def vc_eq(ctx, a, dem):
    return ctx.b2i(eq(a[0], a[1]))


def vc_le(ctx, a, dem):
    return ctx.b2i(simp(zr(a[0]) <= zr(a[1])))


def vc_cover(ctx, a, dem):
    ctx.cover(cstring(ctx, a[0]))


def engine(ctx, a, dem):
    """std::mt19937::operator(): an arbitrary 32-bit value"""
    d = ctx.__dict__.setdefault("vc_draws", [])
    k = len(d)
    v = z3.Int("in:rng" + ("#%d" % k if k else ""))
    ctx.assume(z3.And(v >= 0, v < (1 << 32)))
    d.append(v)
    return v


def vc_carray(ctx, a, dem):
    """an array of n complex numbers with arbitrary contents"""
    n = _key(ctx, a)
    arr = Array(0, 16, None, n)
    arr.limit = zi(a[1])
    re, im = ctx.uf("re:" + n, "int", "real"), ctx.uf("im:" + n, "int", "real")

    def init(ctx, r, key, size, ty):
        x, s, off = key
        if x is arr and size == 8 and off in (0, 8):
            return (re if off == 0 else im)(zi(r.slots[x][s]))
        raise Unsupported("access of %d bytes at %d of a complex array" % (size, off))
    return Ptr(ctx.alloc("array " + n, arrays=[arr], init=init))


def vc_iarray(ctx, a, dem):
    """n integers in [lo,hi] with arbitrary contents"""
    n = _key(ctx, a)
    arr = Array(0, 4, None, n)
    arr.limit = zi(a[1])
    f = ctx.uf("int:" + n, "int", "int")

    def init(ctx, r, key, size, ty):
        x, s, off = key
        if x is arr and size == 4 and off == 0:
            v = f(zi(r.slots[x][s]))
            ctx.assume(z3.And(v >= zi(a[2]), v <= zi(a[3])))
            return v
        raise Unsupported("access of %d bytes at %d of an array of integers" % (size, off))
    return Ptr(ctx.alloc("array " + n, arrays=[arr], init=init))


BIG = z3.RealVal(10 ** 30)


def vc_array(ctx, a, dem):
    """n elements of stride/8 reals inside the object at p, arbitrary contents below 1e30"""
    n, p = _key(ctx, a), a[1]
    r = p.region
    arr = Array(p.off, a[3], a[2], n)
    fs = [ctx.uf("%s.%d" % (n, i), "int", "real") for i in range(a[3] // 8)]
    prev, bounds = r.initf, []
    ctx.__dict__.setdefault("vc_inarr", {})[(r, p.off)] = (arr, bounds)

    def init(ctx, r, key, size, ty):
        x, s, off = key
        if x is not arr:
            return prev(ctx, r, key, size, ty) if prev else Opaque("uninit")
        if size != 8 or off % 8:
            raise Unsupported("access of %d bytes at %d of an array of reals" % (size, off))
        i = zi(r.slots[x][s])
        v = fs[off // 8](i)
        ctx.assume(z3.And(v < BIG, v > -BIG))
        for k, frm, lo, hi in bounds:
            if is_sym(k) or k == off // 8:
                ctx.assume(z3.Implies(z3.And(i >= zi(frm), zi(k) == off // 8), z3.And(v >= zr(lo), v <= zr(hi))))
        return v
    r.arrays.append(arr)
    r.slots[arr] = []
    r.initf = init


def vc_bound(ctx, a, dem):
    ctx.vc_inarr[(a[0].region, a[0].off)][1].append((a[2], a[1], a[3], a[4]))


def vc_freeze(ctx, a, dem):
    ctx.__dict__.setdefault("vc_frz", {})[a[0].region] = len(a[0].region.written)


def vc_frozen(ctx, a, dem):
    name = cstring(ctx, a[0])
    ctx.cover("assert " + name)
    ctx.prove(name, len(a[1].region.written) == ctx.__dict__.get("vc_frz", {}).get(a[1].region, -1))


ENGINE = "std::mersenne_twister_engine<unsigned long, 32ul, 624ul, 397ul, 31ul, 2567483615ul, 11ul, 4294967295ul, 7ul, 2636928640ul, 15ul, 4022730752ul, 18ul, 1812433253ul>::operator()()"


def vc_draw(ctx, a, dem):
    d = ctx.__dict__.setdefault("vc_draws", [])
    if not isinstance(a[0], int) or a[0] >= len(d):
        raise Unsupported("draw %r of %d" % (a[0], len(d)))
    return z3.ToReal(d[a[0]])


CONTRACTS = {"vc_draw": vc_draw, "vc_ndraws": lambda ctx, a, d: len(ctx.__dict__.setdefault("vc_draws", [])), ENGINE: engine,
             "RandomFactory::RandomFactory()": lambda ctx, a, d: None, "RandomFactory::RandomFactory(int)": lambda ctx, a, d: None,
             "vc_int": vc_int, "vc_carray": vc_carray, "vc_array": vc_array, "vc_iarray": vc_iarray, "vc_bound": vc_bound, "vc_freeze": vc_freeze, "vc_frozen": vc_frozen, "vc_bool": vc_bool, "vc_real": vc_real, "vc_real_co": vc_real_co,
             "vc_real_oc": vc_real_oc, "vc_assume": vc_assume, "vc_assert": vc_assert, "vc_fact": vc_fact, "vc_eq": vc_eq,
             "vc_le": vc_le, "vc_cover": vc_cover, "vc_symbolic": lambda ctx, a, d: 1}
