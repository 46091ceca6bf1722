"""contracts of the index maps and lattice, applied at call sites (their bodies are verified by C11/C12)"""
import z3

from ..exec import And, Array, Ptr, eq, zi, zr, simp
from ..ir import IntT, DOUBLE, PTR


def site(ctx, lay, p):
    s = lay("Site", "Sublattice")
    c = lay("Site", "Coordinate")
    I = IntT(32)
    return [ctx.load(p.add(s), I), ctx.load(p.add(c), I), ctx.load(p.add(c + 4), I)]


def lattice(ctx, lay, p):
    sz = lay("Lattice", "Size")
    I = IntT(32)
    return dict(L=[ctx.load(p.add(sz), I), ctx.load(p.add(sz + 4), I)], S=ctx.load(p.add(lay("Lattice", "SublatVol")), I))


def in_lattice(ctx, s, l, what):
    ctx.prove("precondition %s: site in the lattice" % what,
              And(zi(s[0]) >= 0, zi(s[0]) < zi(l["S"]), zi(s[1]) >= 0, zi(s[1]) < zi(l["L"][0]), zi(s[2]) >= 0, zi(s[2]) < zi(l["L"][1])))


def contracts(prog, lay):
    M = "weight::IndexMap"

    def mapinfo(ctx, p):
        base = {}
        base["lat"] = lattice(ctx, lay, p.add(lay(M, "Lat")))
        base["beta"] = ctx.load(p.add(lay(M, "Beta")), DOUBLE)
        base["sizeS"] = ctx.load(p.add(lay(M, "_SizeSmoothT")), IntT(32))
        base["sizeD"] = ctx.load(p.add(lay(M, "_SizeDeltaT")), IntT(32))
        return base

    def get(kind, smooth):
        def h(ctx, a, dem):
            m = mapinfo(ctx, a[0])
            if kind == 2:
                sp = [a[1], a[2]]
            else:
                I = IntT(32)
                sp = [ctx.load(a[1], I), ctx.load(a[1].add(4), I), ctx.load(a[2], I), ctx.load(a[2].add(4), I)]
            r1, r2 = site(ctx, lay, a[3]), site(ctx, lay, a[4])
            ctx.prove("precondition GetIndex: spins up or down", And(*[And(zi(s) >= 0, zi(s) <= 1) for s in sp]))
            in_lattice(ctx, r1, m["lat"], "GetIndex")
            in_lattice(ctx, r2, m["lat"], "GetIndex")
            args = [zi(x) for x in sp + r1 + r2]
            # every map of one task has its own identity
            tag = ctx.__dict__.setdefault("map_ids", {}).setdefault((a[0].region, a[0].off), len(ctx.__dict__.get("map_ids", {})))
            sorts = ["int"] * len(args)
            if smooth:
                ti, to = zr(a[5]), zr(a[6])
                d = to - ti
                ctx.prove("precondition GetIndex: time difference within one period", And(d > -zr(m["beta"]), d < zr(m["beta"])))
                f = ctx.uf("GetIndex%d.%d" % (kind, tag), *(sorts + ["real", "real"] + ["int"]))
                v = f(*(args + [ti, to]))
            else:
                f = ctx.uf("GetIndexDelta%d.%d" % (kind, tag), *(sorts + ["int"]))
                v = f(*args)
            n = zi(m["sizeS"] if smooth else m["sizeD"])
            ctx.assume(z3.And(v >= 0, v < n))
            return v
        return h

    S, R = "Site const&", "double"
    return {
        "weight::IndexMapSPIN2::GetIndex(spin, spin, Site const&, Site const&, double, double) const": get(2, True),
        "weight::IndexMapSPIN2::GetIndex(spin, spin, Site const&, Site const&) const": get(2, False),
        "weight::IndexMapSPIN4::GetIndex(spin const*, spin const*, Site const&, Site const&, double, double) const": get(4, True),
        "weight::IndexMapSPIN4::GetIndex(spin const*, spin const*, Site const&, Site const&) const": get(4, False),
    }


def gamma_contracts(prog, lay):
    """GammaG/GammaW look-ups as functions of their arguments (bodies: C18)"""
    def h(kind):
        def g(ctx, a, dem):
            sret, a = a[0], a[1:]
            I = IntT(32)
            rs = [site(ctx, lay, a[i]) for i in (1, 2, 3)]
            ts = [zr(a[i]) for i in (4, 5, 6)]
            if kind == "G":
                sp = [a[7], a[8], a[9]]
            else:
                sp = [ctx.load(a[7], I), ctx.load(a[7].add(4), I), ctx.load(a[8], I), ctx.load(a[8].add(4), I), a[9]]
            args = [zi(x) for r in rs for x in r] + [zi(x) for x in sp]
            so = ["int"] * len(args) + ["real"] * 3 + ["real"]
            re, im = ctx.uf("Gamma%s.re" % kind, *so)(*(args + ts)), ctx.uf("Gamma%s.im" % kind, *so)(*(args + ts))
            ctx.cover("gamma lookup")
            ctx.store(sret, re, DOUBLE)
            ctx.store(sret.add(8), im, DOUBLE)
        return g
    return {
        "weight::GammaGClass::Weight(Site const&, Site const&, Site const&, double, double, double, spin, spin, spin) const": h("G"),
        "weight::GammaWClass::Weight(Site const&, Site const&, Site const&, double, double, double, spin*, spin*, spin) const": h("W"),
    }


def allocate(lay, D):
    """WeightArray<D>::Allocate by its contract (proved by C14 allocate_D)"""
    T = "weight::WeightArray<%d>" % D

    def h(ctx, a, dem):
        this, shape = a[0], a[1]
        n = ctx.fresh("size")
        p = z3.IntVal(1)
        for i in range(D):
            x = zi(ctx.load(shape.add(4 * i), IntT(32)))
            ctx.prove("precondition Allocate: extents are positive", x >= 1)
            ctx.store(this.add(lay(T, "_Shape") + 4 * i), x, IntT(32))
            p = p * x
        ctx.prove("precondition Allocate: fewer than 2^31 elements", p <= 2147483647)
        ctx.assume(z3.And(n >= 1, n == p))
        A = Array(0, 16, None, "data")
        A.limit = n
        r = ctx.alloc("data", arrays=[A], init=lambda *k: z3.RealVal(0))
        ctx.store(this.add(lay(T, "_Data")), Ptr(r), PTR)
        ctx.store(this.add(lay(T, "_Size")), n, IntT(32))
        ctx.store(this.add(lay(T, "IsAllocated")), 1, IntT(8))
    return h
