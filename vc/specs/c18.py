import z3

from .. import native as _n
from ..exec import zi
from ..ir import DOUBLE, IntT, PTR
from . import mapcontracts
HARNESS = ["c18.cpp"]
SOURCES = ["module/weight/gamma3.cpp", "module/weight/weight_array.cpp", "module/weight/index_map.cpp", "utility/complex.cpp", "lattice/lattice.cpp", "utility/vector.cpp", "utility/utility.cpp"]
NATIVE = _n.allsrc()
NEED_LAYOUT = True
NATIVE_SECS = 8
OPTS = {"auto_loops": True}
ASSUME = ["the displacement index (C11) is applied by contract", "tables have fewer than 2^31 elements",
          "the configured symmetry tables have the sizes WeightFromDict enforces and entries in range (classes below RSize/TauSize, factors at least 1, flags 0 or 1)",
          "lines measured or read conserve spin (the six channels), as C07 provides",
          "t + Beta < Beta for a negative time difference t (reals; for doubles the differences of generated times are multiples of Beta/2^32)"]


def contracts(prog, lay):
    def coordi(ctx, a, dem):
        l = mapcontracts.lattice(ctx, lay, a[0])
        x, y = mapcontracts.site(ctx, lay, a[1]), mapcontracts.site(ctx, lay, a[2])
        mapcontracts.in_lattice(ctx, x, l, "CoordiIndex")
        mapcontracts.in_lattice(ctx, y, l, "CoordiIndex")
        d = [z3.If(zi(q) - zi(p) < 0, zi(q) - zi(p) + zi(L), zi(q) - zi(p)) for p, q, L in zip(x[1:], y[1:], l["L"])]
        v = ctx.uf("CoordiIndex", "int", "int", "int")(*d)
        ctx.assume(z3.And(v >= 0, v < zi(ctx.load(a[0].add(lay("Lattice", "Vol")), IntT(32)))))
        return v

    def at(ctx, a, dem):
        return ctx.add_linear(ctx.load(a[0], PTR), a[1], 4)
    return {"Lattice::CoordiIndex(Site const&, Site const&) const": coordi,
            "std::vector<int, std::allocator<int> >::operator[](unsigned long) const": at, "std::vector<int, std::allocator<int> >::operator[](unsigned long)": at}


def task_contracts(prog, lay):
    name = "weight::WeightArray<4u>::Allocate(unsigned int const*, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >)"
    return {"constructor_g": {name: mapcontracts.allocate(lay, 4)}}
