from .. import native as _n
from . import mapcontracts
HARNESS = ["c14.cpp"]
SOURCES = ["module/weight/weight_array.cpp", "module/weight/weight_estimator.cpp", "module/weight/component_MC.cpp", "module/weight/index_map.cpp", "utility/complex.cpp",
           "lattice/lattice.cpp", "utility/vector.cpp", "utility/utility.cpp"]
NATIVE = _n.allsrc()
NEED_LAYOUT = True
NATIVE_SECS = 6
OPTS = {"auto_loops": True}
ASSUME = ["index maps (C11, C12) are applied by contract", "a histogram has fewer than 2^31 bins",
          "loop rule (vc/loops.py): element-wise loops are summarised from one arbitrary iteration after proving that iterations are independent"]


def contracts(prog, lay):
    return mapcontracts.contracts(prog, lay)


def task_contracts(prog, lay):
    name = "weight::WeightArray<7u>::Allocate(unsigned int const*, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >)"
    return {"estimator_allocate": {name: mapcontracts.allocate(lay, 7)}}
