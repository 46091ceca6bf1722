from .. import native as _n
from . import mapcontracts
HARNESS = ["c13.cpp"]
SOURCES = ["module/weight/component_MC.cpp", "module/weight/index_map.cpp", "utility/complex.cpp", "lattice/lattice.cpp", "utility/vector.cpp", "utility/utility.cpp"]
NATIVE = _n.allsrc()
NEED_LAYOUT = True
NATIVE_SECS = 8
ASSUME = ["index maps (C11, C12) and vertex-function look-ups (C18) are applied by contract", "a line is never both local and measuring (C05)"]


def contracts(prog, lay):
    c = mapcontracts.contracts(prog, lay)
    c.update(mapcontracts.gamma_contracts(prog, lay))
    return c
