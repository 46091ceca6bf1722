HARNESS = ["c16.cpp"]
SOURCES = ["module/markov/markov.cpp", "utility/rng.cpp", "utility/momentum.cpp", "lattice/lattice.cpp", "utility/vector.cpp", "utility/utility.cpp"]
from .. import native as _n
NATIVE = _n.allsrc()
TRUSTED = ["std::mt19937::operator() returns an arbitrary value in [0, 2^32) (its statistical quality is not examined)"]
