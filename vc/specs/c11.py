HARNESS = ["c11.cpp"]
SOURCES = ["lattice/lattice.cpp", "utility/vector.cpp", "utility/utility.cpp"]
NATIVE = SOURCES + ["utility/abort.cpp", "utility/logger.cpp"]
