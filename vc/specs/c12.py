HARNESS = ["c12.cpp"]
SOURCES = ["module/weight/index_map.cpp", "lattice/lattice.cpp", "utility/vector.cpp", "utility/utility.cpp"]
NATIVE = SOURCES + ["utility/abort.cpp", "utility/logger.cpp"]
