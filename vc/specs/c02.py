HARNESS = ["c02.cpp"]
SOURCES = ["utility/complex.cpp"]
