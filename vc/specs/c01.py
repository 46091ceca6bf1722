HARNESS = ["c01.cpp"]
SOURCES = ["utility/momentum.cpp"]
OPTS = {"check_overflow": True}
