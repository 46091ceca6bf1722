HARNESS = ["c15.cpp"]
SOURCES = ["estimator/estimator.cpp", "utility/complex.cpp", "utility/utility.cpp"]
NATIVE = None
from .. import native as _n
NATIVE = _n.allsrc()
NATIVE_SECS = 6
OPTS = {"auto_loops": True}
NATIVE_ONLY = ("bundle",)
ASSUME = ["samples and running means stay below 1e30 in magnitude (the code's own MaxReal)", "the history is thinned fewer than 30 times (the interval fits 32 bits)",
          "first entry of the last two thirds: the code's floor(size*(1.0/3)) may be one entry early when size is a multiple of 3; both readings are accepted",
          "loop rule (vc/loops.py): reductions keep the bounds proved inductive at an arbitrary iteration"]
