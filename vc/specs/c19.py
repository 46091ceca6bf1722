"""C19: saving and restoring through a dictionary"""
import re
from .. import native
from ..hcontracts import cstring
import z3
from ..exec import Array, Opaque, Ptr, zi
from ..ir import PTR, IntT

HARNESS = ["c19.cpp"]
GHOST = native.HDIR + "/ghost"
SOURCES = ["module/parameter/parameter.cpp", "module/diagram/diagram_IO.cpp", "module/diagram/diagram.cpp", "module/diagram/component_bundle.cpp", "module/diagram/component.cpp", "module/weight/weight_array.cpp", "module/weight/weight_estimator.cpp", "module/weight/component.cpp", "module/weight/component_MC.cpp", "module/weight/index_map.cpp", "module/weight/gamma3.cpp", "estimator/estimator.cpp", "module/markov/markov_monitor.cpp", "module/weight/weight.cpp", "utility/dictionary.cpp", "utility/vector.cpp", "utility/complex.cpp", "lattice/lattice.cpp", "utility/utility.cpp", "utility/momentum.cpp"]
NATIVE = SOURCES + ["utility/rng.cpp", "utility/logger.cpp", "utility/abort.cpp"]
NLINK = ["-Wl,--wrap=_ZN4diag7Diagram10FixDiagramEv"]
PREINC = ["-I" + GHOST]
FLAT = {"auto_loops": False}
TASK_OPTS = {k: FLAT for k in ["para", "ends_of_lines"] + ["diagram%d%s" % (i, w) for i in range(1, 10) for w in ("", "worm")]}
STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::"
# library code that is executed rather than ignored: containers of anything but characters
REAL_LIB = re.compile(r"^(_ZNSt4pair|(?!.*operator<<).*\bDictionary::|Python::|std::map<|std::pair<|(?!.*(<char>|<char,|stream|ios_base|locale|exception|runtime_error|std::operator|std::endl))(std::|__gnu_cxx::))")
ASSUME = ["the Python value layer (class Python::AnyObject: CPython and numpy glue) is replaced by its contract: what is put under a key is what is got from it, arrays with shape",
          "std::string is its literal; keys are literals", "Momentum::operator= by its contract (C01), ClearDiagram by its contract (C04), FixDiagram (C04-C06) as a call on the restored diagram",
          "restored records are records the same code wrote: not longer than the buffers they are read into",
          "per order one wiring of the lines is saved; that every end is kept is proved over the whole pool separately (ends_of_lines)",
          "not saved by the code and not claimed: generator seed, thinning interval and counter of scalar estimators; not covered: vertex-function lines, order 0, file formats; EstimatorBundle::AddEstimator by contract (one estimator per order, named in turn; native replay runs the real one); Weight's allocators by contract (tables of the configured shape, arbitrary contents)"]
OPTS = {"auto_loops": True, "max_steps": 6000000, "max_s": 400, "real_lib": REAL_LIB}


def literal(c, a, d):
    c.store(a[0], a[1], PTR)


def copy(c, a, d):
    c.store(a[0], c.load(a[1], PTR), PTR)


CONTRACTS = {STR + "basic_string<std::allocator<char> >(char const*, std::allocator<char> const&)": literal,
             STR + "basic_string(char const*, std::allocator<char> const&)": literal,
             STR + "basic_string(" + STR[:-2] + " const&)": copy, STR + "basic_string(" + STR[:-2] + "&&)": copy}


def bits(c, a, d):
    """a table of flags with arbitrary contents inside the object at p"""
    r = a[0].region
    arr = Array(a[0].off, 1, a[1], "flags")
    f, prev = c.uf("flag%d" % a[0].off, "int", "int"), r.initf
    r.arrays.append(arr)
    r.slots[arr] = []
    arr.cleared = False

    def init(ctx, r, key, size, ty):
        x, s, off = key
        if x is not arr:
            return prev(ctx, r, key, size, ty) if prev else Opaque("uninit")
        if arr.cleared:
            return 0
        v = f(zi(r.slots[x][s]))
        ctx.assume(z3.And(v >= 0, v <= 1))
        return v
    r.initf = init


def clear(c, a, d):
    """ClearDiagram, as proven under C04: no line or vertex is live, no momentum is recorded"""
    c.run(c.prog.where["c19_clear"], c.prog.func("c19_clear"), [a[0]])
    r = a[0].region
    for x in r.arrays:
        if hasattr(x, "cleared"):
            x.cleared = True
            r.slots[x] = []
            for m in (r.cells, r.init):
                for k in [k for k in m if k[0] is x]:
                    del m[k]


def fix(c, a, d):
    """FixDiagram (proven under C04-C06): called on the restored diagram"""
    return c.run(c.prog.where["c19_fix"], c.prog.func("c19_fix"), a)


def assign(c, a, d):
    """Momentum::operator=, as proven under C01"""
    c.store(a[0], c.load(a[1], IntT(32)), IntT(32))
    return a[0]


def same_key(c, a, d):
    p, q = (c.load(x, PTR) for x in a)
    return p.region is q.region and p.off == q.off or cstring(c, p) == cstring(c, q)


def add_estimator(c, a, d):
    """AddEstimator: one more estimator, named after its order"""
    c.run(c.prog.where["c19_add"], c.prog.func("c19_add"), [a[0]])


def allocate(fn):
    """tables of the configured shape with arbitrary contents"""
    return lambda c, a, d: c.run(c.prog.where[fn], c.prog.func(fn), [a[0]])


CONTRACTS.update({"weight::Weight::_AllocateGW(para::ParaMC const&)": allocate("c19_alloc_gw"), "weight::Weight::_AllocateSigmaPolar(para::ParaMC const&)": allocate("c19_alloc_sp"),
                  "EstimatorBundle<double>::AddEstimator(" + STR[:-2] + ")": add_estimator, "ghost_same(" + STR[:-2] + " const&, " + STR[:-2] + " const&)": same_key,
                  "Momentum::operator=(Momentum const&)": assign, "vc_bits": bits, "vc_leftover": lambda c, a, d: None, "vc_refused": lambda c, a, d: None, "diag::Diagram::ClearDiagram()": clear, "diag::Diagram::FixDiagram()": fix})
