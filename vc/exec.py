"""Forward symbolic execution of LLVM IR: the verification-condition generator.

One *task* = one Python function ``task(ctx)`` that builds a pre-state from a
contract's precondition, runs a real function of /repo (its IR) and asserts the
postcondition with ``ctx.prove``.  The explorer re-runs the task once per path
(depth first over the decision sequence) until every path is explored, so all
inputs satisfying the precondition are covered; calls are replaced by callee
contracts when one is registered and executed (inlined) otherwise.

int  values: Python int or z3 Int (canonical signed value, width from the type)
i1   values: Python bool or z3 Bool
fp   values: Fraction or z3 Real  (IEEE-754 doubles are treated as reals)
ptr  values: Ptr
"""
import re
import subprocess
import sys
import time
from fractions import Fraction

import math
import z3

from . import ir
from .ir import Unsupported

sys.setrecursionlimit(20000)


class Infeasible(Exception):
    pass


class Thrown(Exception):
    def __init__(self, what, fatal=False):
        self.what, self.fatal = what, fatal


class PathEnd(Exception):
    """a task may raise this to end the path (e.g. the back edge of a cut loop)"""


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    return z3.IntVal(x) if isinstance(x, int) else x


def zr(x):
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    return x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def const_of(e):
    """python constant of a z3 expr if it is one"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def simp(e):
    if not is_sym(e):
        return e
    s = z3.simplify(e)
    c = const_of(s)
    return s if c is None else c


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return z3.And(*xs) if len(xs) > 1 else xs[0]


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return z3.Or(*xs) if len(xs) > 1 else xs[0]


def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def eq(a, b):
    if not is_sym(a) and not is_sym(b):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
        a, b = zb(a), zb(b)
    elif isinstance(a, Fraction) or isinstance(b, Fraction) or (is_sym(a) and a.is_real()) or (is_sym(b) and b.is_real()):
        a, b = zr(a), zr(b)
    else:
        a, b = zi(a), zi(b)
    if a.eq(b):
        return True
    return a == b


# ------------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ("region", "off", "terms")

    def __init__(self, region, off=0, terms=()):
        self.region, self.off, self.terms = region, off, terms

    def __repr__(self):
        return "Ptr(%s+%s%s)" % (self.region and self.region.name, self.off,
                                 "".join("+%s*%s" % t for t in self.terms))

    def add(self, c, term=None, stride=0):
        if term is None:
            return Ptr(self.region, self.off + c, self.terms)
        ts = list(self.terms)
        for k, (s, t) in enumerate(ts):
            if s == stride:
                ts[k] = (s, simp(t + term))
                if isinstance(ts[k][1], int):
                    c += ts[k][1] * s
                    del ts[k]
                break
        else:
            ts.append((stride, term))
        return Ptr(self.region, self.off + c, tuple(ts))


NULL = Ptr(None)


class FnPtr:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn:" + self.name


class Opaque:
    """value of an ignored library object"""

    def __init__(self, what=""):
        self.what = what

    def __repr__(self):
        return "opaque(%s)" % self.what

    def __eq__(self, o):
        # no value is known to be equal to, or to differ from, one nothing is known about
        if isinstance(o, (bool, int, float, Fraction, z3.ExprRef)):
            raise Unsupported("comparison of an unspecified value (%s)" % self.what)
        return self is o

    __hash__ = object.__hash__


class Packed:
    """several adjacent cells loaded as one wide integer (ABI coercion)"""

    def __init__(self, parts, size):
        self.parts, self.size = parts, size   # parts: [(off,size,value)]

    def __repr__(self):
        return "Packed%r" % (self.parts,)


class Array:
    """an array inside a region that is indexed symbolically"""

    def __init__(self, off, stride, count=None, name=""):
        self.off, self.stride, self.count, self.name = off, stride, count, name
        self.limit = None   # symbolic number of elements (count stays None)

    def __repr__(self):
        return "arr%s@%d" % (self.name, self.off)


class Region:
    def __init__(self, name, size=None, arrays=(), init=None, kind="obj"):
        self.name, self.size, self.arrays, self.initf, self.kind = name, size, list(arrays), init, kind
        self.slots = {a: [] for a in self.arrays}
        self.init = {}      # lazily materialised initial contents (key -> (size,val))
        self.cells = {}     # current contents written so far
        self.written = []   # log of keys written
        self.dead = False

    def __repr__(self):
        return "<%s>" % self.name


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, modules):
        self.modules = modules
        self.where = {}
        for m in modules:
            for n in m.funcs:
                self.where.setdefault(n, m)
        names = sorted(set(self.where) | {d for m in modules for d in m.decls} |
                       {g for m in modules for g in m.globals})
        out = subprocess.run(["c++filt"], input="\n".join(names) + "\n", text=True,
                             stdout=subprocess.PIPE, check=True).stdout.split("\n")
        self.demangled = dict(zip(names, out))
        self.mangled = {}
        for a, b in self.demangled.items():
            self.mangled.setdefault(b, []).append(a)
        self.hash_used = {}

    def find(self, dem):
        """mangled name of the defined function with this demangled name"""
        c = [n for n in self.mangled.get(dem, []) if n in self.where]
        if not c:
            raise Unsupported("function not found in /repo: " + dem)
        # prefer complete-object constructors
        c.sort(key=lambda n: ("C2E" in n, n))
        return c[0]

    def func(self, name):
        return self.where[name].funcs[name].parse()


class Obligation:
    __slots__ = ("name", "status", "detail", "model", "path", "secs")

    def __init__(self, name, status, detail="", model=None, path=(), secs=0.0):
        self.name, self.status, self.detail = name, status, detail
        self.model, self.path, self.secs = model, path, secs


OPAQUE_RE = re.compile(
    r"basic_string|basic_ostream|basic_stringstream|basic_ostringstream|basic_istream|basic_istringstream|std::allocator|std::locale"
    r"|std::ios_base|std::operator<<|std::operator\+|std::basic_ios|Logger|_Alloc_hider|std::char_traits"
    r"|std::runtime_error|std::ostream::|std::istream::|std::__cxx11::to_string|std::basic_filebuf|std::basic_ofstream|std::setw|std::setprecision"
    r"|ToString(<|$)|PrettyString|std::exception|__ostream|std::endl|std::flush|std::_Setw|std::_Setprecision|std::new_allocator<char>|__gnu_cxx::.*<char>")

_qual = {}


def qual(dem):
    """qualified name of a demangled function: no return type, no parameter list"""
    if dem in _qual:
        return _qual[dem]
    s = re.sub(r"operator(<<|>>|<=|>=|->|<|>|\(\))", lambda m: "operator" + "~" * len(m.group(1)), dem)
    d, start, end = 0, 0, len(s)
    for i, c in enumerate(s):
        if c in "<[{":
            d += 1
        elif c in ">]}":
            d -= 1
        elif c == "(" and d == 0 and not s.startswith("(anonymous", i):
            end = i
            break
        elif c == " " and d == 0 and not s.startswith("operator", start):
            start = i + 1
    q = dem[start:end]
    _qual[dem] = q
    return q


class Ctx:
    """state of one path"""

    def __init__(self, prog, task, prefix=(), contracts=None, mode="real", timeout=10000, fpmul="real"):
        self.prog, self.task = prog, task
        self.prefix = list(prefix)
        self.decisions = []        # [(choice, alternatives_remaining)]
        self.contracts = contracts or {}
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", timeout)
        self.timeout = timeout
        self.fresh_n = 0
        self.allocs = []
        self.obligations = []
        self.ncalls = 0
        self.steps = 0
        self.max_steps = 400000
        self.fpmul = fpmul
        self.globals = {}
        self.globals_init = {}
        self.queries = 0
        self.solver_s = 0.0
        self.log = []
        self.rng = []              # random draws in order: (kind, var, args)
        self.called = {}
        self.inlined = set()
        self.contract_used = set()
        self.unverified_calls = set()
        self.covers = {}
        self.depth = 0
        self.ptr_eq_hook = None
        self.nl = None
        self.facts = []
        self.loop_cuts = {}
        self.monos = {}
        self.monovars = {}
        self.posatoms = set()
        self.no_overflow_check = True
        self.zext_src = {}
        self.addrs = {}

    # ------------------------------------------------------------ logic
    def fresh(self, base, sort="int"):
        self.fresh_n += 1
        n = "%s!%d" % (base, self.fresh_n)
        return {"int": z3.Int, "real": z3.Real, "bool": z3.Bool}[sort](n)

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.facts.append(c)
        self.solver.add(c)

    def _check(self, *cs):
        t = time.time()
        self.queries += 1
        self.solver.push()
        for c in cs:
            self.solver.add(c)
        r = self.solver.check()
        self.solver_s += time.time() - t
        return r

    def feasible(self, c=None):
        if c is True:
            c = None
        if c is False:
            return False
        self.solver.set("timeout", min(2000, self.timeout))
        r = self._check(*([c] if c is not None else []))
        self.solver.set("timeout", self.timeout)
        self.solver.pop()
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", self.timeout)
            s.add(*self.facts)
            if c is not None:
                s.add(c)
            t = time.time()
            self.queries += 1
            r = s.check()
            self.solver_s += time.time() - t
        return r != z3.unsat

    def must(self, c):
        """PC |= c ?   (sound: unknown -> False)"""
        c = simp(c)
        if isinstance(c, bool):
            return c
        self.solver.set("timeout", min(2000, self.timeout))
        r = self._check(z3.Not(c))
        self.solver.set("timeout", self.timeout)
        self.solver.pop()
        return r == z3.unsat

    def check_alive(self):
        if not self.feasible():
            raise Infeasible()

    def choose(self, n, why=""):
        """demonic choice among n alternatives; all are explored"""
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        if self.nofork:
            raise Unsupported("choice inside a summarised loop")
        k = len(self.decisions)
        if k < len(self.prefix):
            c, rest = self.prefix[k]
            self.decisions.append((c, rest))
            return c
        self.decisions.append((0, n - 1))
        return 0

    def branch(self, c, why=""):
        c = simp(c)
        if isinstance(c, bool):
            return c
        if self.nofork:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if t and f:
                raise Unsupported("case split inside a summarised loop: " + str(c)[:80])
            if not t and not f:
                raise Infeasible()
            return t
        k = len(self.decisions)
        if k < len(self.prefix):
            ch, rest = self.prefix[k]
            self.decisions.append((ch, rest))
            self.facts.append(c if ch == 0 else z3.Not(c))
            self.solver.add(c if ch == 0 else z3.Not(c))
            return ch == 0
        t = self.feasible(c)
        f = self.feasible(z3.Not(c))
        if t and f:
            self.decisions.append((0, 1))
            self.assume(c)
            return True
        if t:
            self.decisions.append((0, 0))
            self.assume(c)
            return True
        if f:
            self.decisions.append((1, 0))
            self.assume(z3.Not(c))
            return False
        raise Infeasible()

    def concretize(self, e, limit=64):
        """fork over the feasible values of an integer expression"""
        e = simp(e)
        if isinstance(e, int):
            return e
        if self.nofork:
            raise Unsupported("case split inside a summarised loop: " + str(e)[:80])
        # find values with the solver; record as binary decisions
        for _ in range(limit):
            k = len(self.decisions)
            if k < len(self.prefix):
                ch, rest, v = self.prefix[k][0], self.prefix[k][1], self.prefix[k][2]
            else:
                r = self._check()
                if r == z3.unsat:
                    self.solver.pop()
                    raise Infeasible()
                if r == z3.unknown:
                    self.solver.pop()
                    raise Unsupported("cannot concretize %s" % e)
                v = self.solver.model().eval(e, model_completion=True).as_long()
                self.solver.pop()
                other = self.feasible(e != v)
                ch, rest = 0, (1 if other else 0)
            self.decisions.append((ch, rest, v))
            if ch == 0:
                self.assume(e == v)
                return v
            self.assume(e != v)
        raise Unsupported("concretize: more than %d values for %s" % (limit, e))

    def prove(self, name, cond, detail="", info=None):
        """a verification condition on this path"""
        cond = simp(cond)
        t = time.time()
        if cond is True:
            self.obligations.append(Obligation(name, "ok"))
            return True
        if cond is False:
            r = self._check()
            self.solver.pop()
            if r == z3.unsat:
                self.obligations.append(Obligation(name, "ok", "infeasible path"))
                return True
        else:
            self.solver.set("timeout", min(2500, self.timeout))
            r = self._check(z3.Not(cond))
            self.solver.set("timeout", self.timeout)
            if r == z3.unsat:
                self.solver.pop()
                self.obligations.append(Obligation(name, "ok", secs=time.time() - t))
                return True
            if r == z3.unknown:
                self.solver.pop()
                if self.retry_unsat(z3.Not(cond)):
                    self.obligations.append(Obligation(name, "ok", "second solver", secs=time.time() - t))
                    return True
                am = getattr(self, "alt_model", None)
                self.alt_model = None
                self.obligations.append(Obligation(name, "unknown" if am is None else "fail", detail or str(cond)[:400],
                                                   model=self.describe(am, info),
                                                   path=list(self.decisions), secs=time.time() - t))
                return False
            self.solver.pop()
        model = None
        r = self._check(*([z3.Not(cond)] if cond is not False else []))
        if r == z3.sat:
            model = self.solver.model()
        self.solver.pop()
        self.obligations.append(Obligation(name, "fail", (detail or "") + " :: " + str(cond)[:600],
                                           model=self.describe(model, info), path=list(self.decisions),
                                           secs=time.time() - t))
        return False

    def retry_unsat(self, extra):
        """fresh non-incremental z3, then cvc5, on the same query"""
        s = z3.Solver()
        s.set("timeout", self.timeout * 2)
        for f in self.facts:
            s.add(f)
        s.add(extra)
        t = time.time()
        r = s.check()
        self.queries += 1
        self.solver_s += time.time() - t
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self.alt_model = s.model()
            return False
        try:
            from . import cvc
            return cvc.unsat(s.to_smt2(), self.timeout * 2)
        except Exception:
            return False

    def fail(self, name, detail, model=None):
        self.obligations.append(Obligation(name, "fail", detail, model=model, path=list(self.decisions)))

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def describe(self, model, info=None):
        if model is None:
            return None
        out = {}
        for d in model.decls():
            if d.arity() == 0:
                out[d.name()] = str(model[d])
        if info:
            try:
                out["_info"] = info(model)
            except Exception as e:      # model printing must never decide anything
                out["_info"] = "n/a: %s" % e
        return out

    # ------------------------------------------------------------ memory
    def alloc(self, name, ty=None, size=None, arrays=(), init=None, kind="obj"):
        r = Region(name, size, arrays, init, kind)
        self.allocs.append(r)
        return r

    def array_for(self, region, off, terms):
        best = None
        for a in region.arrays:
            if a.count is None:
                ok = off >= a.off
            else:
                ok = a.off <= off < a.off + a.stride * a.count or (terms and off == a.off + a.stride * a.count)
            if terms:
                ok = (ok or off < a.off) and all(s % a.stride == 0 or a.stride % s == 0 or s < a.stride for s, _ in terms)
                if off < a.off and best is not None:
                    ok = False
                if ok and off < a.off and (a.off - off) > a.stride:
                    ok = False
            if ok:
                best = a
        return best

    def norm(self, p, size):
        """-> (array or None, slot number or None, offset)"""
        if isinstance(p, Opaque):
            raise Unsupported("memory access through opaque pointer %r" % p)
        if not isinstance(p, Ptr):
            raise Unsupported("memory access through %r" % (p,))
        if p.region is None:
            self.obligations.append(Obligation("memory-safety/null-deref", "fail", "null dereference",
                                               path=list(self.decisions)))
            raise Thrown("null dereference", True)
        r = p.region
        off, terms = p.off, [(s, t) for s, t in p.terms]
        a = self.array_for(r, off, terms)
        if a is None:
            for s, t in terms:
                off += s * self.concretize(t)
            a2 = self.array_for(r, off, ())
            if a2 is None:
                return (None, None, off)
            a = a2
            terms = []
        idx = 0
        rest = off - a.off
        big = []
        for s, t in terms:
            if s % a.stride == 0:
                idx = idx + (s // a.stride) * t
            else:
                rest += s * self.concretize(t)
        q, rem = divmod(rest, a.stride)
        idx = simp(idx + q) if is_sym(idx) else idx + q
        return (a, self.slot(r, a, idx), rem)

    def slot(self, r, a, idx):
        lst = r.slots[a]
        for k, e in enumerate(lst):
            if e is idx or (not is_sym(e) and not is_sym(idx) and e == idx) or \
                    (is_sym(e) and is_sym(idx) and e.eq(idx)):
                return k
        if not is_sym(idx):
            cands = [(k, e) for k, e in enumerate(lst) if is_sym(e)]
        else:
            cands = list(enumerate(lst))
        if self.nofork:
            al = []
            for k, e in cands:
                c = simp(eq(e, idx))
                if c is True or c is not False and self.must(c):
                    return k
                if c is not False and not self.must(Not(c)):
                    al.append(k)
            for k in al:
                self.mayalias.append((r, a, k, len(lst)))
        else:
            for k, e in cands:
                if self.branch(eq(e, idx), "alias"):
                    return k
        lst.append(idx)
        n = a.count if a.limit is None else a.limit
        if n is not None:
            self.prove("memory-safety/index-in-bounds %s%s" % (r.name, a.name or a.off),
                       And(zi(idx) >= 0, zi(idx) < n) if is_sym(idx) or is_sym(n) else (0 <= idx < n),
                       "array index out of bounds")
        return len(lst) - 1

    def _overlaps(self, cells, key, size):
        a, s, off = key
        out = []
        for k2, (sz2, v2) in cells.items():
            if k2[0] is a and k2[1] == s and k2[2] < off + size and off < k2[2] + sz2:
                out.append((k2, sz2, v2))
        return out

    def split(self, v, vsize, off, size, ty=None):
        """sub-value [off,off+size) of a cell value of vsize bytes"""
        if off == 0 and size == vsize and not (isinstance(v, Packed) and False):
            return v
        if isinstance(v, Packed):
            for o, s, x in v.parts:
                if o <= off and off + size <= o + s:
                    return self.split(x, s, off - o, size)
            parts = [(o - off, s, x) for o, s, x in v.parts if off <= o and o + s <= off + size]
            if parts:
                return Packed(parts, size)
            raise Unsupported("split of packed value")
        if hasattr(v, "split_bytes"):
            return v.split_bytes(self, off, size)
        if isinstance(v, int) and not isinstance(v, bool):
            x = (v >> (8 * off)) & ((1 << (8 * size)) - 1)
            if x >= 1 << (8 * size - 1):
                x -= 1 << (8 * size)
            return x
        if isinstance(v, Opaque):
            return v
        raise Unsupported("partial read of %r" % (v,))

    def load_key(self, r, key, size, ty):
        # current contents first
        c = r.cells.get(key)
        if c is not None and c[0] == size:
            return c[1]
        ov = self._overlaps(r.cells, key, size)
        if ov:
            if len(ov) == 1 and ov[0][0][2] <= key[2] and ov[0][0][2] + ov[0][1] >= key[2] + size:
                return self.split(ov[0][2], ov[0][1], key[2] - ov[0][0][2], size, ty)
            return self._gather(r, key, size, ty)
        return self.init_key(r, key, size, ty)

    def init_key(self, r, key, size, ty):
        c = r.init.get(key)
        if c is not None and c[0] == size:
            return c[1]
        ov = self._overlaps(r.init, key, size)
        if ov:
            if len(ov) == 1 and ov[0][0][2] <= key[2] and ov[0][0][2] + ov[0][1] >= key[2] + size:
                return self.split(ov[0][2], ov[0][1], key[2] - ov[0][0][2], size, ty)
            return self._gather(r, key, size, ty)
        if r.initf is None:
            v = Opaque("uninit %s+%s" % (r.name, key[2]))
        else:
            v = r.initf(self, r, key, size, ty)
            if v is None:
                return self._gather(r, key, size, ty)
        r.init[key] = (size, v)
        return v

    def _gather(self, r, key, size, ty):
        """assemble from smaller cells"""
        a, s, off = key
        unit = 4 if size > 4 and size % 4 == 0 else 1
        parts = []
        o = 0
        while o < size:
            # look for an existing cell at this offset
            done = False
            for cells in (r.cells, r.init):
                c = cells.get((a, s, off + o))
                if c is not None and o + c[0] <= size:
                    parts.append((o, c[0], c[1]))
                    o += c[0]
                    done = True
                    break
            if done:
                continue
            v = self.load_key(r, (a, s, off + o), unit, ir.IntT(8 * unit))
            parts.append((o, unit, v))
            o += unit
        if len(parts) == 1:
            return parts[0][2]
        return Packed(parts, size)

    def load(self, p, ty):
        size = self.sizeof(ty)
        key = self.norm(p, size)
        v = self.load_key(p.region, key, size, ty)
        if self.nofork and key[0] is not None and self.loop_reads is not None:
            r = p.region
            for (r2, a, x, y) in self.mayalias:
                if r2 is r and a is key[0] and key[1] in (x, y) and any(k2[0] is a and k2[1] == x + y - key[1] for k2 in r.cells):
                    raise Unsupported("loop body reads an element it may have written under another index")
            if not any(k2[0] is key[0] and k2[1] == key[1] for k2 in r.cells):
                self.loop_reads.append((r, key[0], r.slots[key[0]][key[1]], key[2], size, ty, v))
        return self.retype(v, ty)

    def retype(self, v, ty):
        k = ty.kind
        if isinstance(v, (Opaque, Packed)):
            return v
        if k == "int" and ty.n == 1 and isinstance(v, int):
            return bool(v)
        if k == "ptr" and v == 0 and isinstance(v, int):
            return NULL
        if k == "double" and isinstance(v, int):
            if v == 0:
                return Fraction(0)
            raise Unsupported("int read as double")
        if k == "int" and isinstance(v, Fraction):
            if v == 0:
                return 0
            raise Unsupported("double read as int")
        return v

    def store_key(self, r, key, size, v):
        for k2, sz2, v2 in self._overlaps(r.cells, key, size):
            if k2 == key and sz2 == size:
                continue
            # keep the parts of the old cell outside the new one
            lo = k2[2]
            if lo < key[2]:
                n = key[2] - lo
                r.cells[(key[0], key[1], lo)] = (n, self.split(v2, sz2, 0, n))
            hi, nhi = k2[2] + sz2, key[2] + size
            if hi > nhi:
                r.cells[(key[0], key[1], nhi)] = (hi - nhi, self.split(v2, sz2, nhi - lo, hi - nhi))
            if lo >= key[2]:
                r.cells.pop(k2, None)
        if isinstance(v, Packed):
            for o, s, x in v.parts:
                r.cells[(key[0], key[1], key[2] + o)] = (s, x)
            r.cells.pop(key, None) if not any(o == 0 for o, _, _ in v.parts) else None
        else:
            r.cells[key] = (size, v)
        r.written.append(key)

    def store(self, p, v, ty=None, size=None):
        if size is None:
            size = self.sizeof(ty)
        key = self.norm(p, size)
        if isinstance(v, (list, tuple)) and ty is not None:
            sty = self.cur_mod.resolve(ty)
            for i, x in enumerate(v):
                if sty.kind == "struct":
                    self.store(p.add(self.cur_mod.fieldoff(sty, i)), x, sty.fields[i])
                else:
                    self.store(p.add(i * self.sizeof(sty.elem)), x, sty.elem)
            return
        if isinstance(v, bool):
            v = int(v)
        elif is_sym(v) and z3.is_bool(v):
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        self.store_key(p.region, key, size, v)

    def copy_elements(self, d, s, n):
        """copy a symbolic number of array elements between two objects; the source must not change afterwards"""
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)) or d.region is s.region or d.region is None or s.region is None:
            raise Unsupported("memcpy of symbolic length")
        def place(p):
            for a in p.region.arrays:
                q = p.off - a.off
                if not p.terms and q >= 0 and q % a.stride == 0 and (a.count is None or q // a.stride <= a.count if isinstance(a.count, int) or a.count is None else True):
                    return a, q // a.stride
            raise Unsupported("memcpy of symbolic length outside an array")
        (da, d0), (sa, s0) = place(d), place(s)
        e = da.stride
        if sa.stride != e or any(k[0] is sa for k in s.region.cells):
            raise Unsupported("memcpy of symbolic length between different arrays")
        cnt = simp(z3.simplify(n / e, som=True))
        self.prove("copy-of-a-whole-number-of-elements", And(zi(cnt) * e == n, zi(cnt) >= 0))
        for a, o in ((da, d0), (sa, s0)):
            lim = a.count if a.limit is None else a.limit
            if lim is not None:
                self.prove("memory-safety/copy-in-bounds %s" % (a.name or a.off), zi(cnt) + o <= zi(lim))
        dr, sr, at = d.region, s.region, len(s.region.written)

        def value(ctx, i, off, size, ty, old):
            if len(sr.written) != at:
                raise Unsupported("source of a copy changes afterwards")
            inside = And(zi(i) >= d0, zi(i) < d0 + zi(cnt))
            if ctx.branch(inside, "copied element"):
                return ctx.load_key(sr, (sa, ctx.slot(sr, sa, simp(zi(i) - d0 + s0)), off), size, ty)
            return old()
        for k, (size, v) in list(dr.cells.items()) + list(dr.init.items()):
            if k[0] is da:
                self.store_key(dr, k, size, value(self, dr.slots[da][k[1]], k[2], size, ir.DOUBLE, lambda v=v: v))
        prev = dr.initf

        def init(ctx, r, key, size, ty):
            if key[0] is not da:
                return prev(ctx, r, key, size, ty) if prev else Opaque("uninit")
            return value(ctx, r.slots[da][key[1]], key[2], size, ty, lambda: prev(ctx, r, key, size, ty) if prev else Opaque("uninit"))
        dr.initf = init

    def memcpy(self, d, s, n):
        if not isinstance(n, int):
            return self.copy_elements(d, s, n)
        if n == 0:
            return
        if isinstance(s, Opaque):
            raise Unsupported("memcpy from opaque")
        ks = self.norm(s, n)
        kd = self.norm(d, n)
        sr, dr = s.region, d.region
        for k in (ks, kd):
            if k[0] is not None and k[2] + n > k[0].stride:
                # element by element (all reads come first)
                e = k[0].stride
                cut = [0] + list(range(e - k[2], n, e)) + [n]
                tmp = []
                for x, y in zip(cut, cut[1:]):
                    t = self.alloc("copy", y - x)
                    self.memcpy(Ptr(t), s.add(x), y - x)
                    tmp.append((x, t, y - x))
                for x, t, m in tmp:
                    self.memcpy(d.add(x), Ptr(t), m)
                return
        # cells of the source range, most recent first
        parts = []
        o = 0
        while o < n:
            c = sr.cells.get((ks[0], ks[1], ks[2] + o)) or None
            if c is None:
                c2 = sr.init.get((ks[0], ks[1], ks[2] + o))
                if c2 is not None and not self._overlaps(sr.cells, (ks[0], ks[1], ks[2] + o), c2[0]):
                    c = c2
            if c is not None and o + c[0] <= n:
                parts.append((o, c[0], c[1]))
                o += c[0]
                continue
            u = None
            if sr.initf is not None and hasattr(sr.initf, "unit"):
                u = sr.initf.unit(sr, (ks[0], ks[1], ks[2] + o))
            if u is None:
                u = 8 if (n - o) >= 8 and (ks[2] + o) % 8 == 0 else (4 if (n - o) >= 4 and (ks[2] + o) % 4 == 0 else 1)
            v = self.load_key(sr, (ks[0], ks[1], ks[2] + o), u, ir.IntT(8 * u))
            parts.append((o, u, v))
            o += u
        for o, sz, v in parts:
            self.store_key(dr, (kd[0], kd[1], kd[2] + o), sz, v)

    # ------------------------------------------------------------ operands
    def sizeof(self, ty):
        if self.cur_mod is None:      # a specification reads or writes memory outside any call
            return {"ptr": 8, "double": 8, "float": 4}.get(ty.kind) or (ty.n + 7) // 8
        return self.cur_mod.sizeof(ty)

    def const(self, o, ty, env):
        k = o[0]
        if k == "l":
            return env[o[1]]
        if k == "int":
            if ty is not None and ty.kind == "int" and ty.n == 1:
                return bool(o[1])
            return o[1]
        if k == "fp":
            return o[1]
        if k == "fpspecial":
            return self.fresh("fpspecial", "real")
        if k == "null":
            return NULL
        if k == "undef":
            return Opaque("undef")
        if k == "g":
            return self.global_ptr(o[1])
        if k == "zero":
            t = self.cur_mod.resolve(ty) if ty.kind == "named" else ty
            if t.kind == "int":
                return False if t.n == 1 else 0
            if t.kind in ("double", "float"):
                return Fraction(0)
            if t.kind == "ptr":
                return NULL
            if t.kind == "struct":
                return [self.const(o, f, env) for f in t.fields]
            if t.kind == "array":
                return [self.const(o, t.elem, env) for _ in range(t.n)]
        if k == "agg":
            return [self.const(v, t, env) for t, v in o[1]]
        if k == "str":
            return list(o[1])
        if k == "ce":
            if o[1] == "gep":
                base = self.const(o[3], ir.PTR, env)
                return self.gep(o[2], base, [(t, self.const(v, t, env)) for t, v in o[4]])
            if o[1] in ("bitcast", "inttoptr", "ptrtoint"):
                return self.const(o[3], o[2], env)
            if o[1] in ("trunc", "zext", "sext"):
                return self.const(o[3], o[2], env)
            if o[1] in ("add", "sub", "mul"):
                a, b = self.const(o[3], o[2], env), self.const(o[4], o[2], env)
                return {"add": a + b, "sub": a - b, "mul": a * b}[o[1]]
        raise Unsupported("operand %r" % (o,))

    def global_ptr(self, name):
        if name in self.prog.where or any(name in m.decls for m in self.prog.modules):
            return FnPtr(name)
        plain = name
        if name.startswith((".str", "__const.", "switch.table", "_ZL")) and self.cur_mod is not None and name in self.cur_mod.globals:
            # internal to one source file
            mods = [m for m in self.prog.modules if name in m.globals]
            if len(mods) > 1 and mods[0] is not self.cur_mod:
                name = "%s in %d" % (name, self.prog.modules.index(self.cur_mod))
        if name not in self.globals:
            mod = None
            for m in [self.cur_mod] + self.prog.modules:
                if m is not None and plain in m.globals and m.globals[plain][0] is not None:
                    mod = m
                    if m.globals[plain][1] is not None:
                        break
            ginit = self.globals_init.get(self.prog.demangled.get(plain, plain))
            if mod is None:
                r = self.alloc("global:" + name, kind="global")
            else:
                ty, init, const = mod.globals[plain]
                r = self.alloc("global:" + name, kind="global")
                r.gtype = ty
                self.globals[name] = r
                if ginit is not None:
                    r.initf = ginit
                elif init is not None:
                    save, self.cur_mod = getattr(self, "cur_mod", None), mod
                    try:
                        self.fill_global(r, ty, init)
                    finally:
                        self.cur_mod = save
            if ginit is not None:
                r.initf = ginit
            self.globals[name] = r
        return Ptr(self.globals[name])

    def fill_global(self, r, ty, init):
        def rec(off, t, o):
            t = self.cur_mod.resolve(t)
            if o[0] == "zero":
                if t.kind in ("struct",):
                    for i, f in enumerate(t.fields):
                        rec(off + self.cur_mod.fieldoff(t, i), f, o)
                    return
                if t.kind == "array":
                    if t.n > 256:
                        r.initf = lambda c, rr, k, s, ty2: self.const(("zero",), ty2, {})
                        return
                    s = self.sizeof(t.elem)
                    for i in range(t.n):
                        rec(off + i * s, t.elem, o)
                    return
                r.init[(None, None, off)] = (self.sizeof(t), self.const(o, t, {}))
                return
            if o[0] == "agg":
                for i, (ft, fo) in enumerate(o[1]):
                    if t.kind == "struct":
                        rec(off + self.cur_mod.fieldoff(t, i), ft, fo)
                    else:
                        rec(off + i * self.sizeof(t.elem), ft, fo)
                return
            if o[0] == "str":
                for i, b in enumerate(o[1]):
                    r.init[(None, None, off + i)] = (1, b)
                return
            v = self.const(o, t, {})
            if isinstance(v, bool):
                v = int(v)
            r.init[(None, None, off)] = (self.sizeof(t), v)

        rec(0, ty, init)

    def gep(self, ty, base, idx):
        if isinstance(base, Opaque):
            return Opaque("gep " + base.what)
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        p = base
        first = True
        t = ty
        for ity, v in idx:
            if isinstance(v, Opaque):
                raise Unsupported("gep index opaque %r" % (v,))
            if isinstance(v, bool):
                v = int(v)
            if first:
                s = self.sizeof(t)
                first = False
            else:
                t = self.cur_mod.resolve(t)
                if t.kind == "struct":
                    if not isinstance(v, int):
                        raise Unsupported("symbolic struct index")
                    p = p.add(self.cur_mod.fieldoff(t, v))
                    t = t.fields[v]
                    continue
                if t.kind not in ("array", "vector"):
                    raise Unsupported("gep into %r" % t)
                t = t.elem
                s = self.sizeof(t)
            if isinstance(v, int):
                p = p.add(v * s)
            else:
                p = self.add_linear(p, v, s)
        return p

    def add_linear(self, p, v, s):
        v = simp(v)
        if isinstance(v, int):
            return p.add(v * s)
        # split off a constant summand so that slots stay canonical
        if z3.is_add(v):
            c = 0
            rest = []
            for ch in v.children():
                k = const_of(ch)
                if k is not None:
                    c += k
                else:
                    rest.append(ch)
            if c and rest:
                return p.add(c * s, simp(z3.Sum(rest)) if len(rest) > 1 else rest[0], s)
        return p.add(0, v, s)

    # ------------------------------------------------------------ execution
    def call_dem(self, dem, args):
        return self.call(self.prog.find(dem), args)

    def call(self, name, args):
        f = self.prog.func(name)
        self.inlined.add(self.prog.demangled.get(name, name))
        return self.run(self.prog.where[name], f, args)

    def run(self, mod, f, args):
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("call depth")
        save = getattr(self, "cur_mod", None)
        self.cur_mod = mod
        env = {}
        if len(args) < len(f.params):
            raise Unsupported("arity of " + f.name)
        for (ty, nm, at), v in zip(f.params, args):
            if "byval" in at and isinstance(v, Ptr):
                r = self.alloc("byval:" + nm)
                self.memcpy(Ptr(r), v, self.sizeof(at["byval"]))
                v = Ptr(r)
            env[nm] = v
        try:
            return self.flow(mod, f, env, f.entry, None)
        finally:
            self.cur_mod = save
            self.depth -= 1

    def undecided(self, c):
        c = simp(c)
        return not isinstance(c, bool) and self.feasible(c) and self.feasible(z3.Not(c))

    nofork = False            # summarising a loop body: no case splits
    loop_frame = None
    loop_peek = False
    loop_reads = None
    mayalias = None
    auto_loops = False
    real_lib = None           # functions of the standard library that are executed, not ignored

    def flow(self, mod, f, env, lab, prev, resume=None, stop=None, inner=False):
        """run from a label; with ``resume`` (a loop header whose phis are set) once around the loop;
        with ``stop`` to the entry of that block; ``inner`` when continuing inside such a run"""
        first = resume is not None and not inner
        frame = self.loop_frame if resume is not None else None
        merged = False
        hd, summed, visits = None, set(), {}
        if self.auto_loops:
            from . import loops
            hd = loops.headers(f)
        if True:
            while True:
                blk = f.blocks[lab]
                cut = self.loop_cuts.get((f.name, lab))
                nxt = None
                # phis first, simultaneously
                i = 0
                newvals = {}
                while i < len(blk) and blk[i].op == "phi":
                    ins = blk[i]
                    if first or merged:
                        i += 1
                        continue
                    for v, b in ins.a:
                        if b == prev:
                            newvals[ins.dst] = self.const(v, ins.ty, env)
                            break
                    else:
                        raise Unsupported("phi without predecessor %s" % prev)
                    i += 1
                if resume is not None and not first and lab == resume:
                    return ("back", newvals)
                if stop == lab and not merged:
                    return ("at", newvals)
                merged = False
                env.update(newvals)
                if hd and lab in summed and prev not in hd[lab]:
                    summed.discard(lab)       # the loop is entered again
                if hd and lab in summed:
                    raise Infeasible()        # n was not the number of iterations: another value of n covers this
                if hd and cut is not None:
                    again = False             # this loop has an invariant of its own
                elif hd and lab in hd and not first and lab not in summed:
                    again = prev in hd[lab]
                    visits[lab] = visits.get(lab, 0) + 1 if again else 0
                if hd and cut is None and lab in hd and not first and lab not in summed and \
                        (visits[lab] == 32 if again else loops.symbolic_exit(self, mod, f, lab, env)):
                    self.cur_mod = mod
                    if loops.summarise(self, mod, f, lab, env):
                        summed.add(lab)
                    self.cur_mod = mod
                first = False
                if cut is not None:
                    cut(self, f, lab, prev, env)
                for ins in blk[i:]:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise Unsupported("step budget exceeded in " + f.name)
                    op = ins.op
                    if op == "br":
                        nxt = ins.a[0]
                        break
                    if op == "condbr":
                        c = self.const(ins.a[0], ir.IntT(1), env)
                        if isinstance(c, Opaque):
                            c = self.fresh("opaque_branch", "bool")
                        if frame is not None and (ins.a[1] in frame[2]) != (ins.a[2] in frame[2]):
                            c = simp(c)
                            if self.loop_peek:
                                raise loops.Peek(not isinstance(c, bool))
                            stay = ins.a[1] in frame[2]
                            if isinstance(c, bool):
                                if c != stay:
                                    raise Infeasible()
                            else:
                                self.assume(c if stay else z3.Not(c))
                                self.check_alive()
                            nxt = ins.a[1] if stay else ins.a[2]
                            break
                        if self.nofork and self.undecided(c):
                            from . import loops
                            r = loops.merge(self, mod, f, lab, simp(c), ins.a[1], ins.a[2], env, resume, frame)
                            self.cur_mod = mod
                            if r[0] != "at":
                                return r[1] if r[0] == "ret" else r
                            env.update(r[2])
                            nxt, merged = r[1], True
                            break
                        nxt = ins.a[1] if self.branch(c, lab) else ins.a[2]
                        break
                    if op == "ret":
                        if frame is not None:
                            raise Unsupported("return inside a summarised loop")
                        return None if ins.a[0] is None else self.const(ins.a[0], ins.ty, env)
                    if op == "switch":
                        v = self.const(ins.a[0], ins.ty, env)
                        nxt = ins.a[1]
                        for c, l in ins.a[2]:
                            if self.branch(eq(v, self.const(c, ins.ty, env))):
                                nxt = l
                                break
                        break
                    if op == "unreachable":
                        raise Thrown("unreachable", True)
                    if op == "resume":
                        raise Thrown("rethrown: " + getattr(self, "thrown", Thrown("?")).what)
                    if op in ("call", "invoke"):
                        try:
                            v = self.do_call(ins, env)
                        except Thrown as e:
                            if op != "invoke" or e.fatal:
                                raise
                            self.cur_mod = mod
                            nxt = ins.a[3]
                            self.thrown = e
                            break
                        self.cur_mod = mod
                        if ins.dst is not None:
                            env[ins.dst] = v
                        if op == "invoke":
                            nxt = ins.a[2]
                            break
                        continue
                    self.exec_ins(ins, env)
                if nxt is None:
                    raise Unsupported("block fell through")
                prev, lab = lab, nxt

    def do_call(self, ins, env):
        callee, args, _, _ = ins.a
        if callee[0] == "l":
            fp = env[callee[1]]
            if isinstance(fp, FnPtr):
                name = fp.name
            else:
                raise Unsupported("indirect call " + ins.text[:120])
        else:
            name = callee[1]
        if name.startswith("llvm."):
            return self.intrinsic(name, ins, [self.const(v, t, env) for t, v in args])
        vals = [self.const(v, t, env) for t, v in args]
        return self.call_named(name, vals, ins.ty, ins)

    def call_named(self, name, vals, rty, ins=None):
        dem = self.prog.demangled.get(name, name)
        self.ncalls += 1
        h = self.contracts.get(dem)
        if h is None:
            h = self.contracts.get(name)
        if h is None:
            for pat, hh in self.contracts.get("~patterns", ()):
                if pat.match(dem):
                    h = hh
                    break
        if h is not None:
            self.contract_used.add(dem)
            return h(self, vals, dem)
        if name in ("__cxa_throw", "__cxa_rethrow", "abort", "exit", "_Exit", "__assert_fail", "__clang_call_terminate") or \
                dem.startswith("std::__throw") or dem == "std::terminate()":
            raise Thrown(dem, name in ("abort", "exit", "_Exit", "__assert_fail", "__clang_call_terminate") or dem == "std::terminate()")
        h = LIB.get(name) or LIB.get(dem)
        if h is not None:
            return h(self, vals, dem)
        if name in ("__cxa_begin_catch", "__cxa_end_catch", "__cxa_free_exception", "__cxa_atexit", "puts", "printf",
                    "sprintf", "__cxa_guard_release", "__cxa_guard_abort", "fflush", "fprintf", "putchar"):
            return 0
        if name == "__cxa_guard_acquire":
            return 0
        if name.startswith("llvm.eh.typeid"):
            return Opaque("typeid")
        if name == "__cxa_allocate_exception":
            return Ptr(self.alloc("exception", size=vals[0] if isinstance(vals[0], int) else 64, init=lambda c, r, k, s, ty: Opaque("exception")))
        if OPAQUE_RE.search(qual(dem)) and not dem.startswith("void std::swap") and not (self.real_lib and name in self.prog.where and self.real_lib.search(qual(dem))):
            self.unverified_calls.add(dem)
            if rty is not None and rty.kind == "int":
                return self.fresh("lib", "bool" if rty.n == 1 else "int")
            if rty is not None and rty.kind == "double":
                return self.fresh("lib", "real")
            # stream-like functions return their first argument
            return Opaque(dem[:40])
        if name in self.prog.where:
            self.inlined.add(dem)
            self.called[dem] = self.called.get(dem, 0) + 1
            return self.run(self.prog.where[name], self.prog.func(name), vals)
        raise Unsupported("call to external function without contract: " + dem)

    def wrap(self, v, n, flags, unsigned=False):
        """canonical signed value of an n-bit result"""
        if isinstance(v, int):
            m = 1 << n
            v &= m - 1
            return v - m if v >= m >> 1 else v
        return v

    def as_unsigned(self, v, n):
        if isinstance(v, int):
            return v & ((1 << n) - 1)
        lo = -(1 << (n - 1))
        if self.assume_nonneg_unsigned:
            return v
        if self.must(zi(v) >= 0):
            return v
        return z3.If(v < 0, v + (1 << n), v)

    assume_nonneg_unsigned = False
    exact_unsigned = False

    def exec_ins(self, ins, env):
        op = ins.op
        C = lambda o, ty: self.const(o, ty, env)
        if op == "alloca":
            cnt = ins.a[0]
            n = 1
            if cnt is not None:
                n = C(cnt, None)
                if not isinstance(n, int):
                    raise Unsupported("symbolic alloca")
            r = self.alloc("local:" + str(ins.dst), kind="local")
            r.ty = ins.ty
            # arrays indexed symbolically are handled by forking (small) or slots (big)
            t = ins.ty
            if t.kind == "array" and t.n > 4 and self.local_arrays_symbolic:
                a = Array(0, self.sizeof(t.elem), t.n)
                r.arrays.append(a)
                r.slots[a] = []
            env[ins.dst] = Ptr(r)
        elif op == "load":
            env[ins.dst] = self.load(C(ins.a[0], ir.PTR), ins.ty)
        elif op == "store":
            self.store(C(ins.a[1], ir.PTR), C(ins.a[0], ins.ty), ins.ty)
        elif op == "gep":
            env[ins.dst] = self.gep(ins.ty, C(ins.a[0], ir.PTR), [(t, C(v, t)) for t, v in ins.a[1]])
        elif op in ir.BIN:
            env[ins.dst] = self.binop(op, C(ins.a[0], ins.ty), C(ins.a[1], ins.ty), ins.ty.n, ins.a[2])
        elif op in ir.FBIN:
            env[ins.dst] = self.fbin(op, C(ins.a[0], ins.ty), C(ins.a[1], ins.ty))
        elif op == "fneg":
            env[ins.dst] = self.fneg(C(ins.a[0], ins.ty))
        elif op == "icmp":
            env[ins.dst] = self.icmp(ins.a[0], C(ins.a[1], ins.ty), C(ins.a[2], ins.ty), ins.ty)
        elif op == "fcmp":
            env[ins.dst] = self.fcmp(ins.a[0], C(ins.a[1], ins.ty), C(ins.a[2], ins.ty))
        elif op in ir.CASTS:
            env[ins.dst] = self.cast(op, C(ins.a[1], ins.a[0]), ins.a[0], ins.ty)
        elif op == "freeze":
            env[ins.dst] = C(ins.a[0], ins.ty)
        elif op == "select":
            c = C(ins.a[0], ir.IntT(1))
            a, b = C(ins.a[1], ins.ty), C(ins.a[2], ins.ty)
            env[ins.dst] = self.select(c, a, b)
        elif op == "extractvalue":
            v = C(ins.a[0], ins.ty)
            for i in ins.a[1]:
                if isinstance(v, Opaque):
                    break
                v = v[i]
            env[ins.dst] = v
        elif op == "insertvalue":
            v = C(ins.a[0], ins.ty)
            x = ins.a[1]
            t = self.cur_mod.resolve(ins.ty)
            if isinstance(v, Opaque):
                v = [Opaque("undef") for _ in t.fields]
            v = list(v)
            if len(ins.a[2]) != 1:
                raise Unsupported("deep insertvalue")
            v[ins.a[2][0]] = self.const(x, t.fields[ins.a[2][0]], env)
            env[ins.dst] = v
        elif op == "landingpad":
            env[ins.dst] = [Opaque("exception"), Opaque("selector")]
        else:
            raise Unsupported("instruction " + ins.text[:100])

    local_arrays_symbolic = True

    def select(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(c, Opaque):
            raise Unsupported("select on opaque")
        if isinstance(a, (Ptr, Opaque, Packed, list, FnPtr)) or isinstance(b, (Ptr, Opaque, Packed, list, FnPtr)) \
                or hasattr(a, "split_bytes") or hasattr(b, "split_bytes"):
            return a if self.branch(c) else b
        if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, bool) or isinstance(b, bool) or (is_sym(a) and z3.is_bool(a)):
            return simp(z3.If(c, zb(a), zb(b)))
        if isinstance(a, Fraction) or isinstance(b, Fraction) or (is_sym(a) and a.is_real()):
            if self.fpmul == "mono":
                return a if self.branch(c) else b
            return z3.If(c, zr(a), zr(b))
        return simp(z3.If(c, zi(a), zi(b)))

    def b2i(self, v):
        if isinstance(v, bool):
            return int(v)
        if is_sym(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def binop(self, op, a, b, n, flags):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("bin")
        if isinstance(a, (Ptr,)) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is b.region:
                if a.terms == b.terms:
                    return a.off - b.off
                d = a.off - b.off
                for s, t in a.terms:
                    d = d + s * t
                for s, t in b.terms:
                    d = d - s * t
                return simp(d)
            raise Unsupported("pointer arithmetic " + op)
        if isinstance(a, Packed) or isinstance(b, Packed):
            r = self.packed_op(op, a, b, n)
            if r is not None:
                return r
            a, b = self.unpack(a), self.unpack(b)
        if n == 64 and op == "shl" and b == 32 and is_sym(a):
            src = self.zext_src.get(a.get_id())
            if src is not None and src[1] == 32:
                return Packed([(0, 4, 0), (4, 4, src[2])], 8)
        if n == 1:
            a, b = (bool(x) if isinstance(x, int) else x for x in (a, b))
            if op == "and":
                return And(a, b)
            if op == "or":
                return Or(a, b)
            if op in ("xor", "add", "sub"):
                if isinstance(a, bool):
                    a, b = b, a
                if isinstance(b, bool):
                    return Not(a) if b else a
                return simp(z3.Xor(a, b))
            raise Unsupported("i1 " + op)
        a, b = self.b2i(a), self.b2i(b)
        con = isinstance(a, int) and isinstance(b, int)
        if op in ("add", "sub", "mul"):
            v = a + b if op == "add" else a - b if op == "sub" else a * b
            if con:
                return self.wrap(v, n, flags)
            v = simp(v)
            if isinstance(v, int):
                return self.wrap(v, n, flags)
            if "nsw" not in flags and "nuw" not in flags and self.exact_unsigned:
                M = 1 << n
                if not self.must(z3.And(v >= -(M >> 1), v < (M >> 1))):
                    return simp((v + (M >> 1)) % M - (M >> 1))
            if self.check_overflow and n <= 64 and "nsw" in flags:
                M = 1 << (n - 1)
                self.prove("arith/no-signed-overflow", z3.And(v >= -M, v < M), "signed overflow: %s" % str(v)[:200])
            return v
        if op in ("sdiv", "srem"):
            if con:
                if b == 0:
                    raise Thrown("division by zero")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == "sdiv" else a - q * b
            self.prove("arith/div-by-zero", eq(b, 0) if not isinstance(b, int) and False else Not(eq(b, 0)),
                       "integer division by zero")
            az, bz = zi(a), zi(b)
            if self.must(z3.And(az >= 0, bz > 0)):
                return az / bz if op == "sdiv" else az % bz
            ab = z3.If(bz < 0, -bz, bz)
            aa = z3.If(az < 0, -az, az)
            q = z3.If((az < 0) != (bz < 0), -(aa / ab), aa / ab)
            return q if op == "sdiv" else az - q * bz
        if op in ("udiv", "urem"):
            ua, ub = self.as_unsigned(a, n), self.as_unsigned(b, n)
            if isinstance(ua, int) and isinstance(ub, int):
                if ub == 0:
                    raise Thrown("division by zero")
                return self.wrap(ua // ub if op == "udiv" else ua % ub, n, ())
            self.prove("arith/div-by-zero", Not(eq(ub, 0)), "integer division by zero")
            return zi(ua) / zi(ub) if op == "udiv" else zi(ua) % zi(ub)
        if op == "shl" and isinstance(b, int):
            if isinstance(a, int):
                return self.wrap(a << b, n, ())
            return simp(a * (1 << b))
        if op == "ashr" and isinstance(b, int):
            return a >> b if isinstance(a, int) else zi(a) / (1 << b)
        if op == "lshr" and isinstance(b, int):
            ua = self.as_unsigned(a, n)
            return self.wrap(ua >> b, n, ()) if isinstance(ua, int) else zi(ua) / (1 << b)
        if op in ("and", "or", "xor") and con:
            v = a & b if op == "and" else a | b if op == "or" else a ^ b
            return self.wrap(v, n, ())
        if op == "and" and isinstance(b, int) and b > 0 and (b & (b + 1)) == 0:
            return simp(zi(a) % (b + 1))
        if op == "and" and isinstance(a, int) and a > 0 and (a & (a + 1)) == 0:
            return simp(zi(b) % (a + 1))
        if op == "xor" and isinstance(b, int) and b == -1:
            return simp(-zi(a) - 1)
        if op == "xor" and isinstance(b, int) and b == 1 and self.must(z3.And(zi(a) >= 0, zi(a) <= 1)):
            return simp(1 - zi(a))
        if op in ("and", "or", "xor") and self.must(z3.And(zi(a) >= 0, zi(a) <= 1, zi(b) >= 0, zi(b) <= 1)):
            x, y = zi(a) == 1, zi(b) == 1
            v = z3.And(x, y) if op == "and" else z3.Or(x, y) if op == "or" else z3.Xor(x, y)
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if op in ("and", "or", "xor", "shl", "lshr", "ashr"):
            return self.bvop(op, a, b, n)
        raise Unsupported("binop %s" % op)

    def bvop(self, op, a, b, n):
        A, B = z3.Int2BV(zi(a), n), z3.Int2BV(zi(b), n)
        v = {"and": lambda: A & B, "or": lambda: A | B, "xor": lambda: A ^ B, "shl": lambda: A << B,
             "lshr": lambda: z3.LShR(A, B), "ashr": lambda: A >> B}[op]()
        return z3.BV2Int(v, True)

    def packed_op(self, op, a, b, n):
        if op == "or":
            if not isinstance(a, Packed):
                a, b = b, a
            if isinstance(b, Packed):
                if [(o, s) for o, s, _ in a.parts] == [(o, s) for o, s, _ in b.parts]:
                    ps = []
                    for (o, s, x), (_, _, y) in zip(a.parts, b.parts):
                        if isinstance(y, int) and y == 0:
                            ps.append((o, s, x))
                        elif isinstance(x, int) and x == 0:
                            ps.append((o, s, y))
                        else:
                            return None
                    return Packed(ps, a.size)
                return None
            o0, s0, v0 = a.parts[0]
            if o0 == 0 and s0 == 4 and isinstance(v0, int) and v0 == 0:
                if isinstance(b, int) and 0 <= b < 1 << 32:
                    return Packed([(0, 4, self.wrap(b, 32, ()))] + a.parts[1:], a.size)
                if is_sym(b):
                    src = self.zext_src.get(b.get_id())
                    if src is not None and src[1] == 32:
                        return Packed([(0, 4, src[2])] + a.parts[1:], a.size)
            return None
        if op in ("lshr",) and isinstance(b, int) and b % 8 == 0 and isinstance(a, Packed):
            k = b // 8
            parts = [(o - k, s, x) for o, s, x in a.parts if o >= k]
            if len(parts) == 1 and parts[0][0] == 0:
                return self.as_unsigned(parts[0][2], parts[0][1] * 8) if not isinstance(parts[0][2], (Opaque, Ptr)) else parts[0][2]
            return Packed(parts, a.size)
        return None

    def unpack(self, a):
        if not isinstance(a, Packed):
            return a
        v = 0
        for o, s, x in a.parts:
            if not (isinstance(x, int) or (is_sym(x) and x.is_int())):
                raise Unsupported("arithmetic on packed value")
            v = v + self.as_unsigned(x, 8 * s) * (1 << (8 * o))
        return self.wrap(v, 8 * a.size, ()) if isinstance(v, int) else v

    check_overflow = False

    # floats
    def fbin(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("fbin")
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            if op == "fdiv":
                if b == 0:
                    return self.fresh("div0", "real")
                # constants are folded as doubles would be read back: keep the exact quotient
                return a / b
        if self.fpmul == "mono" and op in ("fmul", "fdiv"):
            from . import mono
            return mono.fmuldiv(self, op, a, b)
        if op in ("fmul", "fdiv") and self.fp_hook is not None:
            r = self.fp_hook(self, op, a, b)
            if r is not None:
                return r
        x, y = zr(a), zr(b)
        if op == "fadd":
            return simp(x + y)
        if op == "fsub":
            return simp(x - y)
        if op == "fmul":
            return simp(x * y)
        if op == "fdiv":
            return simp(x / y)
        raise Unsupported(op)

    fp_hook = None

    def fneg(self, a):
        if isinstance(a, Opaque):
            return a
        if isinstance(a, Fraction):
            return -a
        if self.fpmul == "mono":
            from . import mono
            return mono.fmuldiv(self, "fmul", Fraction(-1), a)
        return simp(-zr(a))

    def fcmp(self, pred, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("fcmp")
        if pred in ("ord",):
            return True
        if pred in ("uno",):
            return False
        p = pred[1:]
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
        x, y = zr(a), zr(b)
        return simp({"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y, "le": lambda: x <= y,
                     "gt": lambda: x > y, "ge": lambda: x >= y}[p]())

    def icmp(self, pred, a, b, ty):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return same if pred == "eq" else not same
        if ty.kind == "ptr":
            return self.pcmp(pred, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("icmp")
        if ty.n == 1 and pred in ("eq", "ne"):
            r = eq(bool(a) if isinstance(a, int) else a, bool(b) if isinstance(b, int) else b)
            return simp(r if pred == "eq" else Not(r))
        if isinstance(a, Packed) or isinstance(b, Packed):
            return self.packed_cmp(pred, a, b)
        a, b = self.b2i(a), self.b2i(b)
        if pred in ("eq", "ne"):
            r = eq(a, b)
            return simp(r if pred == "eq" else Not(r))
        if pred[0] == "u":
            # unsigned comparisons with 0 and 1 that say "is (not) zero"
            if b == 0 and isinstance(b, int) and pred in ("ugt", "ule") or b == 1 and isinstance(b, int) and pred in ("uge", "ult"):
                r = eq(a, 0)
                return simp(Not(r) if pred in ("ugt", "uge") else r)
            if a == 0 and isinstance(a, int) and pred in ("ult", "uge") or a == 1 and isinstance(a, int) and pred in ("ule", "ugt"):
                r = eq(b, 0)
                return simp(Not(r) if pred in ("ult", "ule") else r)
            a, b = self.as_unsigned(a, ty.n), self.as_unsigned(b, ty.n)
        p = pred[1:]
        if isinstance(a, int) and isinstance(b, int):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
        x, y = zi(a), zi(b)
        return simp({"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y}[p]())

    def packed_cmp(self, pred, a, b):
        if pred in ("eq", "ne") and isinstance(a, Packed) and isinstance(b, Packed) and \
                [(o, s) for o, s, _ in a.parts] == [(o, s) for o, s, _ in b.parts]:
            r = And(*[eq(x[2], y[2]) for x, y in zip(a.parts, b.parts)])
            return simp(r if pred == "eq" else Not(r))
        raise Unsupported("packed compare")

    def pcmp(self, pred, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.fresh("ptrcmp", "bool")
        if a.region is not b.region:
            if pred == "eq":
                return False
            if pred == "ne":
                return True
            if a.region is None or b.region is None:
                # comparing with null by order
                r = {"ult": a.region is None, "ule": a.region is None, "ugt": b.region is None, "uge": b.region is None}
                return r[pred]
            x, y = self.addr(a), self.addr(b)
            return {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred]
        d1, d2 = a.off, b.off
        s1, s2 = set(a.terms), set(b.terms)
        for s, t in a.terms:
            d1 = d1 + s * t
        for s, t in b.terms:
            d2 = d2 + s * t
        if pred in ("eq", "ne"):
            g = math.gcd(a.off - b.off, *(s for s, _ in (*a.terms, *b.terms)))
            if g > 1 and isinstance(a.off, int):
                # a common element size does not matter for equality
                d1, d2 = (a.off - b.off) // g, 0
                for s, t in a.terms:
                    d1 = d1 + s // g * zi(t)
                for s, t in b.terms:
                    d1 = d1 - s // g * zi(t)
                d1 = simp(d1)
            r = eq(d1, d2)
            return simp(r if pred == "eq" else Not(r))
        if isinstance(d1, int) and isinstance(d2, int):
            return {"ult": d1 < d2, "ule": d1 <= d2, "ugt": d1 > d2, "uge": d1 >= d2}[pred]
        x, y = zi(d1), zi(d2)
        return simp({"ult": lambda: x < y, "ule": lambda: x <= y, "ugt": lambda: x > y, "uge": lambda: x >= y}[pred]())

    def addr(self, p):
        """symbolic machine address; objects of known size do not overlap"""
        r = p.region
        if r.name not in self.addrs or self.addrs[r.name][0] is not r:
            base = self.fresh("addr_" + r.name)
            self.assume(base > 0)
            n = r.size or getattr(r, "nbytes", None)
            for r2, b2, n2 in self.addrs.values():
                if isinstance(n, int) and isinstance(n2, int):
                    self.assume(z3.Or(base + n <= b2, b2 + n2 <= base))
                else:
                    self.assume(base != b2)
            self.addrs[r.name] = (r, base, n)
        v = self.addrs[r.name][1] + p.off
        for s, t in p.terms:
            v = v + s * t
        return v

    def cast(self, op, v, fty, ty):
        if isinstance(v, Opaque):
            return v
        if op in ("bitcast", "ptrtoint", "inttoptr"):
            return v
        if op == "zext":
            if fty.n == 1:
                return self.b2i(v)
            if isinstance(v, Packed):
                return v
            r = self.as_unsigned(v, fty.n)
            if is_sym(r) and fty.n == 32:
                self.keep.append(r)
                self.zext_src[r.get_id()] = (r, 32, v)
            return r
        if op == "sext":
            if fty.n == 1:
                if isinstance(v, bool):
                    return -1 if v else 0
                return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op == "trunc":
            if isinstance(v, Packed):
                n = ty.n // 8
                parts = [(o, s, x) for o, s, x in v.parts if o + s <= n]
                if len(parts) == 1 and parts[0][1] == n:
                    return parts[0][2]
                return Packed(parts, n)
            if ty.n == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                s = simp(v == 1)
                return s
            if isinstance(v, int):
                return self.wrap(v, ty.n, ())
            M = 1 << ty.n
            if self.ideal_trunc or self.must(z3.And(v >= -(M >> 1), v < (M >> 1))):
                return v
            return simp((v + (M >> 1)) % M - (M >> 1))
        if op in ("sitofp", "uitofp"):
            if fty.n == 1:
                v = self.b2i(v)
            if op == "uitofp":
                v = self.as_unsigned(v, fty.n)
            if isinstance(v, int):
                return Fraction(v)
            return simp(z3.ToReal(v))
        if op in ("fptosi", "fptoui"):
            if isinstance(v, Fraction):
                q = abs(v.numerator) // v.denominator
                return q if v >= 0 else -q
            x = zr(v)
            # truncation toward zero
            if self.must(x >= 0):
                return simp(z3.ToInt(x))
            s = simp(x)
            if is_sym(s) and s.decl().kind() == z3.Z3_OP_TO_REAL:
                return s.children()[0]
            return simp(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
        if op in ("fpext", "fptrunc"):
            return v
        raise Unsupported("cast " + op)

    ideal_trunc = False

    def intrinsic(self, name, ins, a):
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.stackrestore",
                            "llvm.donothing", "llvm.prefetch", "llvm.invariant")):
            return None
        if name.startswith("llvm.assume"):
            return None
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            self.memcpy(a[0], a[1], a[2])
            return None
        if name.startswith("llvm.memset"):
            return self.memset(a[0], a[1], a[2])
        if name.startswith("llvm.fmuladd") or name.startswith("llvm.fma."):
            return self.fbin("fadd", self.fbin("fmul", a[0], a[1]), a[2])
        if name.startswith("llvm.fabs"):
            return self.fabs(a[0])
        if name.startswith("llvm.abs"):
            v = a[0]
            return abs(v) if isinstance(v, int) else simp(z3.If(v < 0, -v, v))
        if name.startswith("llvm.floor"):
            return LIB["floor"](self, a, name)
        if name.startswith("llvm.expect"):
            return a[0]
        if name.startswith("llvm.umul.with.overflow"):
            n = int(name.split(".i")[-1])
            v = simp(zi(a[0]) * zi(a[1])) if is_sym(a[0]) or is_sym(a[1]) else a[0] * a[1]
            self.prove("no-overflow in the size of an allocation", And(zi(v) >= 0, zi(v) < 1 << n))
            return [v, False]
        if name.startswith(("llvm.smax", "llvm.smin")):
            x, y = a
            if isinstance(x, int) and isinstance(y, int):
                return max(x, y) if "smax" in name else min(x, y)
            c = zi(x) > zi(y)
            return z3.If(c, zi(x), zi(y)) if "smax" in name else z3.If(c, zi(y), zi(x))
        if name.startswith("llvm.trap"):
            raise Thrown("trap", True)
        if name.startswith("llvm.eh.typeid"):
            return Opaque("typeid")
        if name.startswith("llvm.stacksave"):
            return Opaque("stack")
        if name.startswith("llvm.is.constant"):
            return False
        if name.startswith("llvm.sqrt"):
            return LIB["sqrt"](self, a, name)
        raise Unsupported("intrinsic " + name)

    def memset(self, d, v, n):
        if not isinstance(n, int):
            return self.memset_sym(d, v, n)
        if v != 0:
            raise Unsupported("memset nonzero")
        k = self.norm(d, n)
        r = d.region
        if n <= 4096:
            # fine-grained zero cells; wider reads assemble (all zero)
            for (k2, sz, _) in self._overlaps(r.cells, k, n):
                r.cells.pop(k2)
            a = k[0]
            if a is not None or r.arrays:
                # zero an array region: install as init
                for arr in r.arrays:
                    if k[2] == 0 and n >= arr.stride:
                        pass
            zero = ZeroInit()
            if not r.cells and not r.init and (r.kind == "local"):
                r.initf = zero
                return
            for o in range(0, n, 4 if n % 4 == 0 else 1):
                self.store_key(r, (k[0], k[1], k[2] + o), 4 if n % 4 == 0 else 1, 0)
            return
        if r.kind == "local" and not r.cells and not r.init:
            r.initf = ZeroInit()
            return
        raise Unsupported("large memset")

    def memset_sym(self, d, v, n):
        raise Unsupported("memset of symbolic length")

    def fabs(self, v):
        if isinstance(v, Fraction):
            return abs(v)
        if isinstance(v, Opaque):
            return v
        if self.fpmul == "mono":
            from . import mono
            return mono.fabs(self, v)
        x = zr(v)
        return simp(z3.If(x < 0, -x, x))


class ZeroInit:
    def __call__(self, ctx, r, key, size, ty):
        if ty.kind == "ptr":
            return NULL
        if ty.kind in ("double", "float"):
            return Fraction(0)
        return 0


# --------------------------------------------------------------- library
def _floor(ctx, a, dem):
    v = a[0]
    if isinstance(v, Fraction):
        return Fraction(v.numerator // v.denominator)
    return z3.ToReal(z3.ToInt(zr(v)))


def _ceil(ctx, a, dem):
    v = a[0]
    if isinstance(v, Fraction):
        return Fraction(-((-v.numerator) // v.denominator))
    return -z3.ToReal(z3.ToInt(-zr(v)))


def _sqrt(ctx, a, dem):
    v = a[0]
    if isinstance(v, Fraction):
        import math
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return Fraction(n, d)
    if isinstance(v, Opaque):
        return v
    x = zr(v)
    s = ctx.uf("sqrt", "real", "real")(x)
    if ("sqrt", x.get_id()) not in ctx.uf_seen:
        ctx.uf_seen.add(("sqrt", x.get_id()))
        ctx.keep.append(x)
        ctx.assume(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
    return s


def _abs(ctx, a, dem):
    v = a[0]
    return abs(v) if isinstance(v, int) else simp(z3.If(v < 0, -v, v))


def _fabs(ctx, a, dem):
    return ctx.fabs(a[0])


def _uf1(name):
    def h(ctx, a, dem):
        return ctx.uf(name, "real", "real")(zr(a[0]))
    return h


def _pow(ctx, a, dem):
    x, y = a
    if isinstance(x, Fraction) and isinstance(y, Fraction) and y.denominator == 1:
        return x ** int(y)
    if isinstance(y, Fraction) and y in (2, 3):
        r = zr(x)
        return simp(r * r if y == 2 else r * r * r)
    return ctx.uf("pow", "real", "real", "real")(zr(x), zr(y))


def _new(ctx, a, dem):
    r = ctx.alloc("heap", kind="heap")
    if is_sym(a[0]) and ctx.auto_loops:
        # a dynamic array of Complex (the only dynamically sized type of the verified code)
        arr = Array(0, 16, None, "new")
        q = simp(a[0])
        n = simp(z3.simplify(q / 16, som=True)) if is_sym(q) else q // 16
        ctx.prove("allocation-size-is-a-whole-number-of-elements", eq(zi(n) * 16, q))
        arr.limit = zi(n)
        r.arrays.append(arr)
        r.slots[arr] = []
    r.nbytes = a[0]
    return Ptr(r)


def _delete(ctx, a, dem):
    p = a[0]
    if isinstance(p, Ptr) and p.region is not None:
        p.region.dead = True
    return None


def _uf(self, name, *sorts):
    S = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}
    key = (name,) + sorts
    if key not in self.ufs:
        self.ufs[key] = z3.Function(name, *[S[s] for s in sorts])
    return self.ufs[key]


Ctx.uf = _uf
_old_init = Ctx.__init__


def _init(self, *a, **k):
    self.ufs = {}
    self.uf_seen = set()
    self.keep = []
    _old_init(self, *a, **k)


Ctx.__init__ = _init

LIB = {
    "floor": _floor, "ceil": _ceil, "sqrt": _sqrt, "abs": _abs, "fabs": _fabs,
    "cos": _uf1("cos"), "sin": _uf1("sin"), "exp": _uf1("exp"), "log": _uf1("log"), "pow": _pow,
    "atan2": lambda ctx, a, d: ctx.uf("atan2", "real", "real", "real")(zr(a[0]), zr(a[1])),
    "operator new(unsigned long)": _new, "operator new[](unsigned long)": _new,
    "operator delete(void*)": _delete, "operator delete[](void*)": _delete,
    "operator delete(void*, unsigned long)": _delete, "operator delete[](void*, unsigned long)": _delete,
    "memcpy": lambda ctx, a, d: (ctx.memcpy(a[0], a[1], a[2]), a[0])[1],
    "memset": lambda ctx, a, d: (ctx.memset(a[0], a[1], a[2]), a[0])[1],
}


# --------------------------------------------------------------- explorer
class Result:
    def __init__(self, task):
        self.task = task
        self.paths = 0
        self.infeasible = 0
        self.obligations = 0
        self.discharged = 0
        self.failed = []
        self.unsupported = []
        self.queries = 0
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.inlined = set()
        self.contracts = set()
        self.library = set()
        self.covers = {}
        self.by_name = {}
        self.complete = True
        self.outcomes = {}
        self.globals = set()

    def to_dict(self):
        return self.__dict__


def explore(prog, name, task, contracts=None, max_paths=20000, max_s=600, max_fail=12, **kw):
    """run ``task`` over every path; returns Result"""
    res = Result(name)
    t0 = time.time()
    prefix = []
    while True:
        ctx = Ctx(prog, name, prefix, contracts, **{k: v for k, v in kw.items() if k in ("timeout", "fpmul")})
        for k, v in kw.items():
            if k not in ("timeout", "fpmul"):
                setattr(ctx, k, v)
        outcome = "ok"
        try:
            task(ctx)
            res.paths += 1
        except Infeasible:
            res.infeasible += 1
            outcome = "infeasible"
        except PathEnd:
            res.paths += 1
        except Thrown as e:
            # a task is expected to catch the throws it allows
            res.paths += 1
            ctx.prove("no-abnormal-termination", False, "abnormal termination: %s" % e.what)
        except Unsupported as e:
            try:
                feas = ctx.feasible()
            except z3.Z3Exception:
                feas = True
            if feas:
                res.unsupported.append(str(e))
            else:
                res.infeasible += 1
        except z3.Z3Exception as e:
            res.unsupported.append("z3: %s" % e)
        except (KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError) as e:
            import traceback
            res.unsupported.append("internal: %s" % traceback.format_exc()[-600:])
        if outcome != "infeasible":
            res.obligations += len(ctx.obligations)
            for o in ctx.obligations:
                d = res.by_name.setdefault(o.name, [0, 0])
                d[0] += 1
                if o.status == "ok":
                    res.discharged += 1
                    d[1] += 1
                else:
                    res.failed.append(o)
            for k, v in ctx.covers.items():
                res.covers[k] = res.covers.get(k, 0) + v
        res.queries += ctx.queries
        res.solver_s += ctx.solver_s
        res.inlined |= ctx.inlined
        res.contracts |= ctx.contract_used
        res.library |= ctx.unverified_calls
        # next path
        dec = ctx.decisions
        while dec and dec[-1][1] == 0:
            dec.pop()
        if not dec:
            break
        if len(res.unsupported) > 5 or len(res.failed) >= max_fail:
            res.complete = False
            break
        if res.paths + res.infeasible > max_paths or time.time() - t0 > max_s:
            res.complete = False
            res.unsupported.append("path/time budget exhausted (%d paths, %.0f s)" % (res.paths, time.time() - t0))
            break
        last = dec[-1]
        prefix = dec[:-1] + [(last[0] + 1, last[1] - 1) + tuple(last[2:])]
    res.wall_s = time.time() - t0
    return res
