"""Monomial algebra: products and quotients of real and complex *atoms* in canonical form.

A product  coef * a1^e1 * ... * an^en  is represented by one z3 constant per canonical exponent
vector (times the rational coefficient), so that two products are equal for the solver exactly when
their canonical forms are; nonlinear arithmetic never reaches the solver.  Complex products are pairs
(re, im) of such constants.  Division is only by atoms known to be nonzero.
"""
from fractions import Fraction

import z3

from .ir import Unsupported


def _x():
    from . import exec as X
    return X


class State:
    def __init__(self):
        self.ratoms = {}      # key -> (z3 expr, sign)   sign: '+' positive, 'n' nonzero, '?' unknown
        self.rv = {}          # exps -> z3 constant
        self.of = {}          # z3 id -> (coef, exps)
        self.cv = {}          # (coef, rexps, cexps) -> (re, im)
        self.cof = {}         # (id re, id im) -> (coef, rexps, cexps)
        self.catoms = {}      # key -> mod atom key
        self.keep = []
        self.urns = {}        # z3 id -> sym


def st(ctx):
    s = getattr(ctx, "_mono", None)
    if s is None:
        s = ctx._mono = State()
    return s


# ------------------------------------------------------------------ real
def atom(ctx, key, expr=None, sign="+"):
    """register a real atom; returns its z3 expression"""
    s = st(ctx)
    if key in s.ratoms:
        return s.ratoms[key][0]
    if expr is None:
        expr = z3.Real("at:%s" % (key,))
        if sign == "+":
            ctx.assume(expr > 0)
        elif sign == "n":
            ctx.assume(expr != 0)
    s.ratoms[key] = (expr, sign)
    ex = ((key, 1),)
    s.rv[ex] = expr
    s.of[expr.get_id()] = (Fraction(1), ex)
    s.keep.append(expr)
    return expr


def const(ctx, coef, ex):
    """(coef, exponents) -> value"""
    s = st(ctx)
    if coef == 0 or not ex:
        return Fraction(coef)
    m = s.rv.get(ex)
    if m is None:
        m = z3.Real("mono!%d" % len(s.rv))
        s.rv[ex] = m
        s.of[m.get_id()] = (Fraction(1), ex)
        s.keep.append(m)
        if all(s.ratoms[k][1] == "+" for k, _ in ex):
            ctx.assume(m > 0)
        us = [k for k, e in ex if k in s.urns]
        if len(ex) == 2 and len(us) == 1 and all(e == 1 for _, e in ex):
            o = [k for k, _ in ex if k != us[0]][0]
            if s.ratoms[o][1] == "+":     # u * B with u in [0,1)
                ctx.assume(z3.And(m >= 0, m < s.ratoms[o][0]))
    if coef == 1:
        return m
    v = z3.RealVal(str(coef)) * m
    s.of[v.get_id()] = (Fraction(coef), ex)
    s.keep.append(v)
    return v


def urn(ctx, u):
    """register a uniform draw u in [0,1)"""
    s = st(ctx)
    key = "u%d" % u.get_id()
    s.urns[key] = u
    atom(ctx, key, u, "?")
    return u


def of(ctx, v):
    """value -> (coef, exponents)"""
    s = st(ctx)
    if isinstance(v, Fraction):
        return v, ()
    if isinstance(v, int):
        return Fraction(v), ()
    r = s.of.get(v.get_id())
    if r is not None:
        return r
    X = _x()
    w = X.simp(v)
    if isinstance(w, (Fraction, int)):
        return Fraction(w), ()
    r = s.of.get(w.get_id())
    if r is None:
        r = _parse(ctx, w)
    s.of[v.get_id()] = r
    s.keep.append(v)
    s.keep.append(w)
    return r


def _parse(ctx, e):
    X = _x()
    s = st(ctx)
    c = X.const_of(e)
    if c is not None:
        return Fraction(c), ()
    if z3.is_mul(e):
        co, ex = Fraction(1), {}
        for ch in e.children():
            c2, e2 = of(ctx, ch)
            co *= c2
            for k, n in e2:
                ex[k] = ex.get(k, 0) + n
        return co, norm(ex)
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL) and z3.is_mul(e.arg(0)):
        co, ex = Fraction(1), {}
        for ch in e.arg(0).children():
            c2, e2 = of(ctx, z3.ToReal(ch) if X.const_of(ch) is None else Fraction(X.const_of(ch)))
            co *= c2
            for k, n in e2:
                ex[k] = ex.get(k, 0) + n
        return co, norm(ex)
    i = e.arg(0) if z3.is_app_of(e, z3.Z3_OP_TO_REAL) else e
    if z3.is_app_of(i, z3.Z3_OP_ITE) and X.const_of(i.arg(1)) is not None and X.const_of(i.arg(2)) is not None:
        return Fraction(X.const_of(i.arg(1 if ctx.branch(i.arg(0)) else 2))), ()      # one of two numbers, such as a sign
    # an opaque atom: merge with an existing one if the solver knows they are equal
    for k, (x, sg) in s.ratoms.items():
        if isinstance(k, tuple) and k[0] == "e" and ctx.must(x == e):
            return Fraction(1), ((k, 1),)
    sign = "+" if ctx.must(e > 0) else "n" if ctx.must(e != 0) else "?"
    key = ("e", len(s.ratoms))
    atom(ctx, key, e, sign)
    return Fraction(1), ((key, 1),)


def _k(k):
    return str(k)


def norm(d):
    return tuple(sorted(((k, n) for k, n in d.items() if n != 0), key=lambda t: _k(t[0])))


def mul(ex1, ex2, sgn=1):
    d = dict(ex1)
    for k, n in ex2:
        d[k] = d.get(k, 0) + sgn * n
    return norm(d)


def nonzero(ctx, ex):
    s = st(ctx)
    return all(s.ratoms[k][1] in "+n" or ctx.must(s.ratoms[k][0] != 0) for k, _ in ex)


def fmuldiv(ctx, op, a, b):
    X = _x()
    if isinstance(a, X.Opaque) or isinstance(b, X.Opaque):
        return X.Opaque("fp")
    ca, ea = of(ctx, a)
    cb, eb = of(ctx, b)
    if op == "fmul":
        return const(ctx, ca * cb, mul(ea, eb))
    if cb == 0 or not nonzero(ctx, eb):
        return ctx.fresh("div", "real")
    return const(ctx, ca / cb, mul(ea, eb, -1))


def fabs(ctx, v):
    c, e = of(ctx, v)
    s = st(ctx)
    if all(s.ratoms[k][1] == "+" for k, _ in e):
        return const(ctx, abs(c), e)
    return v if ctx.branch(v >= 0) else fmuldiv(ctx, "fmul", Fraction(-1), v)


# --------------------------------------------------------------- complex
def catom(ctx, key):
    """a nonzero complex atom; -> (coef, rexps, cexps)"""
    return (Fraction(1), (), ((key, 1),))


CZERO = (Fraction(0), (), ())


def cval(ctx, m):
    """canonical complex product -> (re, im)"""
    s = st(ctx)
    co, rx, cx = m
    if co == 0:
        return Fraction(0), Fraction(0)
    if not cx:
        return const(ctx, co, rx), Fraction(0)
    r = s.cv.get(m)
    if r is None:
        n = len(s.cv)
        r = (z3.Real("re!%d" % n), z3.Real("im!%d" % n))
        s.cv[m] = r
        s.cof[(r[0].get_id(), r[1].get_id())] = m
    return r


def cof(ctx, re, im):
    s = st(ctx)
    X = _x()
    if isinstance(re, X.Opaque) or isinstance(im, X.Opaque):
        return ("opaque",)
    if isinstance(im, Fraction) and im == 0:
        c, e = of(ctx, re)
        return (c, e, ()) if c != 0 else CZERO
    if X.is_sym(re) and X.is_sym(im):
        m = s.cof.get((re.get_id(), im.get_id()))
        if m is not None:
            return m
    # an arbitrary complex value: a fresh atom (not known to be nonzero)
    key = ("cx", str(re), str(im))
    s.catoms[key] = "?"
    m = (Fraction(1), (), ((key, 1),))
    s.cof[(re.get_id() if X.is_sym(re) else re, im.get_id() if X.is_sym(im) else im)] = m
    s.cv[m] = (re, im)
    s.keep += [re, im]
    return m


def isop(*ms):
    return any(m[0] == "opaque" for m in ms)


def cmul(ctx, a, b):
    if isop(a, b):
        return ("opaque",)
    if a[0] == 0 or b[0] == 0:
        return CZERO
    return cnorm((a[0] * b[0], mul(a[1], b[1]), mul(a[2], b[2])))


def cinv(ctx, a):
    if isop(a):
        return a
    if a[0] == 0 or any(st(ctx).catoms.get(k) == "?" for k, _ in a[2]) or not nonzero(ctx, a[1]):
        return ("opaque",)
    return cnorm((1 / a[0], mul((), a[1], -1), mul((), a[2], -1)))


def cnorm(m):
    return m


def cmod(ctx, a):
    """|a| as a real product"""
    if isop(a):
        return ctx.fresh("mod", "real")
    if a[0] == 0:
        return Fraction(0)
    s = st(ctx)
    ex = {}
    for k, n in a[1]:
        if s.ratoms[k][1] != "+":
            raise Unsupported("modulus of a signed real factor")
        ex[k] = ex.get(k, 0) + n
    for k, n in a[2]:
        if isinstance(k, tuple) and k[0] == "ph":
            continue
        mk = ("abs", k)
        atom(ctx, mk, None, "+" if s.catoms.get(k) != "?" else "?")
        ex[mk] = ex.get(mk, 0) + n
    return const(ctx, abs(a[0]), norm(ex))


def cphase(ctx, a):
    if isop(a):
        return a
    if a[0] == 0:
        return ("opaque",)
    s = st(ctx)
    for k, _ in a[1]:
        if s.ratoms[k][1] != "+":
            raise Unsupported("phase of a signed real factor")
    ex = {}
    for k, n in a[2]:
        k2 = k if isinstance(k, tuple) and k[0] == "ph" else ("ph", k)
        ex[k2] = ex.get(k2, 0) + n
    return (Fraction(1 if a[0] > 0 else -1), (), norm(ex))
