// C11: lattice coordinates and indices are in bijection and translation invariant
#include "vc.h"
#include "lattice/lattice.h"
static const int LM = 10000;
static Vec<int> V(int x, int y) { Vec<int> v(0); v[0] = x; v[1] = y; return v; }
struct Box { int x, y, s; };
static Box box() { Box b; b.x = vc_int("Lx", 1, LM); b.y = vc_int("Ly", 1, LM); b.s = vc_int("sublat", 1, 16); return b; }
static int small(int v) { return v; }
// one component inside [0,L)
static int in(const char* n, int L) { int x = vc_int(n, 0, L - 1); return x; }
static int md(int d, int L) { return d < 0 ? d + L : d; }
VC_TASK(init) { Box b = box(); Lattice l(V(b.x, b.y), b.s);
    vc_assert("volume", l.Vol == b.x * b.y); vc_assert("sublat", l.SublatVol == b.s); vc_assert("dimension", l.Dimension == 2); vc_assert("size", (l.Size[0] == b.x) & (l.Size[1] == b.y)); }
VC_TASK(vec_index_vec) { Box b = box(); Lattice l(V(b.x, b.y), b.s); int x = in("x", b.x), y = in("y", b.y);
    int i = l.Vec2Index(V(x, y)); vc_assert("index-nonnegative", i >= 0); vc_assert("index-below-volume", i < b.x * b.y);
    Vec<int> w = l.Index2Vec(i); vc_assert("round-trip", (w[0] == x) & (w[1] == y)); }
VC_TASK(index_injective) { Box b = box(); Lattice l(V(b.x, b.y), b.s); int x = in("x", b.x), y = in("y", b.y), u = in("u", b.x), v = in("v", b.y);
    int i = l.Vec2Index(V(x, y)), j = l.Vec2Index(V(u, v)); vc_assert("distinct-vectors-distinct-indices", (i == j) == ((x == u) & (y == v))); }
VC_TASK(index_vec_index) { Box b = box(); Lattice l(V(b.x, b.y), b.s); int i = vc_int("i", 0, b.x * b.y - 1);
    Vec<int> w = l.Index2Vec(i); vc_assert("y-in-box", (w[1] >= 0) & (w[1] < b.y)); vc_assert("x-nonnegative", w[0] >= 0); vc_assert("x-in-box", w[0] < b.x);
    vc_assert("round-trip", l.Vec2Index(w) == i); }
VC_TASK(index_list) { Box b = box(); Lattice l(V(b.x, b.y), b.s); int x = in("x", b.x), y = in("y", b.y); vc_assert("list-form", l.Vec2Index({x, y}) == l.Vec2Index(V(x, y))); }
VC_TASK(shift) { Box b = box(); Lattice l(V(b.x, b.y), b.s); int x = vc_int("x", -b.x, 2 * b.x - 1), y = vc_int("y", -b.y, 2 * b.y - 1); Vec<int> v = V(x, y); l.Shift(v);
    vc_assert("in-box", (v[0] >= 0) & (v[0] < b.x) & (v[1] >= 0) & (v[1] < b.y));
    int d = v[0] - x, e = v[1] - y;
    vc_assert("congruent", ((d == 0) | (d == b.x) | (d == -b.x)) & ((e == 0) | (e == b.y) | (e == -b.y))); }
VC_TASK(displacement) { Box b = box(); Lattice l(V(b.x, b.y), b.s);
    int x = in("x", b.x), y = in("y", b.y), u = in("u", b.x), v = in("v", b.y);
    Site p(vc_int("sp", 0, b.s - 1), V(x, y)), q(vc_int("sq", 0, b.s - 1), V(u, v));
    int i = l.CoordiIndex(p, q); int dx = md(u - x, b.x), dy = md(v - y, b.y);
    vc_assert("index-of-displacement", i == dx * b.y + dy);
    vc_assert("in-range", (i >= 0) & (i < b.x * b.y));
    vc_assert("zero-iff-equal", (i == 0) == ((x == u) & (y == v)));
    vc_assert("sites-unchanged", (p.Coordinate[0] == x) & (p.Coordinate[1] == y) & (q.Coordinate[0] == u) & (q.Coordinate[1] == v)); }
VC_TASK(translation) { Box b = box(); Lattice l(V(b.x, b.y), b.s);
    int x = in("x", b.x), y = in("y", b.y), u = in("u", b.x), v = in("v", b.y), tx = in("tx", b.x), ty = in("ty", b.y);
    int x2 = x + tx, y2 = y + ty, u2 = u + tx, v2 = v + ty;
    if (x2 >= b.x) x2 -= b.x; if (y2 >= b.y) y2 -= b.y; if (u2 >= b.x) u2 -= b.x; if (v2 >= b.y) v2 -= b.y;
    Site p(0, V(x, y)), q(0, V(u, v)), p2(0, V(x2, y2)), q2(0, V(u2, v2));
    vc_assert("translation-invariant", l.CoordiIndex(p, q) == l.CoordiIndex(p2, q2)); }
VC_TASK(site_eq) { int x = vc_int("x", -LM, LM), y = vc_int("y", -LM, LM), u = vc_int("u", -LM, LM), v = vc_int("v", -LM, LM), s = vc_int("s", 0, 16), t = vc_int("t", 0, 16);
    Site p(s, V(x, y)), q(t, V(u, v)); int same = (s == t) & (x == u) & (y == v);
    vc_assert("equality", (p == q) == (bool)same); vc_assert("inequality", (p != q) == !same); vc_assert("vector-equality", (p.Coordinate == q.Coordinate) == (bool)((x == u) & (y == v))); vc_assert("vector-inequality", (p.Coordinate != q.Coordinate) != (bool)((x == u) & (y == v))); }
VC_TASK(vec_ops) { int x = vc_int("x", -LM, LM), y = vc_int("y", -LM, LM), u = vc_int("u", -LM, LM), v = vc_int("v", -LM, LM), k = vc_int("k", -LM, LM);
    Vec<int> a = V(x, y), b = V(u, v), c = a + b, d = a - b, e = a * k; vc_assert("sum", (c[0] == x + u) & (c[1] == y + v)); vc_assert("difference", (d[0] == x - u) & (d[1] == y - v)); vc_assert("multiple", (e[0] == x * k) & (e[1] == y * k));
    vc_assert("operands-unchanged", (a[0] == x) & (a[1] == y) & (b[0] == u) & (b[1] == v));
    a += b; vc_assert("compound-sum", (a[0] == x + u) & (a[1] == y + v)); b -= a; vc_assert("compound-difference", (b[0] == -x) & (b[1] == -y));
    Vec<int> z(k); vc_assert("fill", (z[0] == k) & (z[1] == k)); vc_assert("size", (z.size() == 2) & (z.end() - z.begin() == 2)); }
