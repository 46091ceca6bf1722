// C18: vertex-function tables are addressed consistently and in bounds
#include "weights.h"
#include <cstring>
typedef long long ll;
static int cx(const Complex& a, double re, double im) { return vc_eq(a.Re, re) & vc_eq(a.Im, im); }
static int idx(const char* n, ll hi) { int k = vc_int(n, 0, 2147483646); if (!vc_symbolic()) k = (int)(k % hi); vc_assume((ll)k < hi); return k; }
static Complex cval(const char* n) { return Complex(vc_real(n), vc_real(n)); }
static Q dom() { Q q = qdom(); if (vc_symbolic()) { vc_assume(q.n <= 30000); } return q; }
// bin of a time relative to the external point, and its sign
struct Bin { int b; int neg; Bin(double t, double u, Q q) { double w = t - u; neg = w < 0; if (neg) w += q.beta; double f = w * (q.n / q.beta); vc_fact("offset-inside-the-table", (f >= 0) & (f < q.n)); b = (int)f; vc_fact("bin-inside-the-table", (b >= 0) & (b < q.n)); } };
struct Pts { Site a, b, u; double ta, tb, tu; Pts(Q q) : a(site("rin", q)), b(site("rout", q)), u(site("ru", q)), ta(tim("tin", q)), tb(tim("tout", q)), tu(tim("tu", q)) { if (!vc_symbolic()) { int k = vc_int("same", 0, 5); if (k == 0) ta = tu; if (k == 1) tb = tu; if (k == 2) ta = tb; } } };
// ---------------------------------------------------------------- GammaG: [spin][displacement][tout bin][tin bin]
struct GBox18 : Box<GammaGClass> { ll n, v, tot; Lattice* l;
    GBox18(Q q, Lattice& lat) : n(q.n), v(lat.Vol), l(&lat) { vc_assume((v >= 1) & (v <= 1000000000)); tot = 2 * v * n * n; vc_assume(tot <= 2147483647LL); vc_fact("table-size", (v * n * n >= 1) & (n * n >= 1) & (2 * v * n * n <= 2147483647LL));
        new (&p->_Map) IndexMapSPIN2(q.beta, q.n, lat, TauAntiSymmetric); p->_Beta = q.beta; p->_MaxTauBin = q.n; p->_dBetaInverse = q.n / q.beta; p->_CacheIndex[0] = 1; p->_CacheIndex[1] = q.n; p->_CacheIndex[2] = q.n * q.n; p->_CacheIndex[3] = q.n * q.n * lat.Vol; p->_WeightSize = (unsigned)tot; p->_NormAccu = vc_real("norm"); p->_Norm = vc_real("factor");
        arr(p->_Weight, "weight", (unsigned)tot); arr(p->_WeightAccu, "accu", (unsigned)tot); p->_Weight.IsAllocated = p->_WeightAccu.IsAllocated = true; }
    ll at(spin s, const Site& a, const Site& u, int t1, int t2) { ll c = l->CoordiIndex(a, u); vc_fact("displacement-in-table", (c >= 0) & (c < v)); vc_fact("row-in-table", (c * n * n >= 0) & (c * n * n + n * n <= v * n * n)); vc_fact("entry-in-row", (t1 * n + t2 >= 0) & (t1 * n + t2 < n * n)); ll k = (ll)s * (v * n * n) + c * n * n + t1 * n + t2; vc_assert("element-inside-the-table", (k >= 0) & (k < tot)); return k; } };
struct Keep { double n, f; Complex *w, *a; template <class T> Keep(T& g) : n(g._NormAccu), f(g._Norm), w(g._Weight._Data), a(g._WeightAccu._Data) { vc_freeze(w, 0); } template <class T> void check(T& g) { vc_assert("normalisation-unchanged", vc_eq(g._NormAccu, n) & vc_eq(g._Norm, f)); vc_assert("storage-unchanged", (g._Weight._Data == w) & (g._WeightAccu._Data == a)); vc_frozen("table-unchanged", w); } };
VC_TASK(g_weight) { Q q = dom(); Lattice l(V(q.lx, q.ly), q.s); GBox18 g(q, l); Pts x(q); spin s = sp("sin"), r = sp("sout"); Bin o(x.tb, x.tu, q), i(x.ta, x.tu, q); ll k = g.at(s, x.a, x.u, o.b, i.b); Complex w = g->_Weight._Data[k]; double f = o.neg == i.neg ? 1 : -1; vc_freeze(g->_WeightAccu._Data, 0); Keep z(*g);
    Complex y = g->Weight(x.a, x.b, x.u, x.ta, x.tb, x.tu, s, r, UP); vc_assert("look-up-is-the-element-with-the-time-sign", cx(y, w.Re * f, w.Im * f)); z.check(*g); vc_frozen("statistics-unchanged", g->_WeightAccu._Data); }
VC_TASK(g_measure) { Q q = dom(); Lattice l(V(q.lx, q.ly), q.s); GBox18 g(q, l); Pts x(q); spin s = sp("sin"), r = sp("sout"); Bin o(x.tb, x.tu, q), i(x.ta, x.tu, q); ll k = g.at(s, x.a, x.u, o.b, i.b); Complex* d = g->_WeightAccu._Data; Complex old = d[k]; Complex w = cval("weight"); double f = o.neg == i.neg ? 1 : -1; Keep z(*g);
    g->Measure(x.a, x.b, x.u, x.ta, x.tb, x.tu, s, r, UP, w); vc_assert("measured-element-grows-by-the-weight-with-the-time-sign", cx(d[k], old.Re + f * w.Re, old.Im + f * w.Im)); z.check(*g); }
VC_TASK(g_measure_others) { Q q = dom(); Lattice l(V(q.lx, q.ly), q.s); GBox18 g(q, l); Pts x(q); spin s = sp("sin"), r = sp("sout"); Bin o(x.tb, x.tu, q), i(x.ta, x.tu, q); ll k = g.at(s, x.a, x.u, o.b, i.b); int j = idx("j", g.tot); vc_assume(j != k); Complex* d = g->_WeightAccu._Data; Complex old = d[j]; Complex w = cval("weight");
    g->Measure(x.a, x.b, x.u, x.ta, x.tb, x.tu, s, r, UP, w); vc_assert("other-elements-unchanged", ceq(d[j], old)); }
// ---------------------------------------------------------------- GammaW: [spin pair kind][site class][time class], classes from the configured symmetry tables
static void ivec(std::vector<int>& v, const char* name, unsigned n, int lo, int hi) { int** p = (int**)&v; p[0] = vc_iarray(name, n, lo, hi); p[1] = p[2] = p[0] + n; }
struct WBox18 : Box<GammaWClass> { ll n, v, rs, ts, tot; Lattice* l;
    WBox18(Q q, Lattice& lat) : n(q.n), v(lat.Vol), l(&lat) { vc_assume((v >= 1) & (v <= 40000)); rs = vc_int("RSize", 1, 1000000000); ts = vc_int("TauSize", 1, 1000000000); if (!vc_symbolic()) { rs = 1 + rs % (v * v); ts = 1 + ts % (n * n); } tot = 2 * rs * ts; vc_assume(tot <= 2147483647LL); vc_fact("table-size", (rs * ts >= 1) & (2 * rs * ts <= 2147483647LL)); vc_fact("symmetry-tables", (v * v >= 1) & (v * v <= 1600000000LL) & (n * n >= 1) & (n * n <= 900000000LL));
        new (&p->_Map) IndexMapSPIN4(q.beta, q.n, lat, TauSymmetric); p->_Beta = q.beta; p->_MaxTauBinTiny = q.n; p->_dBetaInverse = q.n / q.beta; p->_Vol = lat.Vol; p->_NormAccu = vc_real("norm"); p->_Norm = vc_real("factor"); p->_RSize = (unsigned)rs; p->_TauSize = (unsigned)ts; p->_WeightSize = (unsigned)tot;
        ivec(p->_RSqueeze, "RSqueeze", (unsigned)(v * v), 0, (int)rs - 1); ivec(p->_TauSqueeze, "TauSqueeze", (unsigned)(n * n), 0, (int)ts - 1); ivec(p->_TauFlag, "TauFlag", (unsigned)(n * n), 0, 1); ivec(p->_RSymFactor, "RSymFactor", (unsigned)(v * v), 1, 1000); ivec(p->_TauSymFactor, "TauSymFactor", (unsigned)(n * n), 1, 1000);
        arr(p->_Weight, "weight", (unsigned)tot); arr(p->_WeightAccu, "accu", (unsigned)tot); p->_Weight.IsAllocated = p->_WeightAccu.IsAllocated = true; } };
struct Where { ll k; int flag; double sym;
    Where(WBox18& g, Q q, Pts& x, int ch) { Bin o(x.tb, x.tu, q), i(x.ta, x.tu, q); ll c1 = g.l->CoordiIndex(x.b, x.u), c2 = g.l->CoordiIndex(x.a, x.u); vc_fact("displacement-in-table", (c1 >= 0) & (c1 < g.v) & (c2 >= 0) & (c2 < g.v)); ll c = c1 * g.v + c2, t = o.b * g.n + i.b; vc_fact("pair-of-displacements-in-table", (c >= 0) & (c < g.v * g.v)); vc_fact("pair-of-bins-in-table", (t >= 0) & (t < g.n * g.n));
        ll r = (*(int**)&g->_RSqueeze)[c], s = (*(int**)&g->_TauSqueeze)[t]; flag = (*(int**)&g->_TauFlag)[t]; sym = (double)(*(int**)&g->_RSymFactor)[c] * (double)(*(int**)&g->_TauSymFactor)[t]; vc_fact("entry-in-row", (r * g.ts + s >= 0) & (r * g.ts + s < g.rs * g.ts)); k = (ch >= 4 ? g.rs * g.ts : 0) + r * g.ts + s; vc_assert("element-inside-the-table", (k >= 0) & (k < g.tot)); } };
// the six spin-conserving channels (outgoing pair, incoming pair)
struct Chan { int c; spin in[2], out[2]; Chan() { c = vc_int("channel", 0, 5); spin z = (spin)((c == 0) | (c == 2) | (c == 4) ? UP : DOWN), y = z == UP ? DOWN : UP; out[0] = z; out[1] = c >= 4 ? y : z; in[0] = c <= 1 ? z : y; in[1] = c <= 1 ? z : c >= 4 ? z : y; } };
static Complex flipped(Complex w, int f) { return f ? Complex(-w.Re, w.Im) : w; }     // minus the conjugate
VC_TASK(w_weight) { Q q = dom(); Lattice l(V(q.lx, q.ly), q.s); WBox18 g(q, l); Pts x(q); Chan h; Where e(g, q, x, h.c); Complex w = flipped(g->_Weight._Data[e.k], e.flag); vc_freeze(g->_WeightAccu._Data, 0); Keep z(*g);
    Complex y = g->Weight(x.a, x.b, x.u, x.ta, x.tb, x.tu, h.in, h.out, UP);
    if (h.c <= 1 || h.c == 5) vc_assert("look-up-is-the-element", ceq(y, w)); else if (h.c <= 3) vc_assert("look-up-is-minus-the-element", cx(y, -w.Re, -w.Im)); else vc_assert("look-up-is-minus-the-conjugate-element", cx(y, -w.Re, w.Im));
    z.check(*g); vc_frozen("statistics-unchanged", g->_WeightAccu._Data); }
VC_TASK(w_measure) { Q q = dom(); Lattice l(V(q.lx, q.ly), q.s); WBox18 g(q, l); Pts x(q); Chan h; Where e(g, q, x, h.c); Complex* d = g->_WeightAccu._Data; Complex old = d[e.k]; Complex c = cval("weight"); Complex w = flipped(Complex(c.Re / e.sym, c.Im / e.sym), e.flag); Keep z(*g);
    g->Measure(x.a, x.b, x.u, x.ta, x.tb, x.tu, h.in, h.out, UP, c); double m = h.c <= 1 ? 1 : h.c <= 3 ? -1 : 0.5, n = h.c == 5 ? -1 : 1;
    vc_assert("measured-element-grows-by-the-symmetrised-weight", cx(d[e.k], old.Re + n * m * w.Re, old.Im + m * w.Im)); z.check(*g); }
VC_TASK(w_measure_others) { Q q = dom(); Lattice l(V(q.lx, q.ly), q.s); WBox18 g(q, l); Pts x(q); Chan h; Where e(g, q, x, h.c); int j = idx("j", g.tot); vc_assume(j != e.k); Complex* d = g->_WeightAccu._Data; Complex old = d[j]; Complex c = cval("weight");
    g->Measure(x.a, x.b, x.u, x.ta, x.tb, x.tu, h.in, h.out, UP, c); vc_assert("other-elements-unchanged", ceq(d[j], old)); }
// ---------------------------------------------------------------- normalisation, clearing, squeezing
#define BOTH(NAME) VC_TASK(NAME##_g) { Q q = dom(); Lattice l(V(q.lx, q.ly), q.s); GBox18 g(q, l); NAME(g); } VC_TASK(NAME##_w) { Q q = dom(); Lattice l(V(q.lx, q.ly), q.s); WBox18 g(q, l); NAME(g); }
template <class B> static void norm(B& g) { double w = vc_real("weight"), n = g->_NormAccu; vc_freeze(g->_Weight._Data, 0); vc_freeze(g->_WeightAccu._Data, 0); g->MeasureNorm(w); vc_assert("normalisation-grows-by-the-weight", vc_eq(g->_NormAccu, n + w)); vc_frozen("table-unchanged", g->_Weight._Data); vc_frozen("statistics-unchanged", g->_WeightAccu._Data); }
BOTH(norm)
template <class B> static void clear(B& g) { int j = idx("j", g.tot); Complex* d = g->_WeightAccu._Data; Complex *t = g->_Weight._Data; vc_freeze(t, 0); g->ClearStatistics(); vc_assert("every-element-is-zero", cx(d[j], 0, 0)); vc_assert("normalisation-is-zero", vc_eq(g->_NormAccu, 0)); vc_frozen("table-unchanged", t); }
BOTH(clear)
template <class B> static void squeeze(B& g) { int j = idx("j", g.tot); Complex* d = g->_WeightAccu._Data; Complex *t = g->_Weight._Data; vc_freeze(t, 0); Complex o = d[j]; double f = vc_real_oc("squeeze", 1e-3, 1e6), n = g->_NormAccu; g->SqueezeStatistics(f); vc_assert("every-element-is-divided-by-the-factor", cx(d[j], o.Re / f, o.Im / f)); vc_assert("normalisation-is-divided-by-the-factor", vc_eq(g->_NormAccu, n / f)); vc_frozen("table-unchanged", t); }
BOTH(squeeze)
// ---------------------------------------------------------------- the constructors establish what the look-ups assume
VC_TASK(constructor_g) { Q q = dom(); Lattice l(V(q.lx, q.ly), q.s); ll v = l.Vol, n = q.n; vc_assume((v >= 1) & (v <= 1000000000)); vc_assume(2 * v * n * n <= 2147483647LL); vc_fact("sizes", (n * n >= 1) & (n * n <= 2147483647LL) & (v * n * n >= 1) & (v * n >= 1) & (v * n <= 2147483647LL)); double f = vc_real("norm"); Box<GammaGClass> g; memset(g.raw, 0, sizeof g.raw); new (g.p) GammaGClass(l, q.beta, q.n, f);
    vc_assert("table-has-one-element-per-spin-displacement-and-pair-of-bins", ((ll)g->_Weight._Size == 2 * v * n * n) & ((ll)g->_WeightAccu._Size == 2 * v * n * n) & ((ll)g->_WeightSize == 2 * v * n * n));
    vc_assert("strides", (g->_CacheIndex[0] == 1) & (g->_CacheIndex[1] == n) & (g->_CacheIndex[2] == n * n) & (g->_CacheIndex[3] == n * n * v)); vc_assert("bins-per-temperature", vc_eq(g->_Beta, q.beta) & (g->_MaxTauBin == n) & vc_eq(g->_dBetaInverse, n / q.beta)); vc_assert("starts-empty", vc_eq(g->_NormAccu, 0)); vc_assert("factor-per-volume-bins-and-temperature", vc_eq(g->_Norm, f * (n / q.beta) * (n / q.beta) / q.beta / v)); int j = idx("j", 2 * v * n * n); vc_assert("starts-at-zero", cx(g->_WeightAccu._Data[j], 0, 0)); if (!vc_symbolic()) g->~GammaGClass(); }
VC_TASK(constructor_w) { Q q = dom(); Lattice l(V(q.lx, q.ly), q.s); ll v = l.Vol, n = q.n; vc_assume((v >= 1) & (v <= 40000)); vc_fact("sizes", (n * n >= 1) & (n * n <= 900000000LL) & (v * n >= 1) & (v * n <= 1200000000LL)); double f = vc_real("norm"); Box<GammaWClass> g; memset(g.raw, 0, sizeof g.raw); std::vector<basis> b; if (!vc_symbolic()) b.push_back(basis(3, 1.0)); new (g.p) GammaWClass(l, q.beta, q.n, b, f);
    vc_assert("bins-per-temperature", vc_eq(g->_Beta, q.beta) & (g->_MaxTauBinTiny == n) & vc_eq(g->_dBetaInverse, n / q.beta) & ((ll)g->_Vol == v)); vc_assert("factor-per-volume-bins-and-temperature", vc_eq(g->_Norm, f * (n / q.beta) * (n / q.beta) / q.beta / v)); if (!vc_symbolic()) g->~GammaWClass(); }
// ---------------------------------------------------------------- lemmas: the positional value of the digits is collision free
VC_TASK(lemma_digit) { int n = vc_int("n", 1, 2000000000); int r = vc_int("r", 0, n - 1), s = vc_int("s", 0, n - 1); int h = vc_int("h", 0, 2000000000), g = vc_int("g", 0, 2000000000), H = vc_int("H", 1, 2000000000); vc_assume(h < H);
    vc_assert("digit-unique", (((ll)h * n + r) == ((ll)g * n + s)) == ((h == g) & (r == s))); vc_assert("below-product", (ll)h * n + r < (ll)H * n); vc_assert("nonnegative", (ll)h * n + r >= 0); }
VC_TASK(lemma_vertex_G) { ll n = vc_int("bins", 1, 30000), v = vc_int("volume", 1, 1000000000); if (!vc_symbolic()) { n = 1 + n % 9; v = 1 + v % 9; } int s = vc_bool("s"), S = vc_bool("s"), c = idx("c", v), C = idx("c", v), a = idx("a", n), A = idx("a", n), b = idx("b", n), B = idx("b", n);
    ll k1 = a * n + b, K1 = A * n + B; vc_fact("bins-in-row", (k1 >= 0) & (k1 < n * n) & (K1 >= 0) & (K1 < n * n)); vc_fact("bins", (k1 == K1) == ((a == A) & (b == B))); ll N = n * n; ll k2 = c * N + k1, K2 = C * N + K1; vc_fact("row-in-block", (k2 >= 0) & (k2 < v * N) & (K2 >= 0) & (K2 < v * N)); vc_fact("row", (k2 == K2) == ((c == C) & (k1 == K1))); ll M = v * N; vc_assert("distinct-arguments-distinct-elements", ((s * M + k2) == (S * M + K2)) == ((s == S) & (c == C) & (a == A) & (b == B))); }
