// C16: random proposals stay inside their domains with the stated densities
#include "rngctl.h"
#include "utility/momentum.h"
#include "lattice/lattice.h"
#include "module/markov/markov.h"
using namespace mc;
static const double T32 = 4294967296.0;
static Vec<int> V(int x, int y) { Vec<int> v(0); v[0] = x; v[1] = y; return v; }
static double fmod2(double r, int m) { unsigned long long k = (unsigned long long)r; return (double)(long long)(k % (unsigned long long)m); }
// v is the value of a uniform pick from [a, a+m-1] driven by output r
static int pick(double v, int a, int m, double r) { return v == a + fmod2(r, m); }
struct Sim { RandomFactory f; Markov m; Lattice l; real beta; Sim(int lx, int ly, int s) : f(1), l(V(lx, ly), s) { m.RNG = &f; m.Lat = &l; } };

VC_TASK(urn) { RandomFactory f(1); rng_ready(f, 1); double u = f.urn(); vc_assert("one-output-per-number", vc_ndraws() == 1); vc_assert("unit-interval", (u >= 0) & (u < 1)); }
VC_TASK(urn_uniform) { RandomFactory f(1); rng_ready(f, 2); double u = f.urn(), v = f.urn(); double a = u * T32, b = v * T32; double r = vc_draw(0), s = vc_draw(1);
    vc_assert("grid-point", a == (double)(long long)a); vc_assert("equidistributed", (a == b) == (r == s)); }
VC_TASK(irn) { RandomFactory f(1); int a = vc_int("from", -1000000, 1000000), m = vc_int("width", 1, 1000000); rng_ready(f, 1); int v = f.irn(a, a + m - 1);
    vc_assert("between-bounds", (v >= a) & (v <= a + m - 1)); vc_assert("fair-share", pick(v, a, m, vc_draw(0))); vc_assert("one-output-per-number", vc_ndraws() == 1); }
VC_TASK(pick_tau) { Sim s(4, 4, 2); s.m.Beta = vc_real_oc("beta", 0, 100); rng_ready(s.f, 2); double t = s.m.RandomPickTau();
    vc_assert("in-range", (t >= 0) & (t < s.m.Beta)); double w = s.m.RandomPickTau();
    vc_assert("equidistributed", (vc_eq(t, w) | !vc_symbolic() ? 1 : 0) == ((vc_draw(0) == vc_draw(1)) | !vc_symbolic()));
    vc_assert("density", vc_eq(s.m.ProbTau(t) * s.m.Beta, 1) & vc_eq(s.m.ProbTau(w) * s.m.Beta, 1)); }
VC_TASK(pick_site) { int lx = vc_int("Lx", 1, 10000), ly = vc_int("Ly", 1, 10000), n = vc_int("sublat", 1, 16); Sim s(lx, ly, n); rng_ready(s.f, 8); Site p = s.m.RandomPickSite();
    int x = p.Coordinate[0], y = p.Coordinate[1], b = p.Sublattice; vc_assert("draws", vc_ndraws() == 3);
    vc_assert("in-domain", (x >= 0) & (x < lx) & (y >= 0) & (y < ly) & (b >= 0) & (b < n));
    double a = vc_draw(0), c = vc_draw(1), d = vc_draw(2); int m0 = lx, m1 = ly, m2 = n;
    vc_assert("fair-share", (pick(x, 0, m0, a) & pick(y, 0, m1, c) & pick(b, 0, m2, d)) | (pick(x, 0, m0, a) & pick(y, 0, m1, d) & pick(b, 0, m2, c)) | (pick(x, 0, m0, c) & pick(y, 0, m1, a) & pick(b, 0, m2, d))
        | (pick(x, 0, m0, c) & pick(y, 0, m1, d) & pick(b, 0, m2, a)) | (pick(x, 0, m0, d) & pick(y, 0, m1, a) & pick(b, 0, m2, c)) | (pick(x, 0, m0, d) & pick(y, 0, m1, c) & pick(b, 0, m2, a)));
    vc_assert("density", vc_eq(s.m.ProbSite(p) * ((double)lx * ly * n), 1)); }
static int near(int v, int x, int L, double r) { int e = x + (int)fmod2(r, 3) - 1; if (e < 0) e += L; if (e >= L) e -= L; return v == e; }
VC_TASK(pick_neighbor) { int lx = vc_int("Lx", 1, 10000), ly = vc_int("Ly", 1, 10000), n = vc_int("sublat", 1, 16); Sim s(lx, ly, n); int px = vc_int("x", 0, lx - 1), py = vc_int("y", 0, ly - 1); rng_ready(s.f, 8);
    Site o(vc_int("s", 0, n - 1), V(px, py)); Site p = s.m.RandomPickNeighborSite(o); int x = p.Coordinate[0], y = p.Coordinate[1], b = p.Sublattice;
    vc_assert("in-domain", (x >= 0) & (x < lx) & (y >= 0) & (y < ly) & (b >= 0) & (b < n)); vc_assert("is-neighbour", s.m.isNeighbor(o, p) & s.m.isNeighbor(p, o));
    vc_assert("source-unchanged", (o.Coordinate[0] == px) & (o.Coordinate[1] == py));
    vc_assert("density", vc_eq(s.m.ProbNeighborSite(p) * (9.0 * n), 1)); }
VC_TASK(neighbor_def) { int lx = vc_int("Lx", 1, 10000), ly = vc_int("Ly", 1, 10000); Sim s(lx, ly, 2); int a = vc_int("x", 0, lx - 1), b = vc_int("y", 0, ly - 1), c = vc_int("u", 0, lx - 1), d = vc_int("v", 0, ly - 1);
    Site p(0, V(a, b)), q(1, V(c, d)); int dx = c - a < 0 ? a - c : c - a, dy = d - b < 0 ? b - d : d - b;
    int want = ((dx <= 1) | (dx == lx - 1)) & ((dy <= 1) | (dy == ly - 1)); vc_assert("neighbour-iff-within-one-cell", s.m.isNeighbor(p, q) == (bool)want); }
VC_TASK(pick_k) { Sim s(4, 4, 2); rng_ready(s.f, 8); Momentum k = s.m.RandomPickK(); vc_assert("in-range", (k.K >= -10000) & (k.K <= 10000)); vc_assert("draws", vc_ndraws() == 1); vc_assert("fair-share", pick(k.K, -10000, 20001, vc_draw(0))); }
VC_TASK(pick_spin) { Sim s(4, 4, 2); rng_ready(s.f, 8); int v = s.m.RandomPickSpin(); vc_assert("in-domain", (v == DOWN) | (v == UP)); vc_assert("draws", vc_ndraws() == 1); double r = fmod2(vc_draw(0), 2); int w = s.m.RandomPickSpin(); double q = fmod2(vc_draw(1), 2); vc_assert("fair-share", (v == w) == (r == q)); }
VC_TASK(pick_deltaspin) { Sim s(4, 4, 2); rng_ready(s.f, 8); int v = s.m.RandomPickDeltaSpin(); vc_assert("in-domain", (v == 1) | (v == -1)); double r = fmod2(vc_draw(0), 2); int w = s.m.RandomPickDeltaSpin(); double q = fmod2(vc_draw(1), 2); vc_assert("fair-share", (v == w) == (r == q)); }
VC_TASK(pick_dir) { Sim s(4, 4, 2); rng_ready(s.f, 8); int v = s.m.RandomPickDir(); vc_assert("in-domain", (v == IN) | (v == OUT)); double r = fmod2(vc_draw(0), 2); int w = s.m.RandomPickDir(); double q = fmod2(vc_draw(1), 2); vc_assert("fair-share", (v == w) == (r == q)); }
VC_TASK(pick_bool) { Sim s(4, 4, 2); rng_ready(s.f, 8); bool v = s.m.RandomPickBool(); double r = fmod2(vc_draw(0), 2); bool w = s.m.RandomPickBool(); double q = fmod2(vc_draw(1), 2); vc_assert("fair-share", (v == w) == (r == q)); vc_assert("draws", vc_ndraws() == 2); }
